# One entry per property: harness, symbolic runs (entry point x bounds) and what the bounds leave out.
def J(entry, tier="quick", **k):
    opt = {x: k.pop(x) for x in ("cost", "merge", "absfp", "mem", "samples", "maxviol", "qtimeout", "steps", "noreplay", "src_only", "quick_only") if x in k}
    return dict(entry=entry, tier=tier, params=k, **opt)
T = "thorough"
CHECKS = {}
CHECKS["C11"] = dict(src="c11.cpp",
    jobs=[J("e_encode", n=n) for n in list(range(0, 9)) + [12, 24, 25, 26]] + [J("e_roundtrip", n=n, cost=n) for n in range(0, 10)] +
         [J("e_roundtrip", T, n=n, cost=n) for n in (12, 13, 14, 24)] + [J("e_encode", T, n=n) for n in (48, 49, 50, 96)],
    bounds="every byte string of length 0..8, 12, 24..26 (encode) and 0..9 (round trip); thorough: up to 96 and 24",
    outside="longer strings (both loops treat each group of three bytes alike)")
SMALL = (0, 1, 2, 3, 4, 5, 16, 17, 19, 20, 21)
WIDE = (6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 22, 23)
SHAPES = "position mappings of model.h shape(): 11 small ones (1-3 RAMs, address size 2-4, overlapping/repeated/unmapped/reordered positions, bases 2,3,4,10) and 12 wide ones (address spaces up to the full 2^64: base 2 x 31..64 bits, base 3 x 40, base 4 x 32, base 5 x 27, base 10 x 19, 16^16, 256^8, 65536^4, 2147483647^2), 12 RAMs"
CHECKS["C01"] = dict(src="c01.cpp",
    jobs=[J("e_vote", shape=k, ignoreZero=z, qtimeout=60, cost=2 if k in WIDE else 1) for k in SMALL + WIDE for z in (0, 1)] + [J("e_vote", shape=18)] +
         [J("e_near", shape=k, ignoreZero=z, diffs=d, qtimeout=60) for k in (12, 8) for z in (0, 1) for d in (1, 2)] + [J("e_packed", shape=k, ignoreZero=z) for k in (0, 1, 5, 7, 15, 23) for z in (0, 1)],
    bounds="every pair of images (all pixel values 0..base-1) for each of the " + SHAPES + ", ignoreZero on and off, list and packed images",
    outside="other mappings; constructors other than the mapping one (C04 decides what mapping they make)")
CHECKS["C02"] = dict(src="c02.cpp",
    jobs=[J("e_count", shape=k, n=3, ignoreZero=z, cost=3) for k in SMALL for z in (0, 1)] + [J("e_count", shape=k, n=4, ignoreZero=0, cost=5) for k in (0, 16)] +
         [J("e_count", shape=k, n=2, ignoreZero=0, qtimeout=60) for k in WIDE] + [J("e_batch", shape=k, n=3, ignoreZero=z, cost=4) for k in (0, 2, 4, 16) for z in (0, 1)] +
         [J("e_many", shape=0, n=300), J("e_many", shape=2, n=1000, ignoreZero=1), J("e_many", shape=16, n=70000, cost=9), J("e_cells", bits=6), J("e_cells", bits=7)] +
         [J("e_count", T, shape=k, n=4, ignoreZero=z, cost=9) for k in SMALL for z in (0, 1)] + [J("e_count", T, shape=k, n=5, ignoreZero=1, cost=20) for k in (0, 16, 17)] +
         [J("e_batch", T, shape=k, n=4, ignoreZero=z, cost=9) for k in (1, 20, 21) for z in (0, 1)] + [J("e_many", T, shape=0, n=200000), J("e_cells", T, bits=8)],
    bounds="every sequence of 3 images (4 and 5 on some shapes in the thorough tier) and every query for the small shapes, 2 images for the wide ones (" + SHAPES + "); one by one, batches, split batches, packed, reversed; 300..70000 repetitions of one image with a symbolic one in between; tables of 64/128 different cells with a symbolic query",
    outside="longer sequences of independent symbolic images")
CHECKS["C03"] = dict(src="c03.cpp",
    jobs=[J("e_untrain", shape=k, n=3, mask=m, interleave=i, ignoreZero=(m + i) & 1, cost=3) for k in (0, 3) for m in (1, 2, 4, 5, 7) for i in (0, 1)] +
         [J("e_untrain", shape=k, n=2, mask=m, ignoreZero=z, cost=3) for k in (1, 2, 4, 21) for m in (1, 2, 3) for z in (0, 1)] +
         [J("e_wisard", shape=20, out=o, more=m, ignoreZero=o & 1, cost=9) for o, m in ((0, 1), (1, 0), (2, 0), (3, 1))] + [J("e_wisard", shape=2, out=1, more=1), J("e_wisard", shape=2, out=2, more=0, ignoreZero=1)] + [J("e_batch", shape=k, times=t, out=o, order=r, ignoreZero=r & 1) for k in (16, 20) for t, o in ((3, 2), (5, 3), (2, 1)) for r in (0, 1, 2)] + [J("e_often", shape=k, n=n, out=o) for k, n, o in ((0, 300, 260), (2, 1000, 1000), (3, 40, 33), (16, 70000, 5))] + [J("e_wisard", T, shape=20, out=o, more=m, ignoreZero=z, cost=9) for o in range(4) for m in (0, 1) for z in (0, 1)] +
         [J("e_untrain", T, shape=k, n=3, mask=m, interleave=i, cost=9) for k in (1, 2, 4, 20, 21) for m in (1, 2, 3, 4, 5, 6, 7) for i in (0, 1)] + [J("e_untrain", T, shape=k, n=4, mask=m, interleave=i, cost=20) for k in (0, 16) for m in (3, 6, 9, 15) for i in (0, 1)],
    bounds="every sequence of 3 (2) images, any of five subsets of them left out afterwards or while training goes on, small shapes (quick: one ignoreZero setting per subset); Wisard with two classes and four images, any one left out (leaveOneOut, leaveMoreOut), plus an untrained label",
    outside="leaving out images that were not trained (no promise)")
CHECKS["C04"] = dict(src="c04.cpp",
    jobs=[J("e_random", **{"as": a, "es": e, "complete": c, "cost": e}) for a in (2, 3, 4) for e in range(a, 5) for c in (0, 1) if (a, e, c) != (3, 4, 1)] +
         [J("e_random", **{"as": a, "es": e, "complete": c, "rmode": m, "cost": e}) for a, e, c, m in ((3, 4, 1, 12), (2, 5, 0, 60), (2, 5, 1, 60), (3, 5, 0, 60), (3, 5, 1, 60), (4, 5, 0, 60), (5, 5, 0, 60), (5, 5, 1, 60), (2, 6, 0, 60), (2, 6, 1, 60), (3, 6, 0, 60), (3, 6, 1, 60), (4, 6, 0, 60), (5, 6, 0, 60))] +
         [J("e_random", T, **{"as": a, "es": e, "complete": c, "rmode": 420, "cost": 9}) for a, e, c in ((2, 7, 0), (3, 7, 0), (4, 7, 0), (4, 5, 1), (5, 7, 0))] + [J("e_random", T, **{"as": a, "es": e, "complete": c, "cost": 9}) for a, e, c in ((2, 5, 0), (3, 5, 0), (3, 4, 1))] +
         [J("e_options", **{"as": 2, "es": 3, "complete": c}) for c in (0, 1)] + [J("e_sweep", **{"as": a, "to": t, "complete": c}) for a, t in ((2, 20), (5, 41), (8, 65), (9, 40), (16, 50), (33, 70), (64, 130)) for c in (0, 1)] + [J("e_wisard", **{"as": 2, "es": 3, "complete": c, "rmode": 12}) for c in (0, 1)] +
         [J("e_large", **{"as": a, "es": e, "complete": c}) for a, e in ((7, 200), (28, 784), (40, 100), (64, 64)) for c in (0, 1)] +
         [J("e_indexes", **{"as": a, "es": e, "cost": 5}) for a, e in ((2, 4), (3, 5), (2, 5), (4, 4))] + [J("e_mapping", es=4), J("e_mapping", es=8), J("e_python")],
    bounds="every sequence of random numbers for address sizes 2..5 and entry sizes up to 6 with and without completeAddressing (Discriminator constructors, Wisard classes, Python class); larger sizes up to 784 with one random sequence; every permutation of 4/5 indexes; every mapping of three RAMs over 4/8 positions",
    outside="larger sizes with all random sequences; the distribution of the mapping")
CHECKS["C05"] = dict(src="c05.cpp",
    jobs=[J("e_sizes", via=v, complete=c) for v in (0, 1, 2) for c in (0, 1)] + [J("e_sizes", via=3)] + [J("e_space", m=m, via=v, at=0) for m in list(range(2, 34)) + [40, 41, 48, 62, 63, 64, 65] for v in (0,)] +
         [J("e_space", m=m, via=v, at=t) for m in (2, 3, 5, 32, 64, 65) for v in (0, 1, 2, 3) for t in (0, 1, 2, 3)] + [J("e_options", m=m) for m in (3, 4, 8, 33, 64)] +
         [J("e_indexes", n=n, es=e, via=v) for n, e in ((0, 3), (2, 3), (3, 3), (4, 3), (2, 2), (4, 4)) for v in (0, 1, 2, 3) if n or not v] + [J("e_mapping", es=e, via=v, second=s) for e in (2, 4) for v in (0, 1, 2, 3) for s in (2, 3, 1)] +
         [J("e_cluswisard", via=v) for v in (0, 1)] + [J("e_cluswisard", via=2, src_only=True)] + [J("e_model", kind=k) for k in (0, 1, 2)],
    bounds="model sizes: every pair (addressSize, entrySize) the constructors take as symbolic 32-bit integers, both completeAddressing settings, Discriminator constructors; 256 bases around the limit of 33 address sizes (2..65 positions), around 0 and at both ends of int; models with address sizes -1..5 and entries of 1..4; every index list of 0..4 symbolic values; every mapping of 2 RAMs with symbolic positions; symbolic options (discriminatorsLimit, threshold, minScore ranges)", outside="longer lists of indexes; mappings with more RAMs")
CHECKS["C06"] = dict(src="c06.cpp",
    jobs=[J("e_values", base=b, size=n, ignoreZero=z) for b in range(5) for n in (3,) for z in (0, 1)] + [J("e_values", base=b, size=n) for b in (0, 1) for n in (0, 1, 2, 4, 9)] + [J("e_packed", size=n) for n in (0, 1, 2, 3, 4, 8, 9)] + [J("e_lists")] +
         [J("e_wisard", base=b, size=n) for b in (0, 2) for n in (0, 2, 3, 4)] + [J("e_clus", base=b, size=n, what=w) for b in (0, 1) for n in (1, 2, 3) for w in range(5)] +
         [J("e_confidence", **{"as": a, "es": e, "kind": k, "complete": c}) for a, e in ((2, 5), (3, 3), (2, 8)) for k in range(4) for c in (0, 1)] + [J("e_first")],
    bounds="every image of 0..9 pixels with any 32-bit value per pixel, bases 2..2^31-1 (five representative ones), ignoreZero on and off, list and packed images; batches with one wrong image at any place; Wisard and ClusWisard entry points; first, later and confidence queries", outside="images of more than 9 pixels (the checks run per pixel)")
CHECKS["C07"] = dict(src="c07.cpp",
    jobs=[J("e_make", classes=k, rams=r, top=t, on=o) for k, r, t in ((1, 2, 3), (2, 1, 4), (2, 2, 4), (3, 2, 3), (2, 3, 3), (4, 1, 3)) for o in (0, 1)] + [J("e_make", classes=2, rams=2, top=3, offset=f) for f in (7, 300)] + [J("e_make", classes=2, rams=2, top=3, best=1)] +
         [J("e_unequal", wide=w) for w in (0, 1)] + [J("e_order", classes=k, rams=2) for k in (2, 3)] + [J("e_extreme", what=w) for w in range(7)] + [J("e_wisard", on=o, confidence=c, again=a) for o in (0, 1) for c in (1, 2) for a in (0, 2)] +
         [J("e_make", T, classes=3, rams=3, top=2, cost=20), J("e_make", T, classes=2, rams=4, top=3, cost=20), J("e_make", T, classes=4, rams=2, top=2, cost=20)],
    bounds="every combination of RAM counters 0..top for 1..4 classes and 1..4 RAMs, bleaching on/off, confidence any 32-bit value, unequal RAM counts, counters up to 2^31-1 at the ends, class order, through make() and through Wisard", outside="larger vote tables than 4 classes x 2 RAMs or 2 x 4")
CHECKS["C08"] = dict(src="c08.cpp",
    jobs=[J("e_label", n=3, assign=a, ignoreZero=z, on=o, cost=3) for a in range(4) for z in (0, 1) for o in (0, 1)] + [J("e_label", n=3, assign=0, confidence=2, unequal=u, cost=3) for u in (0, 1)] + [J("e_label", n=2, assign=a, queries=2, cost=3) for a in (0, 1)] + [J("e_label", n=2, base=3, assign=0), J("e_label", n=4, assign=0, cost=9)] +
         [J("e_order", how=h, ignoreZero=z, cost=5) for h in range(4) for z in (0, 1)] + [J("e_random", seed=s, complete=c) for s in (1, 2, 3) for c in (0, 1)] + [J("e_label", n=3, assign=1, unequal=1, cost=4)] + [J("e_left", n=n, where=w, more=w, ignoreZero=z, cost=4) for n, w, z in ((2, 0, 0), (3, 0, 0), (2, 1, 1), (3, 1, 0))] + [J("e_left", n=2, on=0), J("e_left", n=2, unequal=1)],
    bounds="every set of 2..4 training images and query (all pixel values), every assignment of labels listed, confidence 1,2, ignoreZero and bleaching on/off, RAMs of unequal number; training orders; three random mappings; after leaving out any image, learned or not", outside="more images or classes")
CHECKS["C09"] = dict(src="c09.cpp",
    jobs=[J("e_saved", shape=k, n=1, ignoreZero=z) for k in SMALL + WIDE for z in (0, 1)] + [J("e_saved", shape=k, n=n, untrain=u, cost=3) for k in (0, 16, 2) for n in (2, 3) for u in (0, 1)] + [J("e_cells", ignoreZero=z) for z in (0, 1)] + [J("e_several", n=n) for n in (0, 1, 2, 3)] +
         [J("e_untrained", shape=k, ignoreZero=z) for k in (0, 1, 2, 6, 12) for z in (0, 1)] + [J("e_random", **{"as": a, "es": e, "complete": c}) for a, e in ((3, 7), (2, 5)) for c in (0, 1)] + [J("e_many", bits=b) for b in (4, 6)],
    bounds="every image pair for each of the " + SHAPES + "; up to 3 images; any 64-bit address and 32-bit counter as table content; up to three cells per RAM with any counters; 64-cell tables; random mappings; saved twice, trained and untrained further", outside="larger tables with symbolic content")
CHECKS["C12"] = dict(src="c12.cpp",
    jobs=[J("e_list", n=n, cost=n) for n in list(range(0, 10)) + [15, 16, 17]] + [J("e_ops", n=n, m=m, cost=m) for n, m in ((1, 2), (8, 3), (10, 3), (17, 2))] + [J("e_large", n=n) for n in (12, 255, 256, 257, 65535, 65536, 65537, 524287, 524288, 524289, 1000003)] + [J("e_large", n=70000, at=a) for a in (0, 2040, 32760, 65530)] + [J("e_reload", n=n) for n in (64, 255, 256, 257, 1000, 2049)] +
         [J("e_list", T, n=n, cost=n) for n in (24, 25, 31, 33)] + [J("e_ops", T, n=24, m=4, cost=9)] + [J("e_reload", T, n=n) for n in (20000, 70001)],
    bounds="every list of 0..9, 15..17 bits (thorough: up to 33), any 64-bit index, any single setting, 2-3 settings in a row; sizes up to 1000003 with a window of symbolic positions at the ends and at byte borders; texts of sizes up to 2049 (70001)", outside="other sizes with all bits symbolic; lists holding other values than 0 and 1")
CHECKS["C13"] = dict(src="c13.cpp",
    jobs=[J("e_file", k=k, pattern=p, cost=k) for k in (1, 2, 3) for p in range(6)] + [J("e_file", k=4, pattern=1, cost=4), J("e_file", k=4, pattern=3, cost=4)] + [J("e_same_name", k=k) for k in (0, 1, 2)] + [J("e_empty")] + [J("e_name", n=n) for n in (0, 1, 5, 6, 7, 9)] +
         [J("e_long", len=l, n=n) for l, n in ((40, 10), (400, 100), (1000, 784))] + [J("e_many", k=k) for k in (11, 40)] + [J("e_file", T, k=4, pattern=p, cost=9) for p in (0, 2, 4, 5)] + [J("e_many", T, k=200)],
    bounds="data sets of 0..4 inputs of 0..16 symbolic bits with labels of 0..6 symbolic bytes (any byte), saved, loaded, saved again under the same name; file names of 0..9 symbolic characters; labels up to 1000 bytes with one symbolic byte, 40 (200) inputs", outside="an empty label text on a labelled input (a DataSet takes it as no label); several labels of which all bytes of more than 6 are symbolic")
CHECKS["C14"] = dict(src="c14.cpp",
    jobs=[J("e_load", pattern=p, cost=3) for p in range(6)] + [J("e_set", pattern=p, cost=4) for p in (0, 1, 2, 3, 5)] + [J("e_compare", n=n, m=m, cost=n + m) for n, m in ((0, 0), (0, 1), (1, 1), (1, 2), (2, 2), (2, 3))] + [J("e_compare_rams", how=h, cost=3) for h in range(6)] + [J("e_file", pattern=p) for p in (0, 1, 2, 3)] + [J("e_model", shape=k) for k in SMALL] +
         [J("e_compare", T, n=3, m=3, cost=9), J("e_set", T, pattern=4, cost=9)],
    bounds="handles of 0..3 RAMs with up to three cells of any 64-bit addresses and 32-bit values; any query address, any single set on any RAM; every pair of RAMs of up to 2 and 3 cells; files; data of trained models of the small shapes", outside="more cells with symbolic addresses")
CHECKS["C15"] = dict(src="c15.cpp",
    jobs=[J("e_decode", n=n, cost=n) for n in range(0, 9)] + [J("e_bininput", n=n, cost=n) for n in range(0, 7)] + [J("e_bininput_bytes", n=n) for n in range(0, 9)] + [J("e_ramdata", n=n, cost=n) for n in range(0, 5)] + [J("e_ramdata_bytes", n=n, cut=c, cost=3) for n in (0, 1, 3, 12, 13, 16) for c in (0, 1, 2, 3)] +
         [J("e_pool", n=n, what=w, cost=4) for n in (5, 6) for w in (0, 1, 2)] + [J("e_pool", n=4, what=w, fill=f) for w in (0, 1, 2) for f in (16, 20, 21, 28)] + [J("e_model", n=n, cost=n) for n in range(0, 4)] + [J("e_cell", m=m, base=b) for m, b in ((1, 2), (2, 2), (2, 3), (3, 10), (64, 2), (2, 2147483647))] +
         [J("e_file", n=n, cost=n) for n in range(0, 4)] + [J("e_file", T, n=4, cost=9)] + [J("e_file_pool", n=n, cost=4) for n in (5, 6)] + [J("e_ram_file", n=n, cost=n) for n in range(0, 4)],
    bounds="every text of 0..8 bytes as Base64, 0..6 as BinInput data, 0..4 as RAM data, model RAM data and file content; texts of 5..6 characters (and a valid prefix of 16..28) over a pool of a letter, '=', '.', '#' and '!'; coded strings of any 0..16 bytes, also cut short; models with one cell of any 64-bit address and 32-bit value; afterwards every documented operation", outside="longer malformed texts")
CHECKS["C16"] = dict(src="c16.cpp",
    jobs=[J("e_mental", shape=k, n=2, ignoreZero=z, cost=3) for k in SMALL for z in (0, 1)] + [J("e_mental", shape=k, n=1, qtimeout=60) for k in WIDE] + [J("e_mental", shape=k, n=3, cost=5) for k in (0, 16, 17)] + [J("e_base", m=2, which=w) for w in range(17)] + [J("e_base", m=3, which=w) for w in range(10)] +
         [J("e_random", **{"as": a, "es": e, "n": 2, "complete": c}) for a, e, c in ((2, 5, 0), (2, 5, 1), (3, 5, 0), (3, 5, 1), (3, 7, 0))] + [J("e_wisard", shape=k, cost=4) for k in (2, 16, 20)] + [J("e_packed", shape=k) for k in (0, 1)] + [J("e_clus", limit=l, one=o, n=3, cost=3) for l in (1, 2) for o in (0, 1)],
    bounds="every set of 2..3 images for the small and 1 image for the wide ones of the " + SHAPES + "; 17 bases from 2 to 2^31-1; random mappings with repeated positions; Wisard, ClusWisard and packed images", outside="more images")
CHECKS["C17"] = dict(src="c17.cpp",
    jobs=[J("e_make", n=n, top=t, rmode=r, times=2) for n, t, r in ((1, 3, 60), (3, 3, 60), (2, 3, 420), (4, 2, 12))] + [J("e_make", n=1, top=7, rmode=840, times=1)] + [J("e_shares", n=n, top=t, shift=s) for n, t in ((3, 4), (4, 3), (2, 9)) for s in (0, 1, 1000, 200000000)] + [J("e_large", n=n, top=t, steps=400000000) for n, t in ((20, 300), (50, 5), (4, 4000), (400, 60))] + [J("e_trained", shape=k) for k in (0, 1, 2, 16)] + [J("e_empty")],
    bounds="every mental image of 1..8 positions with intensities up to 2..7 and every sequence of random numbers below 60, 420 or 840 (every residue modulo every possible maximum); the share of draws, also at random numbers near the largest, for every mental image of 2..4 positions with intensities up to 9", outside="the quality of rand() itself; larger images with all intensities symbolic")
CHECKS["C18"] = dict(src="c18.cpp",
    jobs=[J("e_points", absfp=True, dim=d, kernels=k, bits=b, n=n, num=u, den=v, direction=r, cost=3) for d, k, b, n, u, v, r in ((1, 3, 2, 1, 1, 3, 0), (1, 3, 2, 2, 1, 3, 0), (1, 3, 1, 2, 2, 3, 0), (2, 3, 2, 1, 1, 2, 0), (1, 3, 2, 1, 1, 3, 1), (2, 2, 2, 1, 1, 2, 1), (1, 4, 1, 1, 0, 1, 0), (1, 3, 2, 1, 1, 1, 0), (1, 2, 3, 0, 1, 2, 0))] +
         [J("e_points", absfp=True, dim=1, kernels=3, bits=2, n=1, num=1, den=3, again=1)] + [J("e_nearest"), J("e_overlap"), J("e_empty")] + [J("e_sequence", n=n, dim=d, kernels=k, each=e, bits=b, top=t, cost=2) for n, d, k, e, b, t in ((3, 1, 4, 2, 2, 3), (3, 1, 7, 3, 1, 3), (2, 2, 5, 2, 3, 3), (4, 1, 6, 2, 1, 3), (4, 1, 7, 3, 1, 3), (4, 1, 4, 3, 2, 3), (3, 1, 8, 1, 2, 4))] + [J("e_wrong", dim=d, n=n, direction=r) for d in (1, 2) for n in (1, 2, 3) for r in (0, 1)] + [J("e_settings", what=w) for w in range(4)] + [J("e_degree", kernels=k) for k in (1, 2, 5)] + [J("e_rounding", kernels=k) for k in (1, 3, 10)],
    bounds="every sequence of 1..2 points of 1..2 doubles (any bit pattern, NaN and infinities included) on 2..4 kernels, useDirection on and off; point dimensions 0..3 in sequences of 1..3; every 32-bit kernel count, bit count and dimension below 7, every float as activation degree", outside="more kernels or points with symbolic coordinates; counts above 6")
CHECKS["C19"] = dict(src="c19.cpp",
    jobs=[J("e_grow", n=3, min=m, threshold=t, limit=l, cost=4) for m, t, l in ((0, 2, 2), (3, 2, 2), (4, 1, 2), (6, 9, 2), (1, 3, 1), (5, 4, 3))] + [J("e_grow", n=3, es=3, min=3, threshold=2, limit=2, one=1, ignoreZero=1, cost=4), J("e_grow", n=3, min=4, threshold=3, limit=2, base=3, cost=6), J("e_grow", n=3, es=5, complete=0, min=4, threshold=3, limit=2, cost=4)] +
         [J("e_many", n=n, min=m, threshold=t, limit=l, cost=3) for n, m, t, l in ((12, 1, 10, 3), (20, 2, 5, 2), (30, 6, 10, 12))] + [J("e_classes", min=m, cost=4) for m in (1, 4)] + [J("e_score", n=n, top=t) for n, t in ((1, 4), (2, 5), (3, 4))] +
         [J("e_grow", T, n=4, min=m, threshold=t, limit=l, cost=20) for m, t, l in ((3, 2, 3), (4, 1, 2), (6, 9, 3))],
    bounds="every sequence of 3 (4) images of 4..5 pixels for nine settings of minScore, threshold, limit, base, ignoreZero and completeAddressing; sequences of up to 30 images of which two are symbolic; two classes; every vote list of 1..3 RAMs up to 5", outside="longer sequences of symbolic images")
CHECKS["C10"] = dict(src="c10.cpp",
    jobs=[J("e_saved", n=n, how=h, ignoreZero=z, more=3 - n, cost=3) for n in (2, 3) for h in (0, 1, 2) for z in (0, 1)] + [J("e_saved", n=2, bleach=0, rc=1), J("e_saved", n=2, confidence=2, ra=1), J("e_saved", n=2, base=3, es=2, rd=1), J("e_saved", n=1, base=65536, es=2, **{"as": 2}), J("e_saved", n=2, complete=0, es=5, cost=3), J("e_saved", n=2, rc=1, ra=1, rd=1, bleach=0, ignoreZero=1, confidence=2, es=4, complete=0, **{"as": 2})] + [J("e_saved", n=2, out=1, **{"as": a}) for a in (2, 3)] +
         [J("e_empty", **k) for k in ({}, {"base": 5}, {"bleach": 0}, {"complete": 0, "ignoreZero": 1, "rc": 1})] + [J("e_labels", other=o) for o in (0, 1, 2, 9, 13)] + [J("e_byte", alone=a) for a in (0, 1)] + [J("e_many", ignoreZero=z) for z in (0, 1)],
    bounds="every set of 2..3 training images (2..5 pixels, bases 2,3,4,65536) of up to 3 classes, every query image; the options bleachingActivated, ignoreZero, completeAddressing, base, confidence, return* each off its default and together, indexes and mapping; labels: a table of 19 texts (empty, separators, quotes, control and non-ASCII characters) paired with five of them, and every 7-bit character alone and between letters; 12 classes of often trained images", outside="more pixels symbolic at once (C09 decides the wide address spaces RAM by RAM); labels that are not UTF-8 (json() throws)")
CHECKS["C20"] = dict(src="c20.cpp",
    jobs=[J("e_label", n=n, assign=a, cost=3) for n in (2, 3) for a in range(7)] + [J("e_label", n=3, assign=0, **k) for k in ({"on": 0}, {"confidence": 2}, {"ignoreZero": 1}, {"limit": 1}, {"min": 6, "threshold": 1, "limit": 3}, {"as": 3})] + [J("e_label", n=2, assign=2, base=3, es=2), J("e_label", n=2, assign=0, twice=1)] + [J("e_names", **{"from": f}) for f in (0, 3, 6, 9)] + [J("e_char", long=l) for l in (0, 1)] + [J("e_many", n=n) for n in (11, 12, 13)] + [J("e_apart", a=a, b=b, min=m) for a, b in ((2, 3), (0, 1), (3, 2), (6, 8)) for m in (1, 6)],
    bounds="every set of 2..3 training images under seven label pairs and triples (with '::', digits and empty labels), every query; confidence 1,2, bleaching and ignoreZero on/off, limits 1..3, address sizes 2..3, bases 2,3; every single byte as label, alone and inside; 11..13 discriminators in a class", outside="more images")
CHECKS["C21"] = dict(src="c21.cpp",
    jobs=[J("e_roles", n=n, stray=s, limit=l, cost=3) for n in (2, 3) for s in (0, 1) for l in (1, 2)] + [J("e_roles", n=2, labels=3, stray=1, **k) for k in ({"ignoreZero": 1}, {"on": 0}, {"confidence": 2}, {"as": 3})] + [J("e_roles", n=2, es=2, base=3)] + [J("e_before", new=x, limit=l) for x in (0, 1) for l in (1, 2)] + [J("e_more", n=n) for n in (14, 20)] + [J("e_rejected", n=n, k=k, pre=p) for n, k, p in ((1, 1, 0), (2, 2, 0), (2, 3, 1), (3, 2, 1))],
    bounds="every set of 2..3 images and every way to label each with one of two or three labels or none, with and without indexes that name no image; prior classes; 14..20 images with three labels; every label map of up to 3 indexes between -2 and n+1", outside="more symbolic images")
CHECKS["C22"] = dict(src="c22.cpp",
    jobs=[J("e_grow", n=n, how=h, limit=l, min=m, cost=3) for n, h, l, m in ((2, 0, 2, 3), (2, 1, 2, 6), (2, 2, 2, 4), (3, 0, 2, 3), (3, 1, 3, 6), (3, 2, 1, 1), (3, 0, 3, 1))] + [J("e_grow", n=k.pop("n", 2), **k) for k in ({"ignoreZero": 1}, {"base": 3, "es": 3}, {"complete": 0, "es": 5}, {"complete": 1, "es": 3}, {"on": 0, "min": 6}, {"n": 3, "on": 0, "min": 6, "es": 6, "sp": 4, "cost": 4}, {"n": 3, "on": 1, "min": 6, "es": 6, "sp": 4, "cost": 4}, {"as": 3}, {"how": 2, "ignoreZero": 1, "base": 4, "es": 3, "complete": 0})] + [J("e_grow", n=2, mental=1)] + [J("e_apart", min=m, limit=l) for m in (1, 6) for l in (1, 2)] + [J("e_many", n=13, limit=l) for l in (13, 11, 5)] + [J("e_order", n=n, limit=l, min=m) for n, l, m in ((7, 3, 1), (9, 4, 4))] + [J("e_crowd", on=o, cost=3) for o in (0, 1)] + [J("e_loaded", min=m, ignoreZero=z) for m in (3, 6) for z in (0, 1)],
    bounds="every sequence of 2..3 images in one call, one call each, or with supervised training between, every query; limits 1..3, four minimum scores, bases 2..4, ignoreZero, completeAddressing and bleaching on/off; 13 discriminators; 9 images of which two are symbolic; saving and loading between two calls", outside="more symbolic images")
CHECKS["C23"] = dict(src="c23.cpp",
    jobs=[J("e_saved", n=n, roles=r, more=3 - n, cost=3) for n in (2, 3) for r in (0, 1, 2)] + [J("e_saved", n=k.pop("n", 2), **k) for k in ({"ignoreZero": 1, "rc": 1}, {"base": 3, "es": 2}, {"complete": 0, "ra": 1}, {"on": 0, "rd": 1}, {"confidence": 2}, {"limit": 1, "mental": 0}, {"threshold": 7, "min": 1, "mental": 0}, {"min": 6, "limit": 4}, {"as": 3}, {"n": 1, "threshold": 2147483647, "limit": 2147483647}, {"n": 1, "threshold": 40000, "limit": 70000, "min": 7}, {"n": 1, "threshold": 255, "limit": 256, "min": 0})] + [J("e_many", n=n, min=m) for n, m in ((12, 6), (11, 6))] + [J("e_empty", part=p) for p in (0, 1, 2)] + [J("e_empty", part=p, min=m) for p, m in ((0, 8), (1, 9), (2, 10))] + [J("e_labels", other=o) for o in (0, 1, 2)],
    bounds="every set of 1..3 training images split over supervised and unsupervised training, every query; every option off its default; 11..12 discriminators in a class and in the unsupervised cluster with one further symbolic image; 19 label texts", outside="more symbolic images; labels that are not UTF-8 (json() throws)")
CHECKS["C24"] = dict(src="c24.cpp",
    jobs=[J("e_wisard", opts=o, n=3, src_only=1, cost=2) for o in range(8)] + [J("e_wisard", opts=7, n=n, extra=x, unequal=u, packed=p, src_only=1, cost=3) for n, x, u, p in ((3, 0, 1, 0), (2, 1, 0, 0), (2, 2, 1, 1), (3, 4, 0, 0), (4, 0, 0, 1))] + [J("e_wisard", opts=7, n=2, same=1, src_only=1)] + [J("e_wisard", opts=o, n=n, classes=c, unequal=u, src_only=1, cost=5) for o, n, c, u in ((7, 4, 4, 0), (7, 5, 5, 1), (4, 4, 4, 1), (3, 5, 5, 0))] + [J("e_clus", opts=o, n=2, src_only=1, cost=2) for o in range(8)] + [J("e_clus", opts=7, n=n, src_only=1, cost=3, **k) for n, k in ((3, {}), (3, {"min": 4}), (2, {"extra": 1}), (2, {"extra": 2}), (2, {"extra": 4}), (2, {"complete": 0}), (2, {"as": 2, "es": 4}))] + [J("e_untrained", src_only=1), J("e_loaded", opts=7, src_only=1), J("e_loaded", opts=2, src_only=1)] + [J("e_several", opts=o, src_only=1) for o in (1, 3, 7)] + [J("e_confidence", n=n) for n in (1, 2, 3, 4)],
    bounds="the Python classes compiled against a stand-in for pybind11 with value semantics: every set of 2..4 training images of up to 3 classes (3 pixels), every query, all eight combinations of result options, bleaching off, ignoreZero, confidence 2, classes with unequal numbers of RAMs, packed images; scores 0..5 of up to 4 candidates for the confidence", outside="the real pybind11 conversions (unchanged library code); more pixels")
CHECKS["C25"] = dict(src="c25.cpp",
    jobs=[J("e_wisard", n=2, what=w, more=1, cost=3) for w in (63,)] + [J("e_wisard", n=n, what=w, more=0) for n in (1, 2) for w in (1, 2, 4, 8, 16, 32)] + [J("e_wisard", n=2, what=63, more=0, text=1), J("e_wisard", n=1, what=63, ignoreZero=1), J("e_wisard", n=1, base=3, what=61, more=0), J("e_wisard", n=0, what=63)] + [J("e_discriminator", shape=k, ignoreZero=z) for k in (0, 2, 3, 16, 17) for z in (0, 1)] + [J("e_discriminator", shape=k) for k in (7, 11, 12)] + [J("e_saved", shape=k) for k in (0, 2, 16, 12)] +
         [J("e_clus", what=w, state=s, more=0) for w in (1, 2, 4, 8, 16, 32, 64) for s in (3,)] + [J("e_clus", what=127, state=s, more=m) for s in (0, 1, 2) for m in (0, 1)] + [J("e_clus", what=127, state=3, more=0, text=1), J("e_clus", what=127, state=3, more=1, cost=3)] + [J("e_python", empty=e, src_only=1) for e in (0, 1)],
    bounds="every training, query and probe image of 3..4 pixels (Discriminator also 9..33 pixels), each query kind alone and all together, also wrong-sized images and labels never trained; then further training and untraining", outside="longer histories")
CHECKS["C26"] = dict(src="c26.cpp",
    jobs=[J("e_wisard", shape=k, n=2, how=h, ignoreZero=z, cost=2) for k in (0, 2, 17, 20) for h, z in ((0, 0), (1, 1), (2, 0), (3, 1))] + [J("e_wisard", shape=17, n=3, how=0, **k) for k in ({}, {"on": 0}, {"confidence": 2})] + [J("e_discriminator", shape=k, ignoreZero=z, untrain=u) for k in (0, 1, 2, 5, 17) for z in (0, 1) for u in (0, 1)] + [J("e_discriminator", shape=k, two=0) for k in (6, 7, 15, 23)] + [J("e_long", es=e, **{"as": a}, cost=2) for e, a in ((9, 4), (17, 3), (33, 8), (64, 16), (65, 5), (70, 5), (129, 43), (200, 50))] + [J("e_long", es=70, ignoreZero=1, **{"as": 7})] + [J("e_random", es=e, complete=c) for e, c in ((5, 0), (5, 1), (4, 1))] + [J("e_cluster", min=m) for m in (1, 6)] + [J("e_rejected")] + [J("e_wisard", shape=k, n=2, how=h, base=b) for k, h, b in ((0, 2, 3), (2, 3, 3), (17, 0, 10), (20, 2, 7))] + [J("e_discriminator", shape=k, base=b, untrain=u) for k, b, u in ((0, 3, 1), (1, 4, 0), (17, 16, 1))] + [J("e_discriminator", shape=10, base=4, two=0), J("e_long", es=33, base=3, **{"as": 8}), J("e_long", es=70, base=16, **{"as": 7}), J("e_random", es=5, base=3), J("e_cluster", min=6, base=3)],
    bounds="every set of 2..3 images of 2..6 pixels as lists, as one data set, as several, and mixed; single images of 33..66 pixels all symbolic; images of 9..200 pixels with up to 3 symbolic pixels each at byte, 32-bit and 64-bit block ends; every probe; bases 2 to 16", outside="labels that a DataSet cannot carry (the empty one)")
CHECKS["C27"] = dict(src="c27.cpp",
    jobs=[J("e_discriminator", shape=k, ignoreZero=z) for k in SMALL for z in (0, 1)] + [J("e_discriminator", shape=k) for k in WIDE] + [J("e_discriminator", shape=0, n=2, untrain=1), J("e_discriminator", shape=0, n=0), J("e_discriminator", shape=1, n=2, times=5), J("e_discriminator", shape=0, n=1, times=300), J("e_wisard", times=5), J("e_wisard", how=2, times=70), J("e_clus", times=5)] + [J("e_wisard", how=h, ignoreZero=z, cost=3) for h in (0, 1, 2, 3) for z in (0, 1)] + [J("e_wisard", **k) for k in ({"bleach": 0, "rc": 1}, {"confidence": 2, "ra": 1}, {"base": 3, "es": 2, "rd": 1}, {"complete": 0, "es": 5, "top": 0}, {"n": 1}, {"n": 0}, {"how": 1, "es": 4})] + [J("e_clus", **k) for k in ({}, {"ignoreZero": 1, "rc": 1}, {"base": 3, "ra": 1}, {"complete": 0, "rd": 1}, {"bleach": 0, "confidence": 2}, {"limit": 1}, {"threshold": 9, "min": 1}, {"min": 6, "limit": 5}, {"threshold": 2147483647, "limit": 2147483647}, {"threshold": 40000, "limit": 70000, "min": 7}, {"threshold": 255, "limit": 256, "min": 0}, {"threshold": 1, "min": 5})],
    bounds="every training, further training and query image for the " + SHAPES + "; Wisard and ClusWisard with 2..5 pixels, every option off its default, indexes and mapping (also for classes not trained before)", outside="more images")
CHECKS["C28"] = dict(src="c28.cpp",
    jobs=[J("e_discriminator", shape=k, n=1, ignoreZero=z) for k in SMALL for z in (0, 1)] + [J("e_discriminator", T if k in (8, 12, 14, 22, 23) else "quick", shape=k, n=1) for k in WIDE] + [J("e_discriminator", shape=0, n=0), J("e_discriminator", shape=16, n=2, untrain=1), J("e_discriminator", shape=2, n=2)] + [J("e_discriminator", shape=0, n=1, prefix=p) for p in (0, 2, 3, 4)] + [J("e_two", again=a) for a in (0, 1)] + [J("e_wisard", label=l, other=o) for l, o in ((0, 1), (2, 3), (4, 5), (6, 7), (8, 9), (10, 11), (12, 13), (14, 15), (2, 7))] + [J("e_wisard", base=3), J("e_wisard", ignoreZero=1, prefix=0), J("e_wisard", **{"as": 3})] + [J("e_clus", label=l, other=o) for l, o in ((0, 1), (2, 3), (4, 5), (6, 9), (8, 12))] + [J("e_clus", uns=0, min=1), J("e_clus", prefix=0), J("e_clus", ignoreZero=1)] + [J("e_many", classes=c) for c in (3, 12)],
    bounds="every training image and query of a Discriminator for the " + SHAPES + "; Wisard and ClusWisard with two symbolic images and 16 label texts; prefixes with dots, spaces and './'; two models under one path, also with repeating random numbers; 12 classes of 20 RAMs", outside="file systems that fail or change under the reader; the in-memory files of the symbolic runs stand for the real ones (sampled paths are replayed on real files)")
CHECKS["C29"] = dict(src="c29.cpp",
    jobs=[J(e, how=h, back=b, cost=2) for e in ("e_wisard", "e_clus") for h, b in ((0, 0), (1, 0), (1, 1), (2, 1), (3, 0))] +
         [J("e_effect", off=o, **k) for o, k in ((0, {}), (1, {}), (2, {}), (4, {}), (8, {}), (128, {}), (256, {}), (128, {"base": 5}), (135, {}), (263, {}), (511, {}))] + [J("e_verbose", which=w) for w in range(3)] +
         [J("e_discriminator", off=o, back=o & 1) for o in list(range(16)) + [16, 17, 20, 21, 23]] + [J("e_lists", what=w) for w in range(4)] + [J("e_lists", what=w, off=o) for w, o in ((1, 1), (2, 1), (3, 1), (0, 3), (2, 2), (3, 4), (2, 8), (1, 6), (3, 15))] + [J("e_kernel", off=o) for o in range(8)] + [J("e_kernel", off=7, deg=d, bits=b, dir=r) for d, b, r in ((1, 1, 0), (2, 2, 1), (3, 3, 0), (4, 1, 1))] + [J("e_kernel", off=2, deg=1), J("e_kernel", off=6, deg=2, dir=0)],
    bounds="Wisard and ClusWisard in C++ (JSON) and Python (keywords, two orders): every single option with any flag value, four bases and four confidences; every option but one off its default; every combination of all seven flags with two bases and two confidences; none. Their effect on votes for every choice of 10 symbolic pixels; Discriminator options in 21 combinations with 8 symbolic pixels; indexes and mapping with every other option that acts on votes; KernelCanvas with 15..60 kernels and every combination of its options",
    outside="unknown option names (ignored by the code); ClusWisard indexes (documented, but no such option exists); the text that verbose prints")
CHECKS["C30"] = dict(src="c30.cpp",
    jobs=[J("e_wisards", shape=k, how=h, ignoreZero=h & 1, cost=3) for k in (16, 20) for h in range(5)] + [J("e_discriminators", shape=k, ignoreZero=z) for k in (0, 2, 3, 16) for z in (0, 1)] +
         [J("e_clus", how=h, min=m, limit=l, cost=3) for h in range(4) for m, l in ((4, 2), (6, 3), (0, 1))] + [J("e_data", n=n) for n in (1, 8, 9)] + [J("e_returned", shape=k) for k in (16, 20)] + [J("e_alone", how=h, on=o) for h in (0, 1, 2) for o in (0, 1)] + [J("e_others", direction=r) for r in (0, 1)] + [J("e_bases", order=o, ignoreZero=z) for o in range(4) for z in (0, 1)],
    bounds="two to five models in one process (made apart, copied, assigned, in a vector, loaded from the same text), trained in turns on every choice of three images and queried with every image of 2..4 pixels; ClusWisard with four images of which two are symbolic; packed inputs of 1, 8 and 9 symbolic bits, data sets, handles with any 64-bit address and 32-bit value; a small model after a large one, with absolute expectations; two canvases and two synthesizers in turns; discriminators of four bases and two address sizes in turns",
    outside="models used from several threads at once (no promise); longer histories")
