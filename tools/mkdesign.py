#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, one section per property (tables below + checks.py + seeded/), tools/design_tail.md."""
import json, os, sys, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
from checks import CHECKS
HOW = {
"C01": ("one symbolic image is trained, one symbolic image queried; oracle: equality on the mapped positions, written without tables or addresses (`agree`). `e_near`: the query differs from the trained image at one or two symbolic places, which keeps 64-position shapes decidable fast.", "17 s"),
"C02": ("n symbolic images trained one by one, as batch, split, packed, reversed; oracle: count of agreeing images (`ref_votes`). Long histories and large tables have concrete bulk and symbolic edges.", "7 s"),
"C03": ("train n, leave out any subset (params enumerate subsets, images symbolic); oracle: votes, mental image and counter computed from the remaining images only. Wisard: two classes, a never trained label, repeated pairs in one leaveMoreOut call, 300 trainings of which 260 are left out.", "55 s"),
"C04": ("`rand()` returns a fresh solver variable per call (`sym_rand_mode`), so one run covers every random mapping; oracle: coverage counts per position.", "16 s"),
"C05": ("sizes, indexes, mapping entries and ClusWisard settings are symbolic 32-bit integers (floats: every bit pattern); oracle: the sentence of the property as one boolean; `CHECK(threw == bad)`. The limit of the address space is computed with 128-bit arithmetic.", "32 s"),
"C06": ("pixels are any 32-bit integer; oracle: `bad` = some addressed pixel outside 0..base-1 or wrong size. The executor checks every load and store, so 'no out-of-bounds access' is decided on the same paths.", "18 s"),
"C07": ("the vote table is symbolic; oracle: `ref_bleach`, which evaluates every threshold without branches and selects the first settled one. Confidence is any 32-bit value.", "65 s"),
"C08": ("symbolic images under listed label assignments; oracle: `ref_winner(ref_bleach(ref_votes))`; training order, batches, packed data and accompanying queries vary.", "18 s"),
"C09": ("a symbolically trained discriminator (or one loaded from a symbolic 64-bit address and 32-bit counter) is written with json() and read back, the JSON library included in the encoding; oracle: reference votes and the original's behaviour, also after further training and un-training.", "50 s"),
"C10": ("as C09 for Wisard, every option off its default, label table and every 7-bit character.", "91 s"),
"C11": ("bytes symbolic; oracle: RFC 4648 sextets written as arithmetic.", "5 s"),
"C12": ("bits, index and values symbolic; oracle: the list itself.", "44 s"),
"C13": ("bits and label bytes symbolic; files live in the in-memory file system of rt.cpp; oracle: the data set that was saved.", "79 s"),
"C14": ("addresses (64 bit) and values (32 bit) symbolic; oracle: the cells put in.", "80 s"),
"C15": ("text bytes symbolic; the deciding assertions are the executor's own memory checks (bounds, lifetime, uninitialised reads, division, null), plus size bounds of the results; each counterexample is replayed under ASan/UBSan or valgrind.", "110 s"),
"C16": ("oracle: per RAM connection the number of images that are non-zero there, from the images alone.", "12 s"),
"C17": ("intensities and every random number symbolic; exact share: all residues 0..max-1 of the draw are executed and counted.", "28 s"),
"C18": ("coordinates are any doubles: floating point results are abstracted to unconstrained values (`--abstract-fp`), which covers every rounding and NaN; order-sensitive runs (`e_nearest`, `e_sequence`) use exact arithmetic on a grid and an independent nearest-kernel oracle.", "7 s"),
"C19": ("oracle: `ref_train` in clus.h, the rule of the statement on reference votes; single-precision arithmetic is evaluated exactly after case split.", "79 s"),
"C20": ("oracle: reference winner over the discriminators' votes; labels contain '::', digits, nothing, any single byte.", "8 s"),
"C21": ("oracle: a second model fed image by image in the documented order.", "164 s"),
"C22": ("oracle: `ref_train` on the unsupervised cluster.", "100 s"),
"C23": ("as C10 for ClusWisard with supervised and unsupervised parts.", "54 s"),
"C24": ("the Python classes are compiled against harness/pystub (a value-semantics stand-in for pybind11); oracle: the formulas of the statement on reference scores, within 1e-5 (single precision).", "17 s"),
"C25": ("each kind of query between two observations; oracle: the same model without the query (texts, votes, later training).", "60 s"),
"C26": ("the same symbolic data through both interfaces; oracle: reference votes and equality.", "24 s"),
"C27": ("oracle: zero votes, zero counters, equal mappings, then reference votes after training.", "21 s"),
"C28": ("in-memory files, random file names symbolic or repeating; oracle: the model loaded from inline text.", "77 s"),
"C29": ("every option given or not; oracle: table of defaults, reference votes under the options, and equality of the C++ and Python forms.", "60 s"),
"C30": ("several models in one process; oracle: reference votes of each model's own history.", "41 s"),
}
head = open(HERE + "/tools/design_head.md").read(); tail = open(HERE + "/tools/design_tail.md").read()
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
seeds = {}
for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    m = json.load(open(f)); seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
out = [head, "\n## 4. Per property\n\nTimes: quick tier alone on 8 cores, unchanged tree. Every property below is claimed; none is listed as not applicable.\n"]
for p in props:
    c = CHECKS[p["id"]]; how, t = HOW[p["id"]]
    q = sum(j.get("tier", "quick") == "quick" for j in c["jobs"]); n = len(c["jobs"]) - q
    out.append("### %s %s\n\n- **How**: harness/%s; %s\n- **Bounds**: %s.\n- **Outside**: %s.\n- **Cost**: %d symbolic runs (%d more in the thorough tier), %s.\n- **Planted bugs** (all caught by this check): %s.\n" %
               (p["id"], p["title"], c["src"], how, c["bounds"], c.get("outside") or "values beyond these bounds", q, n, t, "; ".join("`%s` (%s)" % (s, m["what_it_breaks"]) for s, m in seeds.get(p["id"], [])) or "-"))
open(HERE + "/DESIGN.md", "w").write("\n".join(out) + "\n" + tail); print(len("\n".join(out)) + len(tail), "bytes")
