// C05: exactly the invalid configurations are rejected.
#include "model.h"
#include <climits>
static void use(Discriminator& d, int es, int base) { VI a(es, base - 1), z(es, 0); d.train(a); VI v = d.classify(z); d.classify(a); CHECK(d.getNumberOfTrainings() == 1, "usable"); d.getMentalImage(); }
ENTRY(e_sizes) {       // every address size, every entry size up to 6
  sym_rand_mode(1); bool complete = PARAM("complete", 1); int via = (int)PARAM("via", 0);
  int as = (int)sym_int("addressSize", INT_MIN, INT_MAX), es = (int)sym_int("entrySize", INT_MIN, PARAM("top", 6));
  bool bad = (as < 2) | (es < 2) | (as > es);
  if (!bad) { as = (int)__sym_concretize((uint64_t)as); es = (int)__sym_concretize((uint64_t)es); }
  bool t = THROWS_LIB(
    if (via == 0) { Discriminator d(as, es, false, complete, 2); if (!bad) use(d, es, 2); }
    else if (via == 1) { Discriminator d(as, es, nl::json{{"completeAddressing", complete}, {"base", 3}}); if (!bad) use(d, es, 3); }
    else if (via == 2) { Discriminator d(as, es); if (!bad) use(d, es, 2); }
    else { VI ix; for (int i = bad ? 4 : es; i--;) ix.push_back(i); if (bad) ASSUME(es == 4); Discriminator d(ix, as, es, false, 2); if (!bad) use(d, es, 2); });
  CHECK(t == bad, "address and entry sizes rejected exactly when below 2 or the address size exceeds the entry size"); REACH("sizes"); if (t) REACH("bad sizes"); else REACH("good sizes");
}
// the largest base whose power to m fits into 2^64
static long long top_base(int m) { long long lo = 1, hi = INT_MAX; while (lo < hi) { long long c = (lo + hi + 1) / 2; unsigned __int128 p = 1, lim = (unsigned __int128)1 << 64; bool ok = true; for (int i = 0; i < m && ok; i++) { p *= (unsigned long long)c; ok = p <= lim; } if (ok) lo = c; else hi = c - 1; } return lo; }
ENTRY(e_space) {       // 256 bases around the limit of each address size, around 0 and at the ends of int
  sym_rand_mode(1); int m = (int)PARAM("m", 8), via = (int)PARAM("via", 0), at = (int)PARAM("at", 0); long long top = top_base(m);
  static int tab[256]; for (int i = 0; i < 256; i++) { long long v = at == 0 ? top - 128 + i : at == 1 ? -128 + i : at == 2 ? (long long)INT_MAX - i : (long long)INT_MIN + i; tab[i] = (int)(v > INT_MAX ? v - 256 : v); }
  int base = tab[sym_int("base", 0, 255)]; bool bad = (base < 2) | (base > top);
  VI pos; for (int i = 0; i < m; i++) pos.push_back(i % 3); VVI mp(1, pos), two(1, VI{0, 1}); two.push_back(pos); VI ix; for (int i = 0; i < m; i++) ix.push_back(m - 1 - i);
  bool t = THROWS_LIB(
    if (via == 0) { Discriminator d(mp, 3, false, base); if (!bad) d.classify(VI(3, 1)); }
    else if (via == 1) { Discriminator d(two, 3, true, base); if (!bad) d.classify(VI(3, 1)); }
    else if (via == 2) { Discriminator d(m, m, true, true, base); if (!bad) d.classify(VI(m, 1)); }
    else { Discriminator d(ix, m, m, false, base); if (!bad) d.classify(VI(m, 1)); });
  CHECK(t == bad, "base rejected exactly when below 2 or its power to the address size exceeds 2^64"); REACH("space");
}
ENTRY(e_options) {     // the base among the options, limits at a few address sizes
  sym_rand_mode(1); int m = (int)PARAM("m", 4); long long top = top_base(m); static int tab[16]; for (int i = 0; i < 8; i++) { tab[i] = (int)(top - 4 + i); tab[8 + i] = i - 4; }
  int base = tab[sym_pick("base", 0, 15)]; bool bad = base < 2 || base > top;
  CHECK(THROWS_LIB(Discriminator d(m, m, nl::json{{"base", base}})) == bad, "base among the options");
  VVI two{{0, 1}, VI(m, 1)}; CHECK(THROWS_LIB(Discriminator d(2, 2, nl::json{{"base", base}, {"mapping", two}})) == bad, "base with a mapping among the options");
#ifndef USE_HPP
  py::kwargs k; k.set("base", base); CHECK(THROWS_LIB(DiscriminatorWrapper d(m, m, k)) == bad, "base keyword");
#endif
  CHECK(THROWS_LIB(RAM r(VI(m, 0), false, base)) == bad, "base of a RAM");
  REACH("options");
}
#ifdef USE_HPP
#define PYDISC(n, v) Discriminator d(2, es, nl::json{{n, v}})
#else
#define PYDISC(n, v) DiscriminatorWrapper d(2, es, py::kwargs().set(n, v))
#endif
ENTRY(e_indexes) {     // every list of indexes
  sym_rand_mode(1); int n = (int)PARAM("n", 3), es = (int)PARAM("es", 3), via = (int)PARAM("via", 0); VI ix(n); bool bad = n != es;
  for (int i = 0; i < n; i++) { ix[i] = (int)sym_int("index", INT_MIN, INT_MAX); bad = bad | (ix[i] < 0) | (ix[i] >= es); for (int j = 0; j < i; j++) bad = bad | (ix[i] == ix[j]); }
  bool t = THROWS_LIB(
    if (via == 0) { Discriminator d(ix, 2, es, false, 2); if (!bad) use(d, es, 2); }
    else if (via == 1) { Discriminator d(2, es, nl::json{{"indexes", ix}}); if (!bad) use(d, es, 2); }
    else if (via == 3) { PYDISC("indexes", ix); if (!bad) use(d, es, 2); }
    else { Wisard w(2, nl::json{{"indexes", ix}}); w.train(VVI(1, VI(es, 1)), VS{"x"}); if (!bad) w.classify(VVI(1, VI(es, 0))); });
  CHECK(t == bad, "a list of indexes is rejected exactly when it is no permutation of the entry"); REACH("indexes");
}
ENTRY(e_mapping) {     // every mapping of this form
  sym_rand_mode(1); int es = (int)PARAM("es", 4), via = (int)PARAM("via", 0); VVI mp(2); bool bad = false; int sizes[2] = {2, (int)PARAM("second", 2)};
  for (int r = 0; r < 2; r++) for (int i = 0; i < sizes[r]; i++) { int p = (int)sym_int("pos", INT_MIN, INT_MAX); mp[r].push_back(p); bad = bad | (p < 0) | (p >= es); }
  bool t = THROWS_LIB(
    if (via == 0) { Discriminator d(mp, es, false, 2); if (!bad) use(d, es, 2); }
    else if (via == 1) { Discriminator d(2, es, nl::json{{"mapping", mp}}); if (!bad) use(d, es, 2); }
    else if (via == 3) { PYDISC("mapping", mp); if (!bad) use(d, es, 2); }
    else { std::map<std::string, VVI> by; by["x"] = mp; Wisard w(2, nl::json{{"mapping", by}}); w.train(VVI(1, VI(es, 1)), VS{"x"}); if (!bad) w.classify(VVI(1, VI(es, 0))); });
  CHECK(t == bad, "a mapping is rejected exactly when it refers outside of the entry"); REACH("mapping");
}
ENTRY(e_cluswisard) {  // every minScore, threshold and limit
  sym_rand_mode(1); int via = (int)PARAM("via", 0); float ms = sym_float("minScore"); int th = (int)sym_int("threshold", INT_MIN, INT_MAX), lim = (int)sym_int("limit", INT_MIN, INT_MAX);
  bool bad = !((ms >= 0) & (ms <= 1)) | (th < 1) | (lim < 1);
#ifdef USE_HPP
#define PYCLASS ClusWisard c(2, ms, th, lim)
#else
#define PYCLASS ClusWisardWrapper c(2, ms, th, lim, py::kwargs())
#endif
  bool t = THROWS_LIB(if (via == 0) { ClusWisard c(2, ms, th, lim); } else if (via == 1) { ClusWisard c(2, ms, th, lim, nl::json{{"base", 3}}); } else { PYCLASS; });
  CHECK(t == bad, "ClusWisard settings rejected exactly when minScore is outside of [0,1] or threshold or limit are below 1"); REACH("cluswisard");
}
ENTRY(e_model) {       // invalid architectures show when the first image is trained
  sym_rand_mode(1); int as = (int)sym_pick("addressSize", -1, 5), es = (int)sym_pick("entrySize", 1, 4), base = (int)sym_pick("base", -1, 3), kind = (int)PARAM("kind", 0);
  bool bad = as < 2 || es < 2 || as > es || base < 2; VVI im(1, VI(es, 1));
  bool t = THROWS_LIB(
    if (kind == 0) { Wisard w(as, nl::json{{"base", base}}); w.train(im, VS{"x"}); w.classify(im); }
    else if (kind == 1) { ClusWisard w(as, 0.5f, 10, 3, nl::json{{"base", base}}); w.train(im, VS{"x"}); w.classify(im); }
    else { ClusWisard w(as, 0.5f, 10, 3, nl::json{{"base", base}}); w.trainUnsupervised(im); w.classifyUnsupervised(im); });
  CHECK(t == bad, "a model with an invalid architecture is rejected when it trains"); REACH("model");
}
