// C08: Wisard.classify returns the best scoring trained class.
#include "model.h"
static const char* NAME[] = {"", "Z", "a", "a::0", "b"};       // in lexicographic order
struct Cfg { int es, base; bool iz, on; int conf; VVI mp[5]; };
static Cfg cfg() {
  Cfg c; c.es = 3; c.base = (int)PARAM("base", 2); c.iz = PARAM("ignoreZero", 0); c.on = PARAM("on", 1); c.conf = (int)PARAM("confidence", 1);
  VVI m = {{0, 1}, {2, 1}}; for (int k = 0; k < 5; k++) c.mp[k] = m; if (PARAM("unequal", 0)) { c.mp[1] = VVI{{0, 1}}; c.mp[2] = VVI{{2, 0, 1}, {0, 1}, {1, 1}}; } return c;
}
static Wisard make(const Cfg& c) { std::map<std::string, VVI> by; for (int k = 0; k < 5; k++) by[NAME[k]] = c.mp[k]; return Wisard(2, nl::json{{"mapping", by}, {"ignoreZero", c.iz}, {"bleachingActivated", c.on}, {"confidence", c.conf}, {"base", c.base}}); }
static int wanted(const Cfg& c, const VVI& im, const VI& lb, const VI& q, VI& classes) {
  VVI votes; classes.clear(); for (int k = 0; k < 5; k++) { VVI mine; for (size_t i = 0; i < im.size(); i++) if (lb[i] == k) mine.push_back(im[i]); if (mine.empty()) continue; classes.push_back(k); votes.push_back(ref_votes(mine, q, c.mp[k], c.iz)); }
  return ref_winner(ref_bleach(votes, (int)im.size(), c.on, c.conf));
}
static void verify(Wisard& w, const Cfg& c, const VVI& im, const VI& lb, const VVI& q) {
  VS got = w.classify(q); CHECK(got.size() == q.size(), "one label per image");
  for (size_t i = 0; i < q.size(); i++) { VI cl; int want = wanted(c, im, lb, q[i], cl); bool found = false;
    for (size_t k = 0; k < cl.size(); k++) if (got[i] == NAME[cl[k]]) { found = true; CHECK(want == (int)k, "label of the best scoring class, the greatest label on ties"); OBS("class", cl[k]); }
    CHECK(found, "a trained class"); }
}
ENTRY(e_label) {       // n symbolic images in the given classes, symbolic queries
  Cfg c = cfg(); int n = (int)PARAM("n", 3), m = (int)PARAM("queries", 1), assign = (int)PARAM("assign", 0); VVI im; VI lb; VS ls;
  static const int A[4][5] = {{2, 4, 2, 4, 1}, {3, 2, 0, 4, 1}, {1, 2, 2, 0, 2}, {4, 4, 4, 4, 4}};
  for (int i = 0; i < n; i++) { im.push_back(sym_image("train", c.es, c.base)); lb.push_back(A[assign][i]); ls.push_back(NAME[lb[i]]); }
  Wisard w = make(c); w.train(im, ls); VVI q; for (int i = 0; i < m; i++) q.push_back(sym_image("query", c.es, c.base)); verify(w, c, im, lb, q); REACH("label");
}
ENTRY(e_left) {        // after an image (learned or not) was left out of a class
  Cfg c = cfg(); VVI im; VI lb = {2, 4, 2}; VS ls; int n = (int)PARAM("n", 3), where = (int)PARAM("where", 0); lb.resize(n); for (int i = 0; i < n; i++) { im.push_back(sym_image("train", c.es, c.base)); ls.push_back(NAME[lb[i]]); } VI x = sym_image("left", c.es, c.base), q = sym_image("query", c.es, c.base);
  Wisard w = make(c); w.train(im, ls); int k = where ? 4 : 2; if (PARAM("more", 0)) w.leaveMoreOut(VVI{x}, VS{NAME[k]}); else w.leaveOneOut(x, NAME[k]);
  VVI votes; VI of = {2, 4}; for (int g : of) { VVI mine; for (int i = 0; i < n; i++) if (lb[i] == g) mine.push_back(im[i]); VI v = ref_votes(mine, q, c.mp[g], c.iz); if (g == k) for (size_t r = 0; r < v.size(); r++) { bool both = agree(x, q, c.mp[g][r]); v[r] = sel(both & (v[r] > 0), v[r] - 1, v[r]); } votes.push_back(v); }
  VI s = ref_bleach(votes, n, c.on, c.conf); int best = ref_winner(s); VS got = w.classify(VVI{q}); bool some = false; for (int v : s) some = some | (v > 0); if (some) { CHECK(got[0] == NAME[of[best]], "label of the best scoring class after leaving an image out"); REACH("scored"); } OBS("class", best); REACH("left");
}
ENTRY(e_order) {       // the same pairs in other orders, batches and packed; other queries around
  Cfg c = cfg(); VVI im; VI lb = {2, 4, 2}; VS ls; for (int i = 0; i < 3; i++) { im.push_back(sym_image("train", c.es, c.base)); ls.push_back(NAME[lb[i]]); } VI q = sym_image("query", c.es, c.base);
  Wisard w = make(c); int how = (int)PARAM("how", 0);
  if (how == 0) for (int i = 3; i--;) w.train(VVI(1, im[i]), VS(1, ls[i]));
  if (how == 1) { w.train(VVI{im[1], im[0]}, VS{ls[1], ls[0]}); w.train(VVI(), VS()); w.train(VVI{im[2]}, VS{ls[2]}); }
  if (how == 2) { DataSet d; for (int k : {2, 0, 1}) d.add(pack(im[k]), ls[k]); w.train(d); }
  if (how == 3) { w.train(VVI{im[2], im[1]}, VS{ls[2], ls[1]}); w.classify(VVI{q, im[0]}); w.train(VVI{im[0]}, VS{ls[0]}); }
  verify(w, c, im, lb, VVI{VI{0, 0, 0}, q, im[0], q, VI{1, 0, 1}}); REACH("order");
}
ENTRY(e_random) {      // random mappings of every kind with many classes; the first image of each class is recognised when nothing else competes
  sym_rand_mode(1); srand((unsigned)PARAM("seed", 1)); int es = 6; Wisard w(3, nl::json{{"completeAddressing", (bool)PARAM("complete", 1)}}); VVI im; VS ls;
  for (int k = 0; k < 3; k++) { VI a(es); for (int i = 0; i < es; i++) a[i] = (i / 2 == k) ? 1 : 0; im.push_back(a); ls.push_back(NAME[k]); } w.train(im, ls); 
  VS got = w.classify(im); for (int k = 0; k < 3; k++) CHECK(got[k] == NAME[k], "a class learned alone recognises its image"); REACH("random");
}
