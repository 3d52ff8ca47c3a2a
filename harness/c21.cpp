// C21: semi-supervised training uses every image exactly once, in its role.
#include "clus.h"
typedef std::map<int, std::string> MI;
static nl::json opts() { return nl::json{{"ignoreZero", (bool)PARAM("ignoreZero", 0)}, {"base", (int)PARAM("base", 2)}, {"bleachingActivated", (bool)PARAM("on", 1)}, {"confidence", (int)PARAM("confidence", 1)}}; }
static C fresh() { sym_rand_mode(-8); return C((int)PARAM("as", 2), SCORES[PARAM("min", 1)], (int)PARAM("threshold", 3), (int)PARAM("limit", 2), opts()); }
static void alike(C& a, C& b, const VI& q) {
  CHECK(a.clusters.size() == b.clusters.size(), "same classes"); for (auto& k : b.clusters) { CHECK(a.clusters.count(k.first) == 1, "same classes"); Cluster& x = a.clusters[k.first]; CHECK(x.getNumberOfDiscriminators() == k.second.getNumberOfDiscriminators(), "same number of discriminators"); CHECK(same(x.classify(q), k.second.classify(q)), "same votes"); if (PARAM("mental", 1)) CHECK(same(x.getMentalImages(), k.second.getMentalImages()), "same mental images");
    nl::json i = x.getJson(false, ""), j = k.second.getJson(false, ""); for (size_t d = 0; d < j["discriminators"].size() && d < i["discriminators"].size(); d++) CHECK(i["discriminators"][d]["count"] == j["discriminators"][d]["count"], "same number of trainings"); }
}
// the documented order, image by image: labelled ones first, then each other one under its predicted class
static void by_hand(C& c, const VVI& im, const MI& lb) {
  for (int i = 0; i < (int)im.size(); i++) if (lb.count(i)) { sym_rand_mode(-8); c.train(VVI{im[i]}, VS{lb.at(i)}); }
  for (int i = 0; i < (int)im.size(); i++) if (!lb.count(i)) { std::string l = c.classify(VVI{im[i]})[0]; sym_rand_mode(-8); c.train(VVI{im[i]}, VS{l}); }
}
ENTRY(e_roles) {       // every way to label n images, also with indexes that name no image
  int es = (int)PARAM("es", 3), n = (int)PARAM("n", 3), base = (int)PARAM("base", 2); VVI im; MI lb; int usable = 0; static const char* L[] = {"a", "a::0", ""}; int spread = (int)PARAM("labels", 2);
  for (int i = 0; i < n; i++) { im.push_back(sym_image("train", es, base)); int k = (int)sym_pick("label", 0, spread); if (k) { lb[i] = L[k - 1]; usable++; } }
  if (PARAM("stray", 0)) { int s = (int)sym_pick("stray", 0, 3); if (s & 1) lb[-1] = "a"; if (s & 2) lb[n] = "stray"; }
  C a = fresh(); MI given = lb; bool t = THROWS_LIB(a.train(im, given)); bool bad = (int)lb.size() > n || usable == 0; CHECK(t == bad, "rejected exactly when there are more labels than images or none is usable"); if (t) { CHECK(a.clusters.empty(), "nothing learned from rejected data"); REACH("rejected"); return; }
  C b = fresh(); by_hand(b, im, lb); VI q = sym_image("query", es, base); alike(a, b, q); REACH("roles");
}
ENTRY(e_before) {      // a model that already knows classes; the label map stays as it was
  int es = (int)PARAM("es", 3); VVI im; for (int i = 0; i < 3; i++) im.push_back(sym_image("train", es, 2)); int at = (int)sym_pick("labelled", 0, 2); MI lb; lb[at] = PARAM("new", 0) ? "c" : "a"; MI keep = lb; VVI pre{VI(es, 0), VI(es, 1)}; C a = fresh(), b = fresh(); for (C* c : {&a, &b}) { sym_rand_mode(-8); c->train(pre, VS{"a", "b"}); }
  sym_rand_mode(-8); a.train(im, lb); CHECK(lb == keep, "the given labels are not changed"); by_hand(b, im, keep); alike(a, b, sym_image("query", es, 2)); REACH("before");
}
ENTRY(e_more) {        // many images, few labels
  int n = (int)PARAM("n", 14); VVI im; MI lb; for (int i = 0; i < n; i++) im.push_back(VI{i & 1, i >> 1 & 1, i >> 2 & 1, (i * 3 >> 1) & 1}); im[n / 2] = sym_image("train", 4, 2); for (int& v : im[n / 2]) v = (int)__sym_concretize(v); lb[1] = "x"; lb[n - 1] = "y"; lb[3] = "y"; lb[n + 5] = "z"; lb[-3] = "z"; C a = fresh(); a.train(im, lb); MI l; l[1] = "x"; l[n - 1] = "y"; l[3] = "y"; C b = fresh(); by_hand(b, im, l); alike(a, b, sym_image("query", 4, 2)); REACH("more");
}
ENTRY(e_rejected) {    // label maps with any indexes
  int n = (int)PARAM("n", 2), k = (int)PARAM("k", 2); VVI im(n, VI{1, 0, 1}); MI lb; bool usable = false; for (int i = 0; i < k; i++) { int at = (int)sym_pick("index", -2, n + 1); lb[at] = "a"; if (at >= 0 && at < n) usable = true; } C a = fresh(); bool pre = PARAM("pre", 0); if (pre) a.train(VVI{VI{0, 0, 1}}, VS{"b"}); std::string before = a.json(); bool bad = (int)lb.size() > n || !usable;
  CHECK(THROWS_LIB(a.train(im, lb)) == bad, "exactly the unusable label maps are rejected"); if (bad) { CHECK(a.json() == before, "nothing learned"); REACH("rejected"); } else REACH("accepted");
}
