// C22: unsupervised training clusters by the growth rule and accumulates.
#include "clus.h"
static Rule rule() { return Rule{SCORES[PARAM("min", 3)], (int)PARAM("threshold", 2), (int)PARAM("limit", 2), (bool)PARAM("ignoreZero", 0)}; }
static nl::json opts() { return nl::json{{"ignoreZero", (bool)PARAM("ignoreZero", 0)}, {"base", (int)PARAM("base", 2)}, {"bleachingActivated", (bool)PARAM("on", 1)}, {"completeAddressing", (bool)PARAM("complete", 1)}}; }
static void classified(C& c, const VVI& q, int top, bool on) {
  VS got = c.classifyUnsupervised(q); CHECK(got.size() == q.size(), "one index per image");
  for (size_t i = 0; i < q.size() && i < got.size(); i++) { VVI votes = c.unsupervisedCluster.classify(q[i]); VI s = ref_bleach(votes, top, on, 1); int best = 0; for (int x : s) best = sel(x > best, x, best); bool known = false; for (size_t k = 0; k < s.size(); k++) if (got[i] == std::to_string(k)) { known = true; CHECK(s[k] == best, "a best scoring discriminator"); } CHECK(known, "the index of a discriminator"); }
}
static std::vector<RefDisc> grown(C& c, const VVI& im, const Rule& r) {
  std::vector<VVI> maps = maps_of(nl::json::parse(c.json())["unsupervisedCluster"]); CHECK(!maps.empty() && (int)maps.size() <= r.limit, "between one and the limit"); std::vector<RefDisc> ds; for (auto& a : im) ref_train(ds, a, r, [&]() -> VVI { return ds.size() < maps.size() ? maps[ds.size()] : VVI(); }); CHECK(ds.size() == maps.size(), "number of discriminators by the rule"); return ds;
}
ENTRY(e_grow) {        // n images in one or several calls
  sym_rand_mode(1); int es = (int)PARAM("es", 4), as = (int)PARAM("as", 2), n = (int)PARAM("n", 3), base = (int)PARAM("base", 2), how = (int)PARAM("how", 0); Rule r = rule(); C c(as, r.minScore, r.threshold, r.limit, opts()); VVI im; int sp = (int)PARAM("sp", 0); auto some = [&](const char* name) { if (!sp) return sym_image(name, es, base); VI v(es, 0); for (int i = es - sp; i < es; i++) v[i] = (int)sym_int(name, 0, base - 1); return v; }; for (int i = 0; i < n; i++) im.push_back(some("train")); VI q = some("query");
  if (how == 0) c.trainUnsupervised(im); else if (how == 1) for (auto& a : im) { c.trainUnsupervised(VVI{a}); c.trainUnsupervised(VVI()); }
  else { c.train(VVI{VI(es, 1)}, VS{"s"}); c.trainUnsupervised(VVI{im[0]}); c.train(VVI{VI(es, 1), VI(es, 0)}, VS{"s", "0"}); c.trainUnsupervised(VVI(im.begin() + 1, im.end())); c.train(VVI{im[0]}, VS{"1"}); }
  std::vector<RefDisc> ds = grown(c, im, r); agree(c.unsupervisedCluster, ds, q, es, r.iz, PARAM("mental", 0)); if (how != 2) CHECK(c.getMentalImages().empty(), "no supervised class appears"); else CHECK(c.getMentalImages().size() == 3, "the supervised classes only"); classified(c, VVI{q}, n, PARAM("on", 1)); REACH("grow");
}
ENTRY(e_apart) {       // supervised classes neither see nor change the unsupervised cluster
  sym_rand_mode(-8); int es = 3; Rule r = rule(); C c(2, r.minScore, r.threshold, r.limit, opts()), d(2, r.minScore, r.threshold, r.limit, opts()); VI a = sym_image("train", es, 2), b = sym_image("train", es, 2), q = sym_image("query", es, 2); c.train(VVI{a, b}, VS{"x", "y"}); d.train(VVI{a, b}, VS{"x", "y"}); VVI v = c.clusters["x"].classify(q); c.trainUnsupervised(VVI{b, a}); CHECK(same(c.clusters["x"].classify(q), v), "supervised votes unchanged"); CHECK(c.classify(VVI{q}) == d.classify(VVI{q}), "supervised classification unchanged"); CHECK(c.unsupervisedCluster.getNumberOfDiscriminators() >= 1, "learned"); REACH("apart");
}
ENTRY(e_many) {        // more than ten discriminators; every index named
  sym_rand_mode(-8); int n = (int)PARAM("n", 13); C c(4, 1.0f, 1, (int)PARAM("limit", 13)); VVI im; for (int k = 0; k < n; k++) im.push_back(VI{k & 1, k >> 1 & 1, k >> 2 & 1, k >> 3}); c.trainUnsupervised(im); int limit = (int)PARAM("limit", 13); CHECK((int)c.unsupervisedCluster.getNumberOfDiscriminators() == (n < limit ? n : limit), "as many as the limit allows"); VS got = c.classifyUnsupervised(im); for (int k = 0; k < n && k < limit - 1; k++) CHECK(got[k] == std::to_string(k), "the index of the discriminator that learned the image"); classified(c, VVI{sym_image("query", 4, 2)}, n, true); REACH("many");
}
ENTRY(e_order) {       // many images of which two are symbolic
  sym_rand_mode(1); int n = (int)PARAM("n", 9); Rule r = rule(); C c(2, r.minScore, r.threshold, r.limit, opts()); VVI im; for (int i = 0; i < n; i++) { int k = i * 7 % 16; im.push_back(i == n / 2 || i == n - 1 ? sym_image("train", 4, 2) : VI{k & 1, k >> 1 & 1, k >> 2 & 1, k >> 3}); } c.trainUnsupervised(im); std::vector<RefDisc> ds = grown(c, im, r); VI q = sym_image("query", 4, 2); agree(c.unsupervisedCluster, ds, q, 4, r.iz, false); REACH("order");
}
ENTRY(e_crowd) {       // a twice learned discriminator wins only when bleaching is on
  sym_rand_mode(-8); Rule r{1.0f, 1, 3, false}; C c(2, r.minScore, r.threshold, r.limit, nl::json{{"bleachingActivated", (bool)PARAM("on", 1)}, {"base", 3}}); VI q(8, 1), x(8, 1), a(8, 1), b(8, 1); x[sym_pick("first", 0, 3)] = 0; x[sym_pick("second", 4, 7)] = 0; int k = (int)sym_pick("other", 0, 7); a[k] = 0; b[k] = 2; c.trainUnsupervised(VVI{x, x, a, b}); q[sym_pick("query", 0, 7)] = (int)sym_int("query", 0, 2); std::vector<RefDisc> ds = grown(c, VVI{x, x, a, b}, r); agree(c.unsupervisedCluster, ds, q, 8, r.iz, false); classified(c, VVI{q}, 4, PARAM("on", 1)); REACH("crowd");
}
ENTRY(e_loaded) {      // continues after saving and loading
  sym_rand_mode(-8); int es = 3; Rule r = rule(); C c(2, r.minScore, r.threshold, r.limit, opts()); VI a = sym_image("train", es, 2), b = sym_image("train", es, 2), q = sym_image("query", es, 2); c.trainUnsupervised(VVI{a}); C d(c.json()); sym_rand_mode(-8); d.trainUnsupervised(VVI{b}); sym_rand_mode(-8); c.trainUnsupervised(VVI{b}); std::vector<RefDisc> ds = grown(d, VVI{a, b}, r); agree(d.unsupervisedCluster, ds, q, es, r.iz, false); CHECK(c.classifyUnsupervised(VVI{q}) == d.classifyUnsupervised(VVI{q}), "same index"); REACH("loaded");
}
