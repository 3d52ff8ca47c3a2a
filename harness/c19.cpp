// C19: ClusWisard clusters grow by the score rule and never past the limit.
#include "clus.h"
ENTRY(e_grow) {        // n images of one class, any pixels
  sym_rand_mode(1); int es = (int)PARAM("es", 4), as = (int)PARAM("as", 2), n = (int)PARAM("n", 3), base = (int)PARAM("base", 2); Rule r{SCORES[PARAM("min", 3)], (int)PARAM("threshold", 2), (int)PARAM("limit", 2), (bool)PARAM("ignoreZero", 0)};
  C c(as, r.minScore, r.threshold, r.limit, nl::json{{"ignoreZero", r.iz}, {"base", base}, {"completeAddressing", (bool)PARAM("complete", 1)}}); VVI im; for (int i = 0; i < n; i++) im.push_back(sym_image("train", es, base)); VI q = sym_image("query", es, base);
  if (PARAM("one", 0)) for (auto& a : im) c.train(VVI{a}, VS{"x"}); else c.train(im, VS(n, "x"));
  std::vector<VVI> maps = maps_of(nl::json::parse(c.json())["clusters"]["x"]); CHECK((int)maps.size() <= r.limit && !maps.empty(), "between one and the limit");
  std::vector<RefDisc> ds; for (auto& a : im) ref_train(ds, a, r, [&]() -> VVI { return ds.size() < maps.size() ? maps[ds.size()] : VVI(); }); CHECK(ds.size() == maps.size(), "number of discriminators by the rule"); agree(c.clusters["x"], ds, q, es, r.iz, PARAM("mental", 0));
  nl::json j = nl::json::parse(c.json())["clusters"]["x"]["discriminators"]; int all = 0; for (size_t i = 0; i < ds.size(); i++) { CHECK(j[i]["count"] == (int)ds[i].learned.size(), "trainings of a discriminator"); all += (int)ds[i].learned.size(); } CHECK(all >= n, "every image learned by at least one"); OBS("discriminators", ds.size()); REACH("grow");
}
ENTRY(e_many) {        // many images of which one is symbolic: the limit grows with the trainings
  sym_rand_mode(1); int es = 4, n = (int)PARAM("n", 12); Rule r{SCORES[PARAM("min", 1)], (int)PARAM("threshold", 10), (int)PARAM("limit", 3), false}; C c(2, r.minScore, r.threshold, r.limit); VVI im; for (int i = 0; i < n; i++) { int k = i * 5 % 16; if (i == n - 1 || i == n / 2) im.push_back(sym_image("train", es, 2)); else im.push_back(i % 4 == 3 ? VI{k & 1, k >> 1 & 1, k >> 2 & 1, k >> 3} : VI{1, 1, 0, i & 1}); }
  c.train(im, VS(n, "x")); std::vector<VVI> maps = maps_of(nl::json::parse(c.json())["clusters"]["x"]); std::vector<RefDisc> ds; for (auto& a : im) ref_train(ds, a, r, [&]() -> VVI { return ds.size() < maps.size() ? maps[ds.size()] : VVI(); }); CHECK(ds.size() == maps.size(), "number of discriminators by the rule"); VI q = sym_image("query", es, 2); agree(c.clusters["x"], ds, q, es, false, PARAM("mental", 0)); REACH("many");
}
ENTRY(e_classes) {     // two classes grow independently
  sym_rand_mode(1); int es = 3; Rule r{SCORES[PARAM("min", 4)], 3, 2, false}; C c(3, r.minScore, r.threshold, r.limit); VVI im, a, b; VS lb; for (int i = 0; i < 4; i++) { im.push_back(sym_image("train", es, 2)); lb.push_back(i % 2 ? "b::0" : "b"); (i % 2 ? b : a).push_back(im[i]); } c.train(im, lb); VI q = sym_image("query", es, 2); nl::json j = nl::json::parse(c.json())["clusters"]; CHECK(j.size() == 2 && c.clusters.size() == 2, "two classes");
  for (int k = 0; k < 2; k++) { std::vector<VVI> maps = maps_of(j[k ? "b::0" : "b"]); std::vector<RefDisc> ds; for (auto& x : k ? b : a) ref_train(ds, x, r, [&]() -> VVI { return ds.size() < maps.size() ? maps[ds.size()] : VVI(); }); CHECK(ds.size() == maps.size(), "number of discriminators of a class"); agree(c.clusters[k ? "b::0" : "b"], ds, q, es, false, PARAM("mental", 0)); } REACH("classes");
}
ENTRY(e_score) {       // the score of any votes
  int n = (int)PARAM("n", 3), top = (int)PARAM("top", 4); VI v(n); for (int i = 0; i < n; i++) v[i] = (int)sym_int("vote", 0, top); Cluster c; float s = c.getScore(v); CHECK(s == ref_score(v), "mean vote divided by the largest vote"); CHECK((s >= 0) & (s <= 1), "between 0 and 1"); REACH("score");
}
