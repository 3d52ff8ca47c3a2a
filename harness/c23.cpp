// C23: a ClusWisard saved as JSON text and loaded again is the same model.
#include "clus.h"
static void same_models(C& a, C& b, const VI& q, bool mental = true) {
  CHECK(a.jsonConfig() == b.jsonConfig(), "same settings"); CHECK(a.clusters.size() == b.clusters.size(), "same classes");
  for (auto& k : a.clusters) { CHECK(b.clusters.count(k.first) == 1, "same labels"); Cluster& x = b.clusters[k.first]; CHECK(x.getNumberOfDiscriminators() == k.second.getNumberOfDiscriminators(), "same number of discriminators"); CHECK(same(k.second.classify(q), x.classify(q)), "same votes of every discriminator"); if (mental) CHECK(same(k.second.getMentalImages(), x.getMentalImages()), "same mental images"); }
  CHECK(a.unsupervisedCluster.getNumberOfDiscriminators() == b.unsupervisedCluster.getNumberOfDiscriminators(), "same unsupervised discriminators"); CHECK(same(a.unsupervisedCluster.classify(q), b.unsupervisedCluster.classify(q)), "same unsupervised votes"); if (mental) CHECK(same(a.unsupervisedCluster.getMentalImages(), b.unsupervisedCluster.getMentalImages()), "same unsupervised mental images");
  CHECK(a.classify(VVI{q}) == b.classify(VVI{q}), "same class"); CHECK(a.classifyUnsupervised(VVI{q}) == b.classifyUnsupervised(VVI{q}), "same index");
}
static nl::json opts() { return nl::json{{"ignoreZero", (bool)PARAM("ignoreZero", 0)}, {"base", (int)PARAM("base", 2)}, {"bleachingActivated", (bool)PARAM("on", 1)}, {"completeAddressing", (bool)PARAM("complete", 1)}, {"confidence", (int)PARAM("confidence", 1)}, {"returnConfidence", (bool)PARAM("rc", 0)}, {"returnActivationDegree", (bool)PARAM("ra", 0)}, {"returnClassesDegrees", (bool)PARAM("rd", 0)}}; }
static C fresh() { return C((int)PARAM("as", 2), SCORES[PARAM("min", 3)], (int)PARAM("threshold", 2), (int)PARAM("limit", 2), opts()); }
static void settings(C& c) {
  nl::json j = nl::json::parse(c.jsonConfig()), o = opts(); for (auto it = o.begin(); it != o.end(); ++it) CHECK(j[it.key()] == it.value(), "every option kept"); CHECK(j["addressSize"] == (int)PARAM("as", 2) && j["threshold"] == (int)PARAM("threshold", 2) && j["discriminatorsLimit"] == (int)PARAM("limit", 2) && j["minScore"].get<float>() == SCORES[PARAM("min", 3)], "address size and growth rule kept");
}
static void grow(C& a, C& b, const VVI& more, const VS& l) { for (size_t i = 0; i < more.size(); i++) { sym_rand_mode(-8); if (l[i] == "?") a.trainUnsupervised(VVI{more[i]}); else a.train(VVI{more[i]}, VS{l[i]}); sym_rand_mode(-8); if (l[i] == "?") b.trainUnsupervised(VVI{more[i]}); else b.train(VVI{more[i]}, VS{l[i]}); } }
ENTRY(e_saved) {       // n symbolic images, supervised and not
  sym_rand_mode(-8); int es = (int)PARAM("es", 3), n = (int)PARAM("n", 2), base = (int)PARAM("base", 2); C c = fresh(); VS role{"a", "a", "?"}; if (PARAM("roles", 0) == 1) role = VS{"?", "?", "a::1"}; if (PARAM("roles", 0) == 2) role = VS{"a", "::", "?"}; for (int i = 0; i < n; i++) { VI a = sym_image("train", es, base); if (role[i] == "?") c.trainUnsupervised(VVI{a}); else c.train(VVI{a}, VS{role[i]}); }
  VI q = sym_image("query", es, base); C d(c.json()); settings(d); bool m = PARAM("mental", 1); same_models(c, d, q, m); if (!PARAM("more", 1)) { REACH("saved"); return; } grow(c, d, VVI{VI(es, 1), q, VI(es, 0), VI(es, 1)}, VS{"a", "a", "new", "?"}); same_models(c, d, q, m); C e(d.json()); same_models(d, e, q, false); REACH("saved");
}
ENTRY(e_many) {        // more than ten discriminators, then further growth by images of several kinds
  sym_rand_mode(-8); int n = (int)PARAM("n", 12), min = (int)PARAM("min", 6); (void)min; C c(4, SCORES[PARAM("min", 6)], (int)PARAM("threshold", 2), n + 1, opts()); VVI im; for (int k = 0; k < n; k++) im.push_back(VI{k & 1, k >> 1 & 1, k >> 2 & 1, k >> 3}); c.train(im, VS(n, "x")); c.trainUnsupervised(im); CHECK((int)c.clusters["x"].getNumberOfDiscriminators() == n, "a discriminator per image"); C d(c.json()); VI q = sym_image("query", 4, 2), t = sym_image("more", 4, 2); same_models(c, d, q, false); nl::json a = nl::json::parse(c.json()), b = nl::json::parse(d.json()); for (int k = 0; k < n; k++) { CHECK(a["clusters"]["x"]["discriminators"][k]["count"] == b["clusters"]["x"]["discriminators"][k]["count"], "trainings"); CHECK(a["clusters"]["x"]["discriminators"][k]["mapping"] == b["clusters"]["x"]["discriminators"][k]["mapping"], "mapping"); }
  grow(c, d, VVI{im[10], t, VI{1, 1, 1, 1}}, VS{"x", "x", "?"}); same_models(c, d, q, false); REACH("many");
}
ENTRY(e_empty) {       // nothing learned yet, or only one part
  sym_rand_mode(-8); int part = (int)PARAM("part", 0); C c = fresh(); VI t = sym_image("train", 3, 2), q = sym_image("query", 3, 2); if (part == 1) c.train(VVI{VI{1, 0, 1}}, VS{""}); if (part == 2) c.trainUnsupervised(VVI{VI{1, 0, 1}}); C d(c.json()); settings(d); CHECK(c.clusters.size() == d.clusters.size() && c.unsupervisedCluster.getNumberOfDiscriminators() == d.unsupervisedCluster.getNumberOfDiscriminators(), "as much as was learned"); grow(c, d, VVI{t, VI{1, 1, 0}, t}, VS{"", "?", "b"}); same_models(c, d, q); REACH("empty");
}
static const char* LABELS[] = {"", "a", "::", ".", "#", "/", "a/b\\c", "\xc3\xa9\xe2\x82\xac", "\"quoted\"", "a::0", "{}", "null", "\n\t", "0", "clusters", " ", "~1", "unsupervisedCluster", "\x7f\x01"};
ENTRY(e_labels) {
  sym_rand_mode(-8); int k = (int)sym_pick("first", 0, 18), j = (int)PARAM("other", 1); C c = fresh(); VI q = sym_image("query", 3, 2); c.train(VVI{VI{1, 0, 1}, VI{0, 1, 0}}, VS{LABELS[k], LABELS[j]}); C d(c.json()); CHECK(d.clusters.count(LABELS[k]) == 1 && d.clusters.count(LABELS[j]) == 1, "the labels themselves"); same_models(c, d, q); REACH("labels");
}
