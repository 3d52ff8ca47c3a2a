// C27: the jsonConfig text rebuilds the same architecture, untrained.
#include "clus.h"
struct W : Wisard { using Wisard::Wisard; using Wisard::discriminators; };
ENTRY(e_discriminator) {
  Shape s = shape((int)PARAM("shape", 0)); bool iz = PARAM("ignoreZero", 0); Discriminator d(s.map, s.entry, iz, s.base); VVI all = sym_images("train", (int)PARAM("n", 1), s); for (auto& a : all) for (int i = 0; i < (int)PARAM("times", 1); i++) d.train(a); if (PARAM("untrain", 0)) d.untrain(all[0]); Discriminator e(d.jsonConfig()); VI q = sym_image("query", s.entry, s.base), t = sym_image("more", s.entry, s.base);
  CHECK(same(e.classify(q), VI(s.map.size(), 0)), "no votes"); CHECK(same(e.getMentalImage(), VI(s.entry, 0)), "no mental image"); CHECK(e.getNumberOfTrainings() == 0, "no trainings"); CHECK(e.getNumberOfRAMS() == (int)s.map.size(), "RAMs"); CHECK(e.getConfigJSON()["mapping"].get<VVI>() == s.map && e.getConfigJSON()["entrySize"] == s.entry, "mapping and entry size"); CHECK(e.jsonConfig() == d.jsonConfig(), "same settings");
  e.train(t); CHECK(same(e.classify(q), ref_votes(VVI{t}, q, s.map, iz)), "votes of what was trained since"); CHECK(e.getNumberOfTrainings() == 1, "one training"); REACH("discriminator");
}
static nl::json options() { nl::json o = {{"bleachingActivated", (bool)PARAM("bleach", 1)}, {"ignoreZero", (bool)PARAM("ignoreZero", 0)}, {"completeAddressing", (bool)PARAM("complete", 1)}, {"base", (int)PARAM("base", 2)}, {"confidence", (int)PARAM("confidence", 1)}, {"returnConfidence", (bool)PARAM("rc", 0)}, {"returnActivationDegree", (bool)PARAM("ra", 0)}, {"returnClassesDegrees", (bool)PARAM("rd", 0)}, {"verbose", false}}; return o; }
ENTRY(e_wisard) {      // the classes with their mappings, nothing learned
  int es = (int)PARAM("es", 3), as = (int)PARAM("as", 2), base = (int)PARAM("base", 2), how = (int)PARAM("how", 0); bool iz = PARAM("ignoreZero", 0); nl::json o = options(); if (how & 1) { VI ix; for (int i = 0; i < es; i++) ix.push_back(es - 1 - i); o["indexes"] = ix; } if (how & 2) o["mapping"] = std::map<std::string, VVI>{{"a", {{2, 0}, {1, 1}}}, {how == 2 ? "never" : "other", {{0, 1}, {1, 2}}}};
  sym_rand_mode(-8); W w(as, o); VVI im{sym_image("train", es, base), sym_image("train", es, base)}; VS lb{"a", "b::/1"}; int n = (int)PARAM("n", 2); im.resize(n); lb.resize(n); for (int i = 0; i < (int)PARAM("times", 1); i++) w.train(im, lb); sym_rand_mode(-8); W v(w.jsonConfig()); CHECK(v.jsonConfig() == w.jsonConfig(), "same settings, classes and mappings"); nl::json c = nl::json::parse(v.jsonConfig()); for (auto it = o.begin(); it != o.end(); ++it) CHECK(c[it.key()] == it.value(), "every setting kept"); CHECK(c["addressSize"] == as, "address size");
  CHECK(v.discriminators.size() == (size_t)n, "same classes"); VI q = sym_image("query", es, base), t = sym_image("more", es, base), u = sym_image("more", es, base); std::map<std::string, VVI> maps; for (auto& k : w.discriminators) { CHECK(v.discriminators.count(k.first) == 1, "same labels"); Discriminator& x = v.discriminators[k.first]; maps[k.first] = k.second.getConfigJSON()["mapping"].get<VVI>(); CHECK(same(x.getConfigJSON()["mapping"].get<VVI>(), maps[k.first]), "same mapping"); CHECK(same(x.classify(q), VI(maps[k.first].size(), 0)) && same(x.getMentalImage(), VI(es, 0)) && x.getNumberOfTrainings() == 0, "nothing learned"); }
  v.train(VVI{t, u, t}, VS{"a", "never", "a"}); maps["a"] = v.discriminators["a"].getConfigJSON()["mapping"].get<VVI>(); CHECK(same(v.discriminators["a"].classify(q), ref_votes(VVI{t, t}, q, maps["a"], iz)), "votes of what was trained since"); VVI mn = v.discriminators["never"].getConfigJSON()["mapping"].get<VVI>(); if (how == 2) CHECK(same(mn, VVI{{0, 1}, {1, 2}}), "mapping of a class not trained before"); if (how & 1) { VVI wm; for (int r = 0; r < es / as; r++) { wm.push_back(VI()); for (int i = 0; i < as; i++) wm[r].push_back(es - 1 - (r * as + i)); } CHECK(same(mn, wm), "the indexes hold for a class not trained before"); } CHECK((int)mn.size() == (how == 2 ? 2 : how & 1 ? es / as : (es + (PARAM("complete", 1) ? as - 1 : 0)) / as), "RAMs of a class not trained before"); CHECK(same(v.discriminators["never"].classify(q), ref_votes(VVI{u}, q, mn, iz)), "votes of a class not trained before");
  if (PARAM("top", 1)) { VVI votes; VS cls; for (auto& k : v.discriminators) { votes.push_back(k.second.classify(q)); cls.push_back(k.first); } std::string got = v.classify(VVI{q})[0]; VI s = ref_bleach(votes, 3, PARAM("bleach", 1), (int)PARAM("confidence", 1)); int best = ref_winner(s); for (size_t k = 0; k < cls.size(); k++) CHECK((got == cls[k]) == (best == (int)k), "classified by the settings"); } REACH("wisard");
}
ENTRY(e_clus) {        // the settings only
  int es = 3, as = (int)PARAM("as", 2), base = (int)PARAM("base", 2); Rule r{SCORES[PARAM("min", 3)], (int)PARAM("threshold", 2), (int)PARAM("limit", 2), (bool)PARAM("ignoreZero", 0)}; nl::json o = options(); sym_rand_mode(-8); C c(as, r.minScore, r.threshold, r.limit, o); VI a = sym_image("train", es, base), x = sym_image("more", es, base), y = sym_image("more", es, base), q = sym_image("query", es, base); for (int i = 0; i < (int)PARAM("times", 1); i++) c.train(VVI{a, VI(es, 1)}, VS{"a", "b"}); c.trainUnsupervised(VVI{a}); C d(c.jsonConfig()); CHECK(d.jsonConfig() == c.jsonConfig(), "same settings"); nl::json j = nl::json::parse(d.jsonConfig()); for (auto it = o.begin(); it != o.end(); ++it) CHECK(j[it.key()] == it.value(), "every setting kept"); CHECK(j["minScore"].get<float>() == r.minScore && j["threshold"] == r.threshold && j["discriminatorsLimit"] == r.limit && j["addressSize"] == as, "growth rule kept");
  CHECK(d.clusters.empty() && d.getMentalImages().empty() && d.unsupervisedCluster.getNumberOfDiscriminators() == 0, "nothing learned"); CHECK(d.classify(VVI{q}) == VS{""} && d.classifyUnsupervised(VVI{q}) == VS{""}, "no class"); sym_rand_mode(1); d.train(VVI{x, y}, VS{"a", "a"}); std::vector<VVI> maps = maps_of(nl::json::parse(d.json())["clusters"]["a"]); std::vector<RefDisc> ds; for (auto& im : VVI{x, y}) ref_train(ds, im, r, [&]() -> VVI { return ds.size() < maps.size() ? maps[ds.size()] : VVI(); }); CHECK(ds.size() == maps.size(), "grows by the same rule"); for (auto& m : maps) CHECK((int)m.size() == (es + (PARAM("complete", 1) ? as - 1 : 0)) / as, "RAMs"); agree(d.clusters["a"], ds, q, es, r.iz, false); REACH("clus");
}
