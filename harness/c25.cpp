// C25: queries never change a model.
#include "clus.h"
struct W : Wisard { using Wisard::Wisard; using Wisard::discriminators; };
static void query(W& w, const VI& q, int what) {
  if (what & 1) { w.classify(VVI{q, q}); w.classify(VVI()); } if (what & 2) { DataSet d; d.add(pack(q)); d.add(pack(q), "zz"); w.classify(d); } if (what & 4) { w.getMentalImages(); w.getMentalImages(); } if (what & 8) { w.json(); w.json(false); w.jsonConfig(); } if (what & 16) w.getsizeof(); if (what & 32) { (void)THROWS_LIB(w.classify(VVI{q, VI(q.size() + 1, 1), q})); (void)THROWS_LIB(w.classify(VVI{VI(q.size() - 1, 1)})); }
}
static void same_models(W& a, W& b, const VI& q) {
  CHECK(a.discriminators.size() == b.discriminators.size(), "same classes"); for (auto& k : b.discriminators) { CHECK(a.discriminators.count(k.first) == 1, "same classes"); Discriminator& x = a.discriminators[k.first]; CHECK(same(x.classify(q), k.second.classify(q)), "same votes"); CHECK(x.getNumberOfTrainings() == k.second.getNumberOfTrainings(), "same trainings"); CHECK(same(x.getMentalImage(), k.second.getMentalImage()), "same mental image"); }
  CHECK(a.classify(VVI{q}) == b.classify(VVI{q}), "same class");
}
ENTRY(e_wisard) {
  int es = 3, n = (int)PARAM("n", 2), base = (int)PARAM("base", 2), what = (int)PARAM("what", 63); nl::json o = {{"ignoreZero", (bool)PARAM("ignoreZero", 0)}, {"base", base}, {"mapping", std::map<std::string, VVI>{{"a", {{0, 1}, {2, 1}}}, {"b", {{2, 0}, {1, 1}}}, {"c", {{0, 1, 2}}}}}}; sym_rand_mode(-8); W a(2, o), b(2, o); VVI im; VS lb; for (int i = 0; i < n; i++) { im.push_back(sym_image("train", es, base)); lb.push_back(i % 2 ? "b" : "a"); } a.train(im, lb); b.train(im, lb);
  VI q = sym_image("query", es, base), p = sym_image("probe", es, base); long size = a.getsizeof(); std::string text; if (PARAM("text", 0)) text = a.json(); query(a, q, what); CHECK(a.getsizeof() == size, "same size"); if (PARAM("text", 0)) { CHECK(a.json() == text, "same saved text"); } CHECK(a.jsonConfig() == b.jsonConfig(), "same settings"); same_models(a, b, p);
  if (PARAM("more", 1)) { a.train(VVI{q, p}, VS{"a", "c"}); query(a, q, what); b.train(VVI{q, p}, VS{"a", "c"}); same_models(a, b, p); a.leaveOneOut(q, "a"); query(a, p, what); b.leaveOneOut(q, "a"); same_models(a, b, q); } REACH("wisard");
}
ENTRY(e_discriminator) {
  Shape s = shape((int)PARAM("shape", 0)); Discriminator d(s.map, s.entry, (bool)PARAM("ignoreZero", 0), s.base), e(s.map, s.entry, (bool)PARAM("ignoreZero", 0), s.base); VI a = sym_image("train", s.entry, s.base), q = sym_image("query", s.entry, s.base), p = sym_image("probe", s.entry, s.base); d.train(a); e.train(a); long size = d.getsizeof(); VI v = d.classify(q), m = d.getMentalImage(); if (s.base == 2) CHECK(same(d.classify(pack(q)), v), "packed query"); d.getConfigJSON(); d.jsonConfig(); d.getNumberOfRAMS(); (void)THROWS_LIB(d.classify(VI(s.entry + 1, 0)));
  CHECK(d.getsizeof() == size, "same size"); CHECK(same(d.classify(q), v) && same(d.getMentalImage(), m) && d.getNumberOfTrainings() == 1, "asked again"); CHECK(same(d.classify(p), e.classify(p)), "same votes as without the queries"); d.train(q); d.classify(p); e.train(q); CHECK(same(d.classify(p), e.classify(p)), "same votes after training"); d.untrain(a); d.classify(a); d.getMentalImage(); e.untrain(a); CHECK(same(d.classify(p), e.classify(p)) && same(d.getMentalImage(), e.getMentalImage()), "same after untraining"); CHECK(d.getsizeof() == e.getsizeof(), "same size as without the queries"); REACH("discriminator");
}
ENTRY(e_saved) {       // the saved text before and after queries, and of a model never queried
  Shape s = shape((int)PARAM("shape", 0)); Discriminator d(s.map, s.entry, false, s.base); VI a = sym_image("train", s.entry, s.base), q = sym_image("query", s.entry, s.base); d.train(a); std::string t = d.json(); d.classify(q); d.getMentalImage(); CHECK(d.json() == t, "same text"); CHECK(d.json() == d.json(false), "asked twice"); Discriminator f(t); CHECK(same(f.classify(q), d.classify(q)), "saving changed nothing"); REACH("saved");
}
static void queryc(C& c, const VI& q, int what) {
  if (what & 1) c.classify(VVI{q, q}); if (what & 2) { c.getMentalImage("never"); c.getMentalImage(""); c.getMentalImage("a"); } if (what & 4) c.getMentalImages(); if (what & 8) { c.json(); c.jsonConfig(); } if (what & 16) c.getsizeof(); if (what & 32) c.classifyUnsupervised(VVI{q, q}); if (what & 64) { (void)THROWS_LIB(c.classify(VVI{VI(q.size() + 1, 0)})); (void)THROWS_LIB(c.classifyUnsupervised(VVI{VI(q.size() + 1, 0)})); }
}
static void same_clus(C& a, C& b, const VI& q) {
  CHECK(a.clusters.size() == b.clusters.size(), "same classes"); for (auto& k : b.clusters) { CHECK(a.clusters.count(k.first) == 1, "same classes"); Cluster& x = a.clusters[k.first]; CHECK(x.getNumberOfDiscriminators() == k.second.getNumberOfDiscriminators(), "same discriminators"); CHECK(same(x.classify(q), k.second.classify(q)), "same votes"); } CHECK(same(a.unsupervisedCluster.classify(q), b.unsupervisedCluster.classify(q)), "same unsupervised votes"); CHECK(a.classify(VVI{q}) == b.classify(VVI{q}), "same class"); CHECK(a.classifyUnsupervised(VVI{q}) == b.classifyUnsupervised(VVI{q}), "same index"); CHECK(a.getsizeof() == b.getsizeof(), "same size");
}
ENTRY(e_clus) {
  int es = 3, what = (int)PARAM("what", 127), state = (int)PARAM("state", 3); nl::json o = {{"ignoreZero", (bool)PARAM("ignoreZero", 0)}}; sym_rand_mode(-8); C a(2, SCORES[PARAM("min", 3)], 2, 2, o); sym_rand_mode(-8); C b(2, SCORES[PARAM("min", 3)], 2, 2, o); VI t = sym_image("train", es, 2), q = sym_image("query", es, 2), p = sym_image("probe", es, 2); for (C* c : {&a, &b}) { if (state & 1) c->train(VVI{t, VI{0, 1, 1}}, VS{"a", "b"}); if (state & 2) c->trainUnsupervised(VVI{t}); }
  std::string text = PARAM("text", 0) ? a.json() : ""; queryc(a, q, what); if (PARAM("text", 0)) CHECK(a.json() == text, "same saved text"); CHECK(a.getMentalImages().size() == (state & 1 ? 2u : 0u), "no class appears"); same_clus(a, b, p);
  if (PARAM("more", 1)) { sym_rand_mode(-8); a.train(VVI{q}, VS{"a"}); queryc(a, p, what); a.train(VVI{VI{1, 1, 0}}, VS{"never"}); a.trainUnsupervised(VVI{q}); sym_rand_mode(-8); b.train(VVI{q}, VS{"a"}); b.train(VVI{VI{1, 1, 0}}, VS{"never"}); b.trainUnsupervised(VVI{q}); same_clus(a, b, p); } REACH("clus");
}
#ifndef USE_HPP
ENTRY(e_python) {      // the extended results of the Python classes
  sym_rand_mode(-8); struct PW : WisardWrapper { using WisardWrapper::WisardWrapper; using WisardWrapper::discriminators; }; struct PC : ClusWisardWrapper { using ClusWisardWrapper::ClusWisardWrapper; using ClusWisardWrapper::clusters; }; py::kwargs k; k.set("returnConfidence", true).set("returnActivationDegree", true).set("returnClassesDegrees", true); int empty = (int)PARAM("empty", 0); PW w(2, k); PC c(2, 0.5f, 2, 2, k); VI t = sym_image("train", 3, 2), q = sym_image("query", 3, 2), p = sym_image("probe", 3, 2); if (!empty) { w.train(VVI{t}, VS{"a"}); c.train(VVI{t}, VS{"a"}); }
  long sw = w.getsizeof(), sc = c.getsizeof(); VVI before; if (!empty) before = VVI{w.discriminators["a"].classify(p), c.clusters["a"].classify(p)[0]}; w.pyClassify(VVI{q, q}); c.pyClassify(VVI{q, q}); DataSet d; d.add(pack(q)); w.pyClassify(d); CHECK(w.getsizeof() == sw && c.getsizeof() == sc, "same size"); CHECK(w.discriminators.size() == (empty ? 0u : 1u) && c.clusters.size() == (empty ? 0u : 1u), "no class appears"); if (!empty) CHECK(same(w.discriminators["a"].classify(p), before[0]) && same(c.clusters["a"].classify(p)[0], before[1]), "same votes"); REACH("python");
}
#endif
