// C28: file-backed saving is equivalent to inline saving.
#include "clus.h"
struct W : Wisard { using Wisard::Wisard; using Wisard::discriminators; };
static std::string prefix() { static const char* P[] = {"", "m_", "./", "a b__", "x.wdpkg"}; return P[PARAM("prefix", 1)]; }
static void alike(Discriminator& d, Discriminator& e, const VI& q, bool mental = true) { CHECK(e.getNumberOfRAMS() == d.getNumberOfRAMS() && e.getNumberOfTrainings() == d.getNumberOfTrainings(), "RAMs and trainings"); CHECK(d.getConfigJSON() == e.getConfigJSON(), "entry size and mapping"); CHECK(same(d.classify(q), e.classify(q)), "same votes"); if (mental) CHECK(same(d.getMentalImage(), e.getMentalImage()), "same mental image"); }
ENTRY(e_discriminator) {
  sym_rand_mode(1); Shape s = shape((int)PARAM("shape", 0)); bool iz = PARAM("ignoreZero", 0); Discriminator d(s.map, s.entry, iz, s.base); VVI all = sym_images("train", (int)PARAM("n", 1), s); for (auto& a : all) d.train(a); if (PARAM("untrain", 0)) d.untrain(all[0]); VI q = sym_image("query", s.entry, s.base); std::string t = d.json(true, prefix()), i = d.json(); CHECK(nl::json::parse(t)["data"] != nl::json::parse(i)["data"], "contents are in a file"); Discriminator e(t), f(i); alike(d, e, q); CHECK(same(e.classify(q), f.classify(q)), "as the inline one"); CHECK(same(d.classify(q), ref_votes(PARAM("untrain", 0) ? VVI(all.begin() + 1, all.end()) : all, q, s.map, iz)), "saving changed nothing"); CHECK(e.jsonConfig() == f.jsonConfig(), "same settings"); d.train(q); e.train(q); alike(d, e, q, false); Discriminator g(e.json(true, prefix())); alike(e, g, q, false); REACH("discriminator");
}
ENTRY(e_two) {         // two models saved under the same path, also with the same random numbers, and saved again after more training
  Shape s = shape(0); Discriminator d(s.map, s.entry, false, 2), e(s.map, s.entry, false, 2); VI a = sym_image("train", 4, 2), b = sym_image("train", 4, 2), q = sym_image("query", 4, 2); d.train(a); e.train(b); e.train(b); sym_rand_mode(1); std::string t = d.json(true, prefix()); if (PARAM("again", 1)) sym_rand_mode(1); std::string u = e.json(true, prefix()); Discriminator x(t), y(u); alike(d, x, q, false); alike(e, y, q, false); d.train(b); std::string v = d.json(true, prefix()); Discriminator z(v), x2(t); alike(d, z, q, false); CHECK(same(x2.classify(q), x.classify(q)), "the first file is still the first model"); REACH("two");
}
static const char* LABELS[] = {"", "a", "a/b", "..", "/", "a\\b", "a.b", "a__b", "\xc3\xa9", "::", "a b", ".", "0__", "#", "aaaaaaaaaaaaaaaaaaaa", "?*"};
ENTRY(e_wisard) {
  sym_rand_mode(1); int es = 3, base = (int)PARAM("base", 2); nl::json o = {{"ignoreZero", (bool)PARAM("ignoreZero", 0)}, {"base", base}}; W w((int)PARAM("as", 2), o); VVI im{sym_image("train", es, base), sym_image("train", es, base)}; std::string l = LABELS[PARAM("label", 1)], k = LABELS[PARAM("other", 6)]; w.train(im, VS{l, k}); VI q = sym_image("query", es, base); W v(w.json(true, prefix())), u(w.json()); CHECK(v.discriminators.size() == w.discriminators.size(), "same classes"); for (auto& d : w.discriminators) { CHECK(v.discriminators.count(d.first) == 1, "same labels"); alike(d.second, v.discriminators[d.first], q); } CHECK(v.classify(VVI{q}) == w.classify(VVI{q}) && u.classify(VVI{q}) == w.classify(VVI{q}), "same class"); CHECK(v.jsonConfig() == w.jsonConfig(), "same settings"); REACH("wisard");
}
ENTRY(e_clus) {
  sym_rand_mode(1); int es = 3, base = (int)PARAM("base", 2); nl::json o = {{"ignoreZero", (bool)PARAM("ignoreZero", 0)}, {"base", base}}; C c(2, SCORES[PARAM("min", 6)], 2, 3, o); std::string l = LABELS[PARAM("label", 1)], k = LABELS[PARAM("other", 6)]; VI a = sym_image("train", es, base); c.train(VVI{a, VI{0, 1, 1}, VI{1, 0, 0}}, VS{l, k, l}); if (PARAM("uns", 1)) c.trainUnsupervised(VVI{VI{1, 1, 0}, a}); VI q = sym_image("query", es, base); C d(c.json(true, prefix())); CHECK(d.clusters.size() == c.clusters.size(), "same classes"); for (auto& x : c.clusters) { CHECK(d.clusters.count(x.first) == 1, "same labels"); Cluster& y = d.clusters[x.first]; CHECK(y.getNumberOfDiscriminators() == x.second.getNumberOfDiscriminators(), "same discriminators"); CHECK(same(x.second.classify(q), y.classify(q)), "same votes"); } CHECK(c.unsupervisedCluster.getNumberOfDiscriminators() == d.unsupervisedCluster.getNumberOfDiscriminators(), "same unsupervised discriminators"); CHECK(same(c.unsupervisedCluster.classify(q), d.unsupervisedCluster.classify(q)), "same unsupervised votes"); CHECK(c.classify(VVI{q}) == d.classify(VVI{q}) && c.classifyUnsupervised(VVI{q}) == d.classifyUnsupervised(VVI{q}), "same class and index"); CHECK(c.jsonConfig() == d.jsonConfig(), "same settings"); REACH("clus");
}
ENTRY(e_many) {        // many RAMs, many classes, many discriminators
  sym_rand_mode(1); int es = 40, n = (int)PARAM("classes", 12); W w(2, nl::json::object()); C c(2, 1.0f, 1, n); VVI im; VS lb; for (int k = 0; k < n; k++) { VI v(es); for (int i = 0; i < es; i++) v[i] = (i * 7 + k * k + (i >> 2) * k) % 5 < 2; im.push_back(v); lb.push_back(std::to_string(k)); } w.train(im, lb); c.train(im, VS(n, "x")); VI q = im[n - 1]; q[1] = (int)sym_int("query", 0, 1); q[39] = (int)sym_int("query", 0, 1); W v(w.json(true, prefix())); C d(c.json(true, prefix())); for (auto& k : w.discriminators) alike(k.second, v.discriminators[k.first], q); CHECK(same(c.clusters["x"].classify(q), d.clusters["x"].classify(q)), "same votes"); CHECK(w.classify(VVI{q}) == v.classify(VVI{q}), "same class"); REACH("many");
}
