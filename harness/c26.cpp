// C26: packed and list inputs are interchangeable.
#include "clus.h"
struct W : Wisard { using Wisard::Wisard; using Wisard::discriminators; };
// an image of any size: symbolic at some positions (both ends of every 8, 32 and 64 bit block among them), a pattern elsewhere
static VI image(const char* n, int es, int how) { VI v(es); for (int i = 0; i < es; i++) v[i] = (i * 7 + how) / 3 & 1; static const int P[] = {0, 7, 31, 32, 63, 64, 65, 127, 128}; int left = (int)PARAM("bits", 3); for (int k = how % 2; k < 9 && left; k += 2) if (P[k] < es) { v[P[k]] = (int)sym_int(n, 0, 1); left--; } if (left == (int)PARAM("bits", 3)) v[es - 1] = (int)sym_int(n, 0, 1); return v; }
ENTRY(e_wisard) {      // the same data as lists, as a data set, and mixed
  Shape s = shape((int)PARAM("shape", 0)); int n = (int)PARAM("n", 2), how = (int)PARAM("how", 0); nl::json o = {{"ignoreZero", (bool)PARAM("ignoreZero", 0)}, {"bleachingActivated", (bool)PARAM("on", 1)}, {"confidence", (int)PARAM("confidence", 1)}, {"base", (int)PARAM("base", 2)}, {"mapping", std::map<std::string, VVI>{{"a", s.map}, {"b", VVI(s.map.rbegin(), s.map.rend())}}}};
  sym_rand_mode(-8); W a(2, o), b(2, o); VVI im; VS lb; for (int i = 0; i < n; i++) { im.push_back(sym_image("train", s.entry, 2)); lb.push_back(i % 2 ? "b" : "a"); } a.train(im, lb);
  if (how == 0) { DataSet d; for (int i = 0; i < n; i++) d.add(pack(im[i]), lb[i]); b.train(d); } else if (how == 1) { for (int i = 0; i < n; i++) { DataSet d; d.add(pack(im[i]), lb[i]); b.train(d); b.train(DataSet()); } } else { for (int i = 0; i < n; i++) { DataSet d; d.add(pack(im[i]), lb[i]); if (i % 2 == how % 2) b.train(d); else b.train(VVI{im[i]}, VS{lb[i]}); } }
  VI q = sym_image("query", s.entry, 2); DataSet dq; dq.add(pack(q)); dq.add(pack(im[0]), "a"); VS want = a.classify(VVI{q, im[0]}); CHECK(a.classify(dq) == want && b.classify(dq) == want && b.classify(VVI{q, im[0]}) == want, "same classification"); CHECK(a.discriminators.size() == b.discriminators.size(), "same classes");
  for (auto& k : a.discriminators) { Discriminator& x = b.discriminators[k.first]; VVI mine; for (int i = 0; i < n; i++) if (lb[i] == k.first) mine.push_back(im[i]); VVI map = k.first == "a" ? s.map : VVI(s.map.rbegin(), s.map.rend()); VI v = ref_votes(mine, q, map, (bool)PARAM("ignoreZero", 0)); CHECK(same(k.second.classify(q), v) && same(x.classify(q), v) && same(x.classify(pack(q)), v) && same(k.second.classify(pack(q)), v), "same votes"); CHECK(x.getNumberOfTrainings() == (int)mine.size(), "same trainings"); CHECK(same(k.second.getMentalImage(), x.getMentalImage()), "same mental image"); } REACH("wisard");
}
ENTRY(e_discriminator) {
  Shape s = shape((int)PARAM("shape", 0)); bool iz = PARAM("ignoreZero", 0); int base = (int)PARAM("base", 2); Discriminator d(s.map, s.entry, iz, base), e(s.map, s.entry, iz, base); VI a = sym_image("train", s.entry, 2), b = sym_image("train", s.entry, 2), q = sym_image("query", s.entry, 2); bool two = PARAM("two", 1); d.train(a); e.train(pack(a)); if (two) { d.train(pack(b)); e.train(b); }
  VI want = ref_votes(two ? VVI{a, b} : VVI{a}, q, s.map, iz); CHECK(same(d.classify(q), want) && same(d.classify(pack(q)), want) && same(e.classify(q), want) && same(e.classify(pack(q)), want), "same votes"); CHECK(d.getNumberOfTrainings() == e.getNumberOfTrainings(), "same trainings"); if (PARAM("untrain", 0)) { d.untrain(a); e.untrain(a); VI w2 = ref_votes(two ? VVI{b} : VVI(), q, s.map, iz); CHECK(same(d.classify(pack(q)), w2) && same(e.classify(q), w2), "same votes after untraining"); } REACH("discriminator");
}
ENTRY(e_long) {        // images longer than a machine word
  int es = (int)PARAM("es", 70), as = (int)PARAM("as", 5); bool iz = PARAM("ignoreZero", 0); VVI map = rows(es / as, as, 0, 1); for (auto& r : map) for (auto& p : r) p = es - 1 - p; map.push_back(VI{0, es - 1, es / 2}); int base = (int)PARAM("base", 2); Discriminator d(map, es, iz, base), e(map, es, iz, base); VI a = image("train", es, 0), b = image("train", es, 1), q = image("query", es, 0); d.train(a); d.train(b); e.train(pack(a)); e.train(pack(b)); VI want = ref_votes(VVI{a, b}, q, map, iz); CHECK(same(d.classify(q), want), "votes of lists"); CHECK(same(e.classify(pack(q)), want) && same(d.classify(pack(q)), want) && same(e.classify(q), want), "votes of packed images"); if (PARAM("mental", 1)) CHECK(same(d.getMentalImage(), e.getMentalImage()), "same mental image");
  Wisard w(2, nl::json{{"mapping", std::map<std::string, VVI>{{"a", map}, {"b", map}}}}), v(2, nl::json{{"mapping", std::map<std::string, VVI>{{"a", map}, {"b", map}}}}); w.train(VVI{a, b}, VS{"a", "b"}); DataSet t; t.add(pack(a), "a"); t.add(pack(b), "b"); v.train(t); DataSet dq; dq.add(pack(q)); CHECK(w.classify(VVI{q}) == v.classify(dq), "same class"); REACH("long");
}
ENTRY(e_random) {      // random mappings and several classes, constant random numbers for both
  int es = (int)PARAM("es", 5), as = (int)PARAM("as", 2); nl::json o = {{"completeAddressing", (bool)PARAM("complete", 1)}, {"base", (int)PARAM("base", 2)}}; sym_rand_mode(-8); W a(as, o); VVI im{sym_image("train", es, 2), VI(es, 1), sym_image("train", es, 2)}; VS lb{"x", "y", "y"}; sym_rand_mode(-8); a.train(im, lb); sym_rand_mode(-8); W b(as, o); DataSet d; for (int i = 0; i < 3; i++) d.add(pack(im[i]), lb[i]); sym_rand_mode(-8); b.train(d); VI q = sym_image("query", es, 2); DataSet dq; dq.add(pack(q)); CHECK(a.classify(VVI{q}) == b.classify(dq), "same class"); for (auto& k : a.discriminators) CHECK(same(k.second.classify(q), b.discriminators[k.first].classify(pack(q))), "same votes"); REACH("random");
}
ENTRY(e_cluster) {     // a Cluster fed packed images
  sym_rand_mode(-8); int es = 3; int base = (int)PARAM("base", 2); Cluster a(es, 2, SCORES[PARAM("min", 3)], 2, 2, true, false, base), b(es, 2, SCORES[PARAM("min", 3)], 2, 2, true, false, base); VI x = sym_image("train", es, 2), y = sym_image("train", es, 2), q = sym_image("query", es, 2); a.train(x); a.train(y); b.train(pack(x)); b.train(pack(y)); CHECK(a.getNumberOfDiscriminators() == b.getNumberOfDiscriminators(), "same discriminators"); VVI v = a.classify(q); CHECK(same(v, b.classify(pack(q))) && same(v, a.classify(pack(q))) && same(v, b.classify(q)), "same votes"); REACH("cluster");
}
ENTRY(e_rejected) {    // wrong sizes are rejected alike
  Shape s = shape(0); Discriminator d(s.map, s.entry, false, 2); int n = (int)sym_pick("size", 1, 12); VI v(n, 1); bool bad = n != s.entry; CHECK(THROWS_LIB(d.classify(v)) == bad && THROWS_LIB(d.classify(pack(v))) == bad && THROWS_LIB(d.train(pack(v))) == bad && THROWS_LIB(d.train(v)) == bad, "the same sizes are accepted"); CHECK(d.getNumberOfTrainings() == (bad ? 0 : 2), "trainings"); REACH("rejected"); if (!bad) REACH("accepted");
}
