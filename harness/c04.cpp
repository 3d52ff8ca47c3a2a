// C04: which positions the RAMs of a discriminator address.
#include "model.h"
static VVI mapping(Discriminator& d) { return d.getConfigJSON()["mapping"].get<VVI>(); }
static void verify(const VVI& m, int as, int es, bool complete) {
  int rams = complete ? (es + as - 1) / as : es / as;
  CHECK((int)m.size() == rams, "number of RAMs");
  VI count(es, 0);
  for (size_t r = 0; r < m.size(); r++) {
    CHECK((int)m[r].size() == as, "every RAM addresses addressSize positions");
    for (size_t i = 0; i < m[r].size(); i++) { CHECK(m[r][i] >= 0 && m[r][i] < es, "positions inside of the entry"); for (int p = 0; p < es; p++) count[p] += m[r][i] == p ? 1 : 0; }
  }
  for (int p = 0; p < es; p++) { if (complete) CHECK(count[p] >= 1, "every position is addressed"); else CHECK(count[p] <= 1, "no position is addressed twice"); }
}
ENTRY(e_random) {      // all random choices
  sym_rand_mode((int)PARAM("rmode", 0)); int as = (int)PARAM("as", 2), es = (int)PARAM("es", 5); bool complete = PARAM("complete", 1);
  Discriminator d(as, es, false, complete, 2); VVI m = mapping(d);
  verify(m, as, es, complete); CHECK(d.getNumberOfRAMS() == (int)m.size(), "getNumberOfRAMS");
  for (auto& r : m) obs("map", r); REACH("random");
}
ENTRY(e_options) {     // the constructor that takes options, as used by the Python class
  sym_rand_mode((int)PARAM("rmode", 0)); int as = (int)PARAM("as", 2), es = (int)PARAM("es", 5); bool complete = PARAM("complete", 1);
  Discriminator d(as, es, nl::json{{"completeAddressing", complete}, {"ignoreZero", true}, {"base", 3}});
  verify(mapping(d), as, es, complete); REACH("options");
}
struct W : Wisard { using Wisard::Wisard; using Wisard::discriminators; };
ENTRY(e_wisard) {      // the classes of a Wisard
  sym_rand_mode((int)PARAM("rmode", 0)); int as = (int)PARAM("as", 2), es = (int)PARAM("es", 3); bool complete = PARAM("complete", 1);
  W w(as, nl::json{{"completeAddressing", complete}});
  w.train(VVI(2, VI(es, 1)), VS{"a", "b"});
  verify(mapping(w.discriminators["a"]), as, es, complete); verify(mapping(w.discriminators["b"]), as, es, complete); REACH("wisard");
}
ENTRY(e_large) {       // larger sizes, one fixed random sequence
  sym_rand_mode(1); int as = (int)PARAM("as", 7), es = (int)PARAM("es", 200); bool complete = PARAM("complete", 1);
  Discriminator d(as, es, false, complete, 2); verify(mapping(d), as, es, complete); REACH("large");
}
ENTRY(e_indexes) {     // every permutation as list of indexes
  int as = (int)PARAM("as", 2), es = (int)PARAM("es", 4); VI ix(es); for (int i = 0; i < es; i++) { ix[i] = (int)sym_int("index", 0, es - 1); for (int j = 0; j < i; j++) ASSUME(ix[i] != ix[j]); }
  Discriminator d(ix, as, es, false, 2), e(as, es, nl::json{{"indexes", ix}}); Wisard w0(as); W w(as, nl::json{{"indexes", ix}}); w.train(VVI(1, VI(es, 0)), VS{"x"});
  VVI m[3] = {mapping(d), mapping(e), mapping(w.discriminators["x"])};
  for (int k = 0; k < 3; k++) { CHECK((int)m[k].size() == es / as, "number of RAMs"); for (size_t r = 0; r < m[k].size(); r++) { CHECK((int)m[k][r].size() == as, "address size"); for (int i = 0; i < as; i++) CHECK(m[k][r][i] == ix[r * as + i], "indexes used in the given order"); } }
  REACH("indexes");
}
ENTRY(e_mapping) {     // every mapping of this form
  int es = (int)PARAM("es", 4); VVI mp(3); int sizes[3] = {2, 3, 2}; for (int r = 0; r < 3; r++) for (int i = 0; i < sizes[r]; i++) mp[r].push_back((int)sym_int("pos", 0, es - 1));
  Discriminator d(mp, es, false, 2), e(2, es, nl::json{{"mapping", mp}});
  std::map<std::string, VVI> by; by["x"] = mp; by["y"] = VVI(1, mp[1]); W w(2, nl::json{{"mapping", by}}); w.train(VVI(3, VI(es, 1)), VS{"x", "y", "z"});
  CHECK(same(mapping(d), mp) && same(mapping(e), mp), "mapping of a discriminator used as given");
  CHECK(same(mapping(w.discriminators["x"]), mp) && same(mapping(w.discriminators["y"]), by["y"]), "mapping of a class used as given");
  REACH("mapping");
}
ENTRY(e_python) {      // the same through the keyword arguments of the Python class
  int es = (int)PARAM("es", 4); VVI mp(2); for (int r = 0; r < 2; r++) for (int i = 0; i < 2; i++) mp[r].push_back((int)sym_int("pos", 0, es - 1));
#ifndef USE_HPP
  py::kwargs k; k.set("mapping", mp); DiscriminatorWrapper d(2, es, k); CHECK(same(mapping(d), mp), "mapping given as keyword");
  VI ix = {3, 1, 0, 2}; py::kwargs k2; k2.set("indexes", ix); DiscriminatorWrapper e(2, es, k2); CHECK(same(mapping(e), VVI{{3, 1}, {0, 2}}), "indexes given as keyword");
  sym_rand_mode(0); py::kwargs k3; k3.set("completeAddressing", false); DiscriminatorWrapper f(2, 3, k3); verify(mapping(f), 2, 3, false);
#endif
  REACH("python");
}
ENTRY(e_sweep) {       // every entry size of a range, one fixed random sequence
  sym_rand_mode(1); int as = (int)PARAM("as", 5), es = (int)sym_pick("entry", as, (int)PARAM("to", 40)); bool complete = PARAM("complete", 1); Discriminator d(as, es, false, complete, 2); VVI m = mapping(d); verify(m, as, es, complete); CHECK(d.getNumberOfRAMS() == (int)m.size(), "getNumberOfRAMS"); REACH("sweep");
}
