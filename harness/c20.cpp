// C20: ClusWisard.classify returns the class of the best scoring discriminator.
#include "clus.h"
static const char* NAME[] = {"", "::", "a", "a::0", "a::1", "a:", "b", "::0", "a\xc3\xa9", "-1", "10"};
// the discriminators of all classes with their votes on q (the votes themselves are checked against the reference in C19)
static void verify(C& c, const VVI& q, int top, bool on, int conf) {
  VS got = c.classify(q); CHECK(got.size() == q.size(), "one label per image");
  for (size_t i = 0; i < q.size() && i < got.size(); i++) { VVI votes; VS owner; for (auto& k : c.clusters) for (auto& v : k.second.classify(q[i])) { votes.push_back(v); owner.push_back(k.first); }
    VI s = ref_bleach(votes, top, on, conf); int best = 0; for (int x : s) best = sel(x > best, x, best); bool known = false, good = false; for (size_t k = 0; k < s.size(); k++) if (owner[k] == got[i]) { known = true; good = good | (s[k] == best); }
    CHECK(known, "a trained label"); CHECK(good, "the class owns a best scoring discriminator"); }
}
ENTRY(e_label) {       // n symbolic images under the given labels, a symbolic query
  sym_rand_mode(-8); int es = (int)PARAM("es", 3), as = (int)PARAM("as", 2), n = (int)PARAM("n", 3), base = (int)PARAM("base", 2), assign = (int)PARAM("assign", 0), conf = (int)PARAM("confidence", 1); bool on = PARAM("on", 1), iz = PARAM("ignoreZero", 0);
  static const int A[7][4] = {{2, 6, 2, 6}, {0, 1, 0, 1}, {2, 3, 4, 2}, {3, 2, 3, 2}, {1, 7, 1, 7}, {5, 2, 5, 2}, {8, 9, 8, 9}};
  C c(as, SCORES[PARAM("min", 4)], (int)PARAM("threshold", 2), (int)PARAM("limit", 2), nl::json{{"bleachingActivated", on}, {"confidence", conf}, {"ignoreZero", iz}, {"base", base}}); VVI im; VS lb; for (int i = 0; i < n; i++) { im.push_back(sym_image("train", es, base)); lb.push_back(NAME[A[assign][i]]); } c.train(im, lb);
  VVI q{sym_image("query", es, base)}; if (PARAM("twice", 0)) q.push_back(sym_image("query", es, base)); verify(c, q, n, on, conf); REACH("label");
}
ENTRY(e_names) {       // the labels of the table, whatever characters they contain, each recognised
  sym_rand_mode(-8); C c(3, 0.5f, 3, 2); VVI im; VS lb; int from = (int)PARAM("from", 0); for (int k = 0; k < 4; k++) { im.push_back(VI{k & 1, k >> 1, 1, 0}); lb.push_back(NAME[(from + k) % 11]); } c.train(im, lb); CHECK(c.clusters.size() == 4, "one class per label"); VVI q = im; q.push_back(sym_image("query", 4, 2)); verify(c, q, 4, true, 1); VS got = c.classify(im); for (int k = 0; k < 4; k++) CHECK(got[k] == lb[k], "an image trained under one label only is recognised"); REACH("names");
}
ENTRY(e_char) {        // a label with any character in it
  sym_rand_mode(-8); std::string l(1, (char)sym_pick("character", 0, 255)); if (PARAM("long", 0)) l = "ab" + l + "::"; C c(3, 0.5f, 3, 2); VVI im{VI{1, 0, 1}, VI{0, 1, 1}}; c.train(im, VS{l, "ab"}); VS got = c.classify(VVI{im[1], im[0], im[1]}); CHECK(got == (VS{"ab", l, "ab"}), "labels in input order"); REACH("char");
}
ENTRY(e_many) {        // more than ten discriminators in a class
  sym_rand_mode(-8); int es = 4, n = (int)PARAM("n", 12); C c(4, 1.0f, 1, n); VVI im; VS lb; for (int k = 0; k < n; k++) { im.push_back(VI{k & 1, k >> 1 & 1, k >> 2 & 1, k >> 3}); lb.push_back("x"); } im.push_back(VI{1, 1, 1, 1}); lb.push_back("x::1"); im.push_back(VI{0, 1, 1, 1}); lb.push_back("w"); im.push_back(VI{1, 0, 1, 1}); lb.push_back("z"); c.train(im, lb);
  CHECK((int)c.clusters["x"].getNumberOfDiscriminators() == n, "a discriminator per image"); VVI q{sym_image("query", es, 2), im[n - 1], im[n], im[n + 1], im[10]}; for (auto& a : im) q.push_back(a); verify(c, q, n + 3, true, 1); VS got = c.classify(q); CHECK(got[1] == "x" && got[2] == "x::1" && got[3] == "w" && got[4] == "x", "the class of the discriminator that learned the image"); for (int k = 0; k < n && k < 13; k++) CHECK(got[5 + k] == "x", "the class of the discriminator that learned the image"); REACH("many");
}
ENTRY(e_apart) {       // training one label leaves the discriminators of the others alone
  sym_rand_mode(-8); int es = 3; C c(2, SCORES[PARAM("min", 1)], 2, 2); std::string la = NAME[PARAM("a", 2)], lb = NAME[PARAM("b", 3)]; VI x = sym_image("train", es, 2), y = sym_image("train", es, 2), z = sym_image("train", es, 2); VI q = sym_image("query", es, 2); c.train(VVI{x}, VS{la}); VVI v = c.clusters[la].classify(q), m = c.getMentalImage(la); c.train(VVI{y, z}, VS{lb, lb}); CHECK(same(c.clusters[la].classify(q), v) && same(c.getMentalImage(la), m), "untouched by the training of another label"); CHECK(c.clusters.size() == 2, "two classes"); REACH("apart");
}
