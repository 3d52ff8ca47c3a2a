// C10: a Wisard saved as JSON text and loaded again is the same model.
#include "model.h"
static const char* LABELS[] = {"", "a", "::", ".", "#", "/", "a/b\\c", "\xc3\xa9\xe2\x82\xac", "\"quoted\"", "a::0", "{}", "null", "\n\t", "0", "classes", " ", "~1", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "\x7f\x01"};
static void same_models(Wisard& a, Wisard& b, const VVI& q) {
  CHECK(a.jsonConfig() == b.jsonConfig(), "same settings, classes and mappings");
  CHECK(a.classify(q) == b.classify(q), "same classification");
  auto m = a.getMentalImages(), n = b.getMentalImages(); bool eq = m.size() == n.size(); CHECK(eq, "same number of mental images"); if (eq) for (auto& x : m) { CHECK(n.count(x.first) == 1, "same classes"); CHECK(same(x.second, n[x.first]), "same mental images"); }
}
static void alike(Wisard& a, Wisard& b, const VVI& q, const VI& more, const VS& known) {
  same_models(a, b, q); if (!PARAM("more", 1)) return;
  for (auto& l : known) { sym_rand_mode(-8); a.train(VVI{more}, VS{l}); sym_rand_mode(-8); b.train(VVI{more}, VS{l}); }
  same_models(a, b, q); a.leaveMoreOut(VVI{more}, VS{known[0]}); b.leaveMoreOut(VVI{more}, VS{known[0]}); same_models(a, b, q);
}
static nl::json options() {
  nl::json o = {{"bleachingActivated", (bool)PARAM("bleach", 1)}, {"ignoreZero", (bool)PARAM("ignoreZero", 0)}, {"completeAddressing", (bool)PARAM("complete", 1)}, {"base", (int)PARAM("base", 2)}, {"confidence", (int)PARAM("confidence", 1)}, {"returnConfidence", (bool)PARAM("rc", 0)}, {"returnActivationDegree", (bool)PARAM("ra", 0)}, {"returnClassesDegrees", (bool)PARAM("rd", 0)}};
  return o;
}
static void settings(const Wisard& w, const nl::json& o, int as) {
  nl::json c = nl::json::parse(const_cast<Wisard&>(w).jsonConfig()); CHECK(c["addressSize"] == as, "address size kept"); for (auto it = o.begin(); it != o.end(); ++it) CHECK(c[it.key()] == it.value(), "every setting kept");
}
ENTRY(e_saved) {       // symbolic images of two or three classes, every combination of options
  sym_rand_mode(-8); int es = (int)PARAM("es", 3), as = (int)PARAM("as", 2), n = (int)PARAM("n", 3), base = (int)PARAM("base", 2); nl::json o = options(); int how = (int)PARAM("how", 0);
  if (how == 1) { VI ix; for (int i = 0; i < es; i++) ix.push_back(es - 1 - i); o["indexes"] = ix; } if (how == 2) { std::map<std::string, VVI> mp; mp["a"] = VVI{{2, 0}, {1, 1}}; mp["never"] = VVI{{0, 1}}; mp["late"] = VVI{{1, 0}, {2, 1}, {0, 0}}; o["mapping"] = mp; }
  Wisard w(as, o); VVI im; VS lb; static const char* L[] = {"a", "b::1", "a", "", "late"}; for (int i = 0; i < n; i++) { im.push_back(sym_image("train", es, base)); lb.push_back(L[i]); } w.train(im, lb);
  VVI q{sym_image("query", es, base)}; if (PARAM("out", 0)) w.leaveOneOut(im[0], "a");
  std::string text = w.json(); Wisard v(text); settings(v, o, as); alike(w, v, q, VI(es, 1), VS{"a", "late", "x"}); if (PARAM("more", 1)) { Wisard u(v.json()); same_models(v, u, q); } REACH("saved");
}
ENTRY(e_empty) {       // no class yet
  sym_rand_mode(-8); int as = (int)PARAM("as", 2), es = 3, base = (int)PARAM("base", 2); nl::json o = options(); Wisard w(as, o), v(w.json()); settings(v, o, as); VI t = sym_image("train", es, base); VVI q{sym_image("query", es, base)}; alike(w, v, q, t, VS{"a", "b"}); REACH("empty");
}
ENTRY(e_labels) {      // two labels of the table
  sym_rand_mode(-8); int k = (int)sym_pick("first", 0, 18), j = (int)PARAM("other", 1); Wisard w(2); VVI im{sym_image("train", 3, 2), VI{1, 0, 1}}; VS lb{LABELS[k], LABELS[j]}; w.train(im, lb); Wisard v(w.json()); VVI q{sym_image("query", 3, 2)}; alike(w, v, q, VI{1, 1, 0}, VS{LABELS[k]}); auto m = v.getMentalImages(); CHECK(m.count(LABELS[k]) == 1 && m.count(LABELS[j]) == 1, "the labels themselves"); REACH("labels");
}
ENTRY(e_byte) {        // a label with any 7-bit character in it
  sym_rand_mode(-8); std::string l = PARAM("alone", 0) ? "" : "x"; l += (char)sym_pick("character", 0, 127); if (!PARAM("alone", 0)) l += "y"; Wisard w(2); VI im = {1, 0, 1}; w.train(VVI{im, VI{0, 1, 1}}, VS{l, "x"}); Wisard v(w.json()); VVI q{VI{1, 0, 1}, VI{0, 1, 1}, VI{1, 1, 1}}; same_models(w, v, q); CHECK(v.getMentalImages().count(l) == 1, "the label itself"); CHECK(v.classify(VVI{im})[0] == l, "recognised under its label"); REACH("byte");
}
ENTRY(e_many) {        // many classes of many images, some cells often trained
  sym_rand_mode(-8); int classes = (int)PARAM("classes", 12); Wisard w(3, nl::json{{"ignoreZero", (bool)PARAM("ignoreZero", 0)}}); VVI im; VS lb; for (int k = 0; k < classes * 3; k++) { im.push_back(VI{k & 1, k >> 1 & 1, k >> 2 & 1, (k * 5 >> 1) & 1, (k * 3 >> 2) & 1}); lb.push_back(std::to_string(k % classes)); if (k % 4 == 0) { im.push_back(im.back()); lb.push_back(lb.back()); } } w.train(im, lb);
  VVI q{sym_image("query", 5, 2)}; Wisard v(w.json()); alike(w, v, q, VI{1, 1, 0, 0, 1}, VS{"3", "11"}); REACH("many");
}
