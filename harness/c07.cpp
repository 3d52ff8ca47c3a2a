// C07: bleaching.
#include "model.h"
typedef std::map<std::string, std::vector<int>> Votes;
static const char* NAME[] = {"a", "aa", "b", "c", "d"};
static void one(const VVI& v, int top, int from, bool on, int conf, bool best) {
  Votes in; for (size_t k = 0; k < v.size(); k++) in[NAME[k]] = v[k];
  std::map<std::string, int> got = Bleaching::make(in, on, best, conf); VI want = ref_bleach(v, top, on, conf, from);
  CHECK(got.size() == v.size(), "one score per class");
  for (size_t k = 0; k < v.size(); k++) { CHECK(got.count(NAME[k]) == 1, "every class has a score"); CHECK(got[NAME[k]] == want[k], "score at the first unambiguous threshold"); OBS("score", got[NAME[k]]); }
}
ENTRY(e_make) {        // any votes of K classes with R RAMs each, any confidence
  int K = (int)PARAM("classes", 2), R = (int)PARAM("rams", 2), V = (int)PARAM("top", 3), off = (int)PARAM("offset", 0); bool on = PARAM("on", 1);
  VVI v(K, VI(R)); for (int k = 0; k < K; k++) for (int r = 0; r < R; r++) v[k][r] = off + (int)sym_int("vote", 0, V);
  int conf = (int)sym_int("confidence", -1, R + 1);
  one(v, off + V, off ? off : 1, on, conf, PARAM("best", 0)); REACH("make");
}
ENTRY(e_unequal) {     // classes with different numbers of RAMs, zero and large votes mixed
  VVI v(3); int n[3] = {1, 3, 2}; for (int k = 0; k < 3; k++) for (int r = 0; r < n[k]; r++) { int x = (int)sym_int("vote", 0, 3); v[k].push_back(PARAM("wide", 0) ? sel(x == 3, 27, sel(x == 2, 5, x)) : x); }
  one(v, PARAM("wide", 0) ? 27 : 3, 1, true, (int)sym_int("confidence", 0, 3), false); REACH("unequal");
}
ENTRY(e_order) {       // the outcome follows the classes, not their order
  int K = (int)PARAM("classes", 3), R = (int)PARAM("rams", 2); VVI v(K, VI(R)); for (int k = 0; k < K; k++) for (int r = 0; r < R; r++) v[k][r] = (int)sym_int("vote", 0, 2);
  int conf = (int)sym_int("confidence", 0, R); Votes a, b; for (int k = 0; k < K; k++) { a[NAME[k]] = v[k]; b[NAME[K - 1 - k]] = v[k]; }
  std::map<std::string, int> x = Bleaching::make(a, true, false, conf), y = Bleaching::make(b, true, false, conf);
  for (int k = 0; k < K; k++) CHECK(x[NAME[k]] == y[NAME[K - 1 - k]], "scores do not depend on the order of the classes");
  REACH("order");
}
ENTRY(e_extreme) {     // votes over the whole int range and no classes at all: terminates
  int w = (int)PARAM("what", 0); Votes v; if (w == 1) v["a"] = VI{(int)sym_int("vote", -2147483647 - 1, 0), -5}; if (w == 2) { v["a"] = VI(2, 70000); v["b"] = VI{70000, 70001}; } if (w == 3) { v["a"] = VI(); v["b"] = VI(); }
  if (w >= 4) { VI a{(int)sym_int("vote", -2147483647 - 1, 2147483647), (int)sym_int("vote", 2147483000, 2147483647), (int)sym_int("vote", 65536, 2147483647)}; v["a"] = a; int want = 2 + (a[0] >= 1 ? 1 : 0); if (w == 4) v["b"] = VI{0, -3, 0}; bool on = w != 6; if (w == 6) v["b"] = VI{a[0], a[1], 0}; std::map<std::string, int> s = Bleaching::make(v, on, false, 1); CHECK(s.size() == v.size() && s["a"] == want, "large counters vote at the first threshold"); if (w == 4) CHECK(s["b"] == 0, "counters below 1 do not"); if (w == 6) CHECK(s["b"] == want - 1, "without bleaching every counter of at least 1 votes"); REACH("extreme"); return; }
  std::map<std::string, int> s = Bleaching::make(v, true, false, (int)sym_int("confidence", -5, 5)); CHECK(s.size() == v.size(), "one score per class");
  if (w == 2) { CHECK(s["a"] <= 2 && s["b"] <= 2, "scores"); } else for (auto& e : s) CHECK(e.second == 0, "no RAM votes"); REACH("extreme");
}
struct W : Wisard { using Wisard::Wisard; using Wisard::discriminators; std::map<std::string, int> scores(const VI& q) { return classify(q); } };
ENTRY(e_wisard) {      // the scores a Wisard gives its classes
  int es = 3; VVI mp = {{0, 1}, {1, 2}}; std::map<std::string, VVI> by; by["a"] = mp; by["b"] = mp; int conf = (int)PARAM("confidence", 1); bool on = PARAM("on", 1);
  W w(2, nl::json{{"mapping", by}, {"bleachingActivated", on}, {"confidence", conf}, {"base", 2}});
  VVI im; VS lb; VVI A, B; for (int i = 0; i < 4; i++) { im.push_back(sym_image("train", es, 2)); lb.push_back(i & 1 ? "b" : "a"); (i & 1 ? B : A).push_back(im[i]); }
  for (int i = 0; i < (int)PARAM("again", 0); i++) { im.push_back(im[0]); lb.push_back("a"); A.push_back(im[0]); im.push_back(im[0]); lb.push_back("b"); B.push_back(im[0]); }
  w.train(im, lb); VI q = sym_image("query", es, 2); VVI votes = {ref_votes(A, q, mp, false), ref_votes(B, q, mp, false)}; VI want = ref_bleach(votes, (int)A.size(), on, conf);
  std::map<std::string, int> s = w.scores(q); CHECK(s.size() == 2 && s["a"] == want[0] && s["b"] == want[1], "scores of the classes"); REACH("wisard");
}
