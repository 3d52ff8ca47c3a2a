// C24: reported degrees and confidence are consistent with the classification.
#include "clus.h"
#ifndef USE_HPP
struct PW : WisardWrapper { using WisardWrapper::WisardWrapper; using WisardWrapper::discriminators; };
struct PC : ClusWisardWrapper { using ClusWisardWrapper::ClusWisardWrapper; using ClusWisardWrapper::clusters; };
static py::kwargs opts(int o, int extra = 0) { py::kwargs k; if (extra & 1) k.set("bleachingActivated", false); if (extra & 2) k.set("ignoreZero", true); if (extra & 4) k.set("confidence", 2); if (o & 1) k.set("returnConfidence", true); if (o & 2) k.set("returnActivationDegree", true); if (o & 4) k.set("returnClassesDegrees", true); return k; }
static double fixed_double(double d) { uint64_t b; __builtin_memcpy(&b, &d, 8); b = __sym_concretize(b); __builtin_memcpy(&d, &b, 8); return d; }
static bool near_(double a, double b) { double d = a - b; return d > -1e-5 && d < 1e-5; }
static double number(const py::object& o) { CHECK(o.kind == 2 || o.kind == 1, "a number"); return fixed_double(o.kind == 2 ? o.d : (double)o.i); }
// one result against the candidates: their scores, classes and numbers of RAMs
static void result(py::object& r, int o, const std::string& plain, VI s, const VS& cls, const VI& rams) {
  if (!o) { CHECK(r.kind == 3 && r.s == plain, "without options the class alone"); return; }
  CHECK(r.kind == 5, "a dictionary"); CHECK(r.contains("class") && r["class"].kind == 3 && r["class"].s == plain, "the class plain classification returns");
  CHECK(r.contains("confidence") == !!(o & 1) && r.contains("activationDegree") == !!(o & 2) && r.contains("classesDegrees") == !!(o & 4) && r.size() == (size_t)(1 + (o & 1) + (o >> 1 & 1) + (o >> 2 & 1)), "the requested entries only");
  int best = 0, total = 0; for (auto& x : s) { x = (int)__sym_concretize((uint64_t)x); best = x > best ? x : best; total += x; } int second = 0; for (int x : s) if (x < best && x > second) second = x;
  if (o & 1) { double c = number(r["confidence"]); CHECK(c >= 0 && c <= 1, "within 0 and 1"); CHECK(near_(c, best ? (double)(best - second) / best : 0), "(best - next lower)/best"); }
  if (o & 2) { double d = number(r["activationDegree"]); CHECK(d >= 0 && d <= 1, "within 0 and 1"); bool ok = s.empty() && d == 0; for (size_t k = 0; k < s.size(); k++) if (s[k] == best && cls[k] == plain && near_(d, rams[k] ? (double)best / rams[k] : 0)) ok = true; CHECK(ok, "score of the class divided by its number of RAMs"); }
  if (o & 4) { py::object& l = r["classesDegrees"]; CHECK(l.kind == 4 && l.size() == s.size(), "one degree per candidate"); double sum = 0; std::vector<bool> used(s.size(), false);
    for (size_t i = 0; i < l.size() && i < s.size(); i++) { py::object& e = l[(size_t)i]; CHECK(e.kind == 5 && e.size() == 2 && e.contains("class") && e.contains("degree"), "class and degree"); double d = number(e["degree"]); CHECK(d >= 0 && d <= 1, "within 0 and 1"); sum += d; bool found = false; for (size_t k = 0; k < s.size() && !found; k++) if (!used[k] && cls[k] == e["class"].s && near_(d, total ? (double)s[k] / total : 0)) used[k] = found = true; CHECK(found, "in proportion to the scores"); }
    CHECK(near_(sum, total ? 1 : 0), "summing to 1"); }
}
ENTRY(e_wisard) {
  sym_rand_mode(-8); int o = (int)PARAM("opts", 7), ex = (int)PARAM("extra", 0), es = 3, n = (int)PARAM("n", 3); std::map<std::string, VVI> mp; static const char* L[] = {"a", "a::0", "b", "", "c"}; int classes = (int)PARAM("classes", 3); mp["a"] = VVI{{0, 1}, {2, 1}}; mp["a::0"] = PARAM("unequal", 0) ? VVI{{2, 0, 1}, {1, 1}, {0, 2}} : VVI{{1, 0}, {0, 2}}; mp["b"] = VVI{{0, 2}, {2, 1}}; mp[""] = VVI{{0, 1}, {1, 2}}; mp["c"] = VVI{{1, 0}, {0, 1}};
  PW w(2, opts(o, ex).set("mapping", mp)), p(2, opts(0, ex).set("mapping", mp)); VVI im; VS lb; VVI of[5]; for (int i = 0; i < n; i++) { im.push_back(sym_image("train", es, 2)); int k = PARAM("same", 0) ? 0 : i % classes; lb.push_back(L[k]); of[k].push_back(im[i]); }
  bool packed = PARAM("packed", 0); if (packed) { DataSet d; for (int i = 0; i < n; i++) d.add(pack(im[i]), lb[i]); w.train(d); p.train(d); } else { w.train(im, lb); p.train(im, lb); }
  VI q = sym_image("query", es, 2); py::list r; std::string plain; if (packed) { DataSet d; d.add(pack(q)); r = w.pyClassify(d); plain = p.classify(d)[0]; } else { r = w.pyClassify(VVI{q}); plain = p.classify(VVI{q})[0]; py::list t = p.pyClassify(VVI{q}); CHECK(t.size() == 1 && t[0].kind == 3 && t[0].s == plain, "the class alone"); }
  CHECK(r.size() == 1, "one result per image"); VVI votes; VS cls; VI rams; for (int k : {3, 0, 1, 2, 4}) if (!of[k].empty()) { votes.push_back(ref_votes(of[k], q, mp[L[k]], ex & 2)); cls.push_back(L[k]); rams.push_back((int)mp[L[k]].size()); }
  VI s = ref_bleach(votes, n, !(ex & 1), ex & 4 ? 2 : 1); result(r[0], o, plain, s, cls, rams); REACH("wisard");
}
ENTRY(e_clus) {
  sym_rand_mode(-8); int o = (int)PARAM("opts", 7), ex = (int)PARAM("extra", 0), es = 3, n = (int)PARAM("n", 3), as = (int)PARAM("as", 2); bool complete = PARAM("complete", 1); PC w(as, SCORES[PARAM("min", 6)], 2, 2, opts(o, ex).set("completeAddressing", complete)), p(as, SCORES[PARAM("min", 6)], 2, 2, opts(0, ex).set("completeAddressing", complete)); VVI im; VS lb; static const char* L[] = {"a", "a::1", "a"}; for (int i = 0; i < n; i++) { im.push_back(sym_image("train", es, 2)); lb.push_back(L[i % 3]); }
  w.train(im, lb); p.train(im, lb); VI q = sym_image("query", es, 2); py::list r = w.pyClassify(VVI{q}); std::string plain = p.classify(VVI{q})[0]; py::list t = p.pyClassify(VVI{q}); CHECK(t.size() == 1 && t[0].kind == 3 && t[0].s == plain, "the class alone"); CHECK(r.size() == 1, "one result per image");
  VVI votes; VS cls; VI rams; for (auto& k : w.clusters) for (auto& v : k.second.classify(q)) { votes.push_back(v); cls.push_back(k.first); rams.push_back((int)v.size()); CHECK((int)v.size() == (es + (complete ? as - 1 : 0)) / as, "RAMs"); } VI s = ref_bleach(votes, n, !(ex & 1), ex & 4 ? 2 : 1); result(r[0], o, plain, s, cls, rams); REACH("clus");
}
ENTRY(e_untrained) {   // no class yet, no image
  sym_rand_mode(-8); for (int o = 0; o < 8; o++) { PW w(2, opts(o)); PC c(2, 0.5f, 2, 2, opts(o)); VI q = sym_image("query", 3, 2); CHECK(w.pyClassify(VVI()).size() == 0 && c.pyClassify(VVI()).size() == 0 && w.pyClassify(DataSet()).size() == 0, "no result without images"); py::list a = w.pyClassify(VVI{q, q}), b = c.pyClassify(VVI{q, q}); CHECK(a.size() == 2 && b.size() == 2, "one result per image"); for (int i = 0; i < 2; i++) { result(a[i], o, "", VI(), VS(), VI()); result(b[i], o, "", VI(), VS(), VI()); } } REACH("untrained");
}
ENTRY(e_loaded) {      // the options of a saved model still hold
  sym_rand_mode(-8); int o = (int)PARAM("opts", 7); VVI im{sym_image("train", 3, 2), VI{0, 1, 1}}; VI q = sym_image("query", 3, 2); PW w(3, opts(o)); PC c(3, 0.5f, 2, 2, opts(o)); w.train(im, VS{"x", "y"}); c.train(im, VS{"x", "y"}); PW v(w.json()); PC d(c.json()); VVI votes; VS cls{"x", "y"}; for (int k = 0; k < 2; k++) votes.push_back(ref_votes(VVI{im[k]}, q, VVI{{0, 1, 2}}, false)); VI s = ref_bleach(votes, 2, true, 1); py::list a = v.pyClassify(VVI{q}), b = d.pyClassify(VVI{q}); result(a[0], o, w.classify(VVI{q})[0], s, cls, VI{1, 1}); result(b[0], o, c.classify(VVI{q})[0], s, cls, VI{1, 1}); REACH("loaded");
}
ENTRY(e_several) {     // results of several images each belong to their image
  sym_rand_mode(-8); int o = (int)PARAM("opts", 7); PW w(2, opts(o)); PC c(2, 1.0f, 1, 3, opts(o)); VVI im{VI{1, 1, 1, 1}, VI{0, 0, 0, 0}, VI{1, 1, 1, 1}, VI{1, 0, 1, 0}}; VS lb{"x", "y", "x", "z"}; w.train(im, lb); c.train(im, lb); VVI q{VI{0, 0, 0, 0}, sym_image("query", 4, 2), VI{1, 1, 1, 1}}; py::list a = w.pyClassify(q), b = c.pyClassify(q); CHECK(a.size() == 3 && b.size() == 3, "one result per image");
  for (int i = 0; i < 3; i++) { VVI votes; VS cls{"x", "y", "z"}; for (int k = 0; k < 3; k++) votes.push_back(w.discriminators[cls[k]].classify(q[i])); VI s = ref_bleach(votes, 2, true, 1); result(a[i], o, w.classify(VVI{q[i]})[0], s, cls, VI{2, 2, 2}); VVI vc; VS kc; VI rc; for (auto& k : c.clusters) for (auto& v : k.second.classify(q[i])) { vc.push_back(v); kc.push_back(k.first); rc.push_back(2); } VI sc = ref_bleach(vc, 4, true, 1); result(b[i], o, c.classify(VVI{q[i]})[0], sc, kc, rc); } REACH("several");
}
#endif
ENTRY(e_confidence) {  // any scores
  int n = (int)PARAM("n", 3), top = (int)PARAM("top", 5); std::map<std::string, int> c; VI s; for (int i = 0; i < n; i++) { s.push_back((int)sym_pick("score", 0, top)); c[std::string(1, (char)('a' + i))] = s[i]; } int best = 0, second = 0; for (int x : s) best = x > best ? x : best; for (int x : s) if (x < best && x > second) second = x; float f = Bleaching::getConfidence(c, best); double d = f - (best ? (double)(best - second) / best : 0); CHECK(f >= 0 && f <= 1 && d > -1e-5 && d < 1e-5, "(best - next lower)/best"); REACH("confidence");
}
