// C29: every option has its documented default and takes effect exactly as given, in C++ and in Python.
#include "clus.h"
static const int BASES[] = {2, 3, 10, 2147483647}, CONFS[] = {1, 2, 0, 7};
static const char* FLAGS[] = {"bleachingActivated", "ignoreZero", "completeAddressing", "verbose", "returnConfidence", "returnActivationDegree", "returnClassesDegrees"};
static const bool DEF[] = {true, false, true, false, false, false, false};
struct Opt { int given; bool f[7]; int base, conf; };          // bit k of given: flag k, 7: base, 8: confidence
static nl::json cpp(const Opt& o) { nl::json j = nl::json::object(); for (int k = 0; k < 7; k++) if (o.given >> k & 1) j[FLAGS[k]] = o.f[k]; if (o.given >> 7 & 1) j["base"] = o.base; if (o.given >> 8 & 1) j["confidence"] = o.conf; return j; }
static void settings(const std::string& text, const Opt& o, int as) {
  nl::json c = nl::json::parse(text); CHECK(c["addressSize"].get<int>() == as, "address size");
  for (int k = 0; k < 7; k++) CHECK(c[FLAGS[k]].get<bool>() == ((o.given >> k & 1) ? o.f[k] : DEF[k]), "a flag has the given value, or its default");
  CHECK(c["base"].get<int>() == ((o.given >> 7 & 1) ? o.base : 2), "base has the given value, or its default"); CHECK(c["confidence"].get<int>() == ((o.given >> 8 & 1) ? o.conf : 1), "confidence has the given value, or its default");
}
// how 0: exactly one option; 1: all but one; 2: all, any values; 3: none
static Opt pick(int how) {
  Opt o; int k = how < 2 ? (int)sym_pick("option", 0, 8) : 0; o.given = how == 0 ? 1 << k : how == 1 ? 511 & ~(1 << k) : how == 2 ? 511 : 0; o.base = 2; o.conf = 1;
  for (int i = 0; i < 7; i++) o.f[i] = how == 1 ? !DEF[i] : how == 3 ? DEF[i] : (o.given >> i & 1) ? (__sym_concretize(sym_bool("flag")) & 1) : DEF[i];
  if (o.given >> 7 & 1) o.base = how == 1 ? 3 : BASES[sym_pick("base", 0, how == 2 ? 1 : 3)];
  if (o.given >> 8 & 1) o.conf = how == 1 ? 2 : CONFS[sym_pick("confidence", 0, how == 2 ? 1 : 3)]; return o;
}
#ifndef USE_HPP
static py::kwargs python(const Opt& o, bool back) {
  py::kwargs k; for (int n = 0; n < 9; n++) { int i = back ? 8 - n : n; if (!(o.given >> i & 1)) continue; if (i < 7) k.set(FLAGS[i], o.f[i]); else if (i == 7) k.set("base", o.base); else k.set("confidence", o.conf); } return k;
}
#endif
ENTRY(e_wisard) {
  sym_rand_mode(1); Opt o = pick((int)PARAM("how", 0)); int as = 3; Wisard w(as, cpp(o)); settings(w.jsonConfig(), o, as); settings(w.json(), o, as);
  nl::json c = nl::json::parse(w.jsonConfig()); CHECK(c["indexes"].size() == 0 && c["mapping"].size() == 0, "no indexes and no mapping unless given");
#ifndef USE_HPP
  WisardWrapper p(as, python(o, PARAM("back", 0))); settings(p.jsonConfig(), o, as); CHECK(p.jsonConfig() == w.jsonConfig(), "the C++ and the Python form agree");
#endif
  if (PARAM("how", 0) == 3) { Wisard n(as); CHECK(n.jsonConfig() == w.jsonConfig(), "the form without options has the defaults"); } REACH("wisard");
}
ENTRY(e_clus) {
  sym_rand_mode(1); Opt o = pick((int)PARAM("how", 0)); int as = 3, th = 10, lim = 5; float ms = 0.5f; ClusWisard w(as, ms, th, lim, cpp(o)); settings(w.jsonConfig(), o, as); settings(w.json(), o, as);
  nl::json c = nl::json::parse(w.jsonConfig()); CHECK(c["minScore"].get<float>() == ms && c["threshold"].get<int>() == th && c["discriminatorsLimit"].get<int>() == lim, "minScore, threshold and limit as given");
#ifndef USE_HPP
  ClusWisardWrapper p(as, ms, th, lim, python(o, PARAM("back", 0))); settings(p.jsonConfig(), o, as); CHECK(p.jsonConfig() == w.jsonConfig(), "the C++ and the Python form agree");
#endif
  if (PARAM("how", 0) == 3) { ClusWisard n(as, ms, th, lim); CHECK(n.jsonConfig() == w.jsonConfig(), "the form without options has the defaults"); } REACH("clus");
}
// the options take effect: scores computed from the documentation, with one or more options off their defaults
static VVI map_of(const nl::json& c, const char* l) { return c["classes"][l]["mapping"].get<VVI>(); }
ENTRY(e_effect) {
  sym_rand_mode(-8); int off = (int)PARAM("off", 0), es = 5, as = 2, n = 3; Opt o; o.given = off; for (int i = 0; i < 7; i++) o.f[i] = !DEF[i]; o.base = (int)PARAM("base", 3); o.conf = 2; bool iz = off >> 1 & 1, complete = !(off >> 2 & 1), on = !(off & 1); int base = off >> 7 & 1 ? o.base : 2, conf = off >> 8 & 1 ? 2 : 1;
  VVI im; VS lb; for (int i = 0; i < n; i++) { VI v(es, 0); for (int k = 0; k < 2 + (i == 0); k++) v[k * 2] = (int)sym_int("train", 0, base - 1); im.push_back(v); lb.push_back(i == 1 ? "b" : "a"); } VI q(es, 0); for (int k = 0; k < 3; k++) q[k * 2] = (int)sym_int("query", 0, base - 1);
  Wisard w(as, cpp(o)); w.train(im, lb); nl::json c = nl::json::parse(w.json()); VVI ma = map_of(c, "a"), mb = map_of(c, "b"); int rams = complete ? (es + as - 1) / as : es / as; CHECK((int)ma.size() == rams && (int)mb.size() == rams, "number of RAMs");
  VVI votes{ref_votes(VVI{im[0], im[2]}, q, ma, iz), ref_votes(VVI{im[1]}, q, mb, iz)}; int want = ref_winner(ref_bleach(votes, n, on, conf)); std::string got = w.classify(VVI{q})[0]; CHECK(got == (want ? "b" : "a"), "the options take effect in C++"); OBS("b", got == "b");
#ifndef USE_HPP
  sym_rand_mode(-8); WisardWrapper p(as, python(o, false)); p.train(im, lb); CHECK(p.json() == w.json(), "same model in Python"); std::string py_ = ((Wisard&)p).classify(VVI{q})[0]; CHECK(py_ == got, "the options take effect in Python");
#endif
  REACH("effect");
}
// verbose prints and changes nothing else
ENTRY(e_verbose) {
  int which = (int)PARAM("which", 0), es = 3; VVI im{sym_image("train", es, 2), sym_image("train", es, 2)}; VVI q{sym_image("query", es, 2), im[0]}; VS lb{"a", "b"};
  auto plain = [](std::string t) { nl::json j = nl::json::parse(t); CHECK(j["verbose"].is_boolean(), "verbose is stored"); j["verbose"] = false; return j.dump(); };
  if (which == 0) { sym_rand_mode(-8); Wisard a(2); a.train(im, lb); sym_rand_mode(-8); Wisard b(2, nl::json{{"verbose", true}}); b.train(im, lb); CHECK(a.classify(q) == b.classify(q), "same labels"); a.leaveMoreOut(VVI{im[1]}, VS{"b"}); b.leaveMoreOut(VVI{im[1]}, VS{"b"}); CHECK(plain(a.json()) == plain(b.json()), "same model");
    DataSet d; d.add(pack(im[0]), "a"); d.add(pack(im[1]), "c"); DataSet e; e.add(pack(q[0])); sym_rand_mode(-8); a.train(d); sym_rand_mode(-8); b.train(d); CHECK(a.classify(e) == b.classify(e) && plain(a.json()) == plain(b.json()), "same packed"); }
  else { sym_rand_mode(-8); ClusWisard a(2, 0.5f, 2, 2); ClusWisard b(2, 0.5f, 2, 2, nl::json{{"verbose", true}}); a.train(im, lb); b.train(im, lb); CHECK(a.classify(q) == b.classify(q), "same labels");
    std::map<int, std::string> half; half[1] = "a"; if (which == 1) { a.train(im, half); b.train(im, half); CHECK(a.classify(q) == b.classify(q), "same after semi-supervised training"); }
    else { a.trainUnsupervised(im); b.trainUnsupervised(im); CHECK(a.classifyUnsupervised(q) == b.classifyUnsupervised(q), "same unsupervised"); } CHECK(plain(a.json()) == plain(b.json()), "same model"); }
  REACH("verbose");
}
ENTRY(e_discriminator) {
  int off = (int)PARAM("off", 0), es = 5, as = 2; bool iz = off & 1, complete = !(off & 2); int base = off & 4 ? (int)PARAM("base", 3) : 2; nl::json j = nl::json::object(); if (off & 1) j["ignoreZero"] = true; if (off & 2) j["completeAddressing"] = false; if (off & 4) j["base"] = base; VI ix{4, 2, 0, 1, 3}; VVI mp{{0, 4}, {1, 1, 3}}; if (off & 8) j["indexes"] = ix; if (off & 16) j["mapping"] = mp;
  VI t(es, 0), q(es, 0); for (int k = 0; k < 4; k++) { t[k + (k > 1)] = (int)sym_int("train", 0, base - 1); q[k + (k > 1)] = (int)sym_int("query", 0, base - 1); }
  sym_rand_mode(-8); Discriminator d(as, es, j); nl::json c = nl::json::parse(d.json()); VVI m = c["mapping"].get<VVI>(); int rams = complete ? 3 : 2; if (off & 16) CHECK(same(m, mp), "the mapping as given"); else if (off & 8) CHECK(same(m, VVI{{4, 2}, {0, 1}}), "the indexes as given"); else CHECK((int)m.size() == rams && (int)m[0].size() == as, "completeAddressing");
  d.train(t); CHECK(same(d.classify(q), ref_votes(VVI{t}, q, m, iz)), "votes under the given options"); CHECK(THROWS_LIB(d.classify(VI(es, base))), "values of the base refused");
  if (!off) { sym_rand_mode(-8); Discriminator e(as, es); e.train(t); CHECK(e.json() == d.json(), "the form without options has the defaults"); }
#ifndef USE_HPP
  py::kwargs k; bool back = PARAM("back", 0); for (int n = 0; n < 5; n++) { int i = back ? 4 - n : n; if (!(off >> i & 1)) continue; if (i == 0) k.set("ignoreZero", true); if (i == 1) k.set("completeAddressing", false); if (i == 2) k.set("base", base); if (i == 3) k.set("indexes", ix); if (i == 4) k.set("mapping", mp); }
  sym_rand_mode(-8); DiscriminatorWrapper p(as, es, k); p.train(t); CHECK(p.json() == d.json(), "the C++ and the Python form agree");
#endif
  REACH("discriminator");
}
ENTRY(e_lists) {       // indexes and mapping of a Wisard
  int es = 4, as = 2, what = (int)PARAM("what", 1), off = (int)PARAM("off", 0), base = off & 2 ? 3 : 2; bool iz = off & 1, on = !(off & 4); int conf = off & 8 ? 2 : 1; nl::json j = nl::json::object(); if (iz) j["ignoreZero"] = true; if (off & 2) j["base"] = base; if (!on) j["bleachingActivated"] = false; if (off & 8) j["confidence"] = conf; VI ix{3, 0, 2, 1}; std::map<std::string, VVI> by; by["a"] = VVI{{3, 3, 0}, {1, 2}}; if (what & 1) j["indexes"] = ix; if (what & 2) j["mapping"] = by; sym_rand_mode(-8);
  VVI im{sym_image("train", es, base), sym_image("train", es, base)}; VI q = sym_image("query", es, base); Wisard w(as, j); w.train(im, VS{"a", "b"}); nl::json c = nl::json::parse(w.json()); VVI byix{{3, 0}, {2, 1}}; VVI ma = map_of(c, "a"), mb = map_of(c, "b");
  if (what & 2) CHECK(same(ma, by["a"]), "the mapping of a class"); else if (what & 1) CHECK(same(ma, byix), "the indexes"); else CHECK(ma.size() == 2, "random unless given"); if (what & 1) CHECK(same(mb, byix), "the indexes for a class without mapping"); else CHECK(mb.size() == 2, "random for a class without mapping");
  int want = ref_winner(ref_bleach(VVI{ref_votes(VVI{im[0]}, q, ma, iz), ref_votes(VVI{im[1]}, q, mb, iz)}, 2, on, conf)); CHECK(w.classify(VVI{q})[0] == (want ? "b" : "a"), "classification with the given positions");
#ifndef USE_HPP
  py::kwargs k; if (what & 2) k.set("mapping", by); if (off & 8) k.set("confidence", conf); if (off & 2) k.set("base", base); if (what & 1) k.set("indexes", ix); if (iz) k.set("ignoreZero", true); if (!on) k.set("bleachingActivated", false); sym_rand_mode(-8); WisardWrapper p(as, k); p.train(im, VS{"a", "b"}); CHECK(p.json() == w.json(), "the C++ and the Python form agree");
#endif
  REACH("lists");
}
static int ones(const VI& v) { int n = 0; for (int x : v) n += x; return n; }
ENTRY(e_kernel) {      // KernelCanvas: 3 bits per kernel, 7% of the kernels, no direction unless given otherwise
  sym_rand_mode(1); int kernels = (int)sym_pick("kernels", 15, 60), off = (int)PARAM("off", 0); nl::json j = nl::json::object(); static const double DEG[] = {0.5, 0.0, 1.0, 0.07, 0.25}; static const int BITS[] = {2, 1, 3, 8}; double deg = DEG[PARAM("deg", 0)]; int gb = BITS[PARAM("bits", 0)]; if (off & 1) j["bitsByKernel"] = gb; if (off & 2) j["activationDegree"] = deg; if (off & 4) j["useDirection"] = (bool)PARAM("dir", 1);
  int bits = off & 1 ? gb : 3; int act = (int)((off & 2 ? (float)deg : 0.07f) * kernels + 0.5f); std::vector<std::vector<double>> pts{{1.0, 2.0}}; srand(1); KernelCanvas k(2, kernels, j); VI o = k.transform(pts); CHECK((int)o.size() == kernels * bits && ones(o) == act * bits, "bits by kernel and activation degree as given, or the defaults");
  if (!off) { KernelCanvas n(2, kernels); VI u = n.transform(pts); CHECK(u.size() == o.size() && ones(u) == ones(o), "the form without options has the defaults"); }
#ifndef USE_HPP
  for (int back = 0; back < 2; back++) { py::kwargs g; if (back && (off & 4)) g.set("useDirection", (bool)PARAM("dir", 1)); if (off & 2) g.set("activationDegree", deg); if (off & 1) g.set("bitsByKernel", gb); if (!back && (off & 4)) g.set("useDirection", (bool)PARAM("dir", 1)); KernelCanvasWrapper p(2, kernels, g); VI v = p.transform(pts); CHECK(v.size() == o.size() && ones(v) == ones(o), "the C++ and the Python form agree"); }
#endif
  REACH("kernel");
}
