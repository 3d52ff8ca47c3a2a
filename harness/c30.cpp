// C30: separate models, data sets and copies never influence one another.
#include "clus.h"
static nl::json opt(const Shape& s) { std::map<std::string, VVI> by; by["a"] = s.map; by["b"] = VVI(s.map.rbegin(), s.map.rend()); return nl::json{{"mapping", by}, {"base", s.base}, {"ignoreZero", (bool)PARAM("ignoreZero", 0)}}; }
static int wanted(const Shape& s, const VVI& a, const VVI& b, const VI& q) { bool iz = PARAM("ignoreZero", 0); VVI votes; VVI rev(s.map.rbegin(), s.map.rend()); if (!a.empty()) votes.push_back(ref_votes(a, q, s.map, iz)); if (!b.empty()) votes.push_back(ref_votes(b, q, rev, iz)); return ref_winner(ref_bleach(votes, (int)(a.size() + b.size()), true, 1)); }
static void verify(Wisard& w, const Shape& s, const VVI& a, const VVI& b, const VI& q) {
  auto mi = w.getMentalImages(); VVI rev(s.map.rbegin(), s.map.rend()); CHECK(mi.size() == (size_t)!a.empty() + (size_t)!b.empty() && mi.count("a") == (size_t)!a.empty() && mi.count("b") == (size_t)!b.empty(), "exactly the classes trained in this model");
  if (!a.empty()) CHECK(same(mi["a"], ref_mental(a, s.map, s.entry)), "learned exactly its own images"); if (!b.empty()) CHECK(same(mi["b"], ref_mental(b, rev, s.entry)), "learned exactly its own images");
  VS got = w.classify(VVI{q}); if (!a.empty() && !b.empty()) CHECK(got[0] == (wanted(s, a, b, q) ? "b" : "a"), "classifies by its own images"); else CHECK(got[0] == (a.empty() ? b.empty() ? "" : "b" : "a"), "classifies by its own images");
}
ENTRY(e_wisards) {     // two Wisards trained in turns, a copy, an assigned copy, one that ends
  sym_rand_mode(-8); Shape s = shape((int)PARAM("shape", 20)); int how = (int)PARAM("how", 0); nl::json o = opt(s); VI x = sym_image("train", s.entry, s.base), y = sym_image("train", s.entry, s.base), z = sym_image("train", s.entry, s.base), q = sym_image("query", s.entry, s.base); int as = (int)s.map[0].size();
  if (how == 0) { Wisard a(as, o), b(as, o); a.train(VVI{x}, VS{"a"}); b.train(VVI{y}, VS{"a"}); a.train(VVI{y}, VS{"b"}); b.classify(VVI{q}); b.train(VVI{z}, VS{"b"}); verify(a, s, VVI{x}, VVI{y}, q); verify(b, s, VVI{y}, VVI{z}, q); a.leaveOneOut(x, "a"); verify(b, s, VVI{y}, VVI{z}, q); }
  if (how == 1) { Wisard a(as, o); a.train(VVI{x}, VS{"a"}); Wisard b(a); b.train(VVI{y, z}, VS{"a", "b"}); verify(a, s, VVI{x}, VVI{}, q); verify(b, s, VVI{x, y}, VVI{z}, q); a.train(VVI{z}, VS{"b"}); a.leaveOneOut(x, "a"); a.train(VVI{y}, VS{"a"}); verify(b, s, VVI{x, y}, VVI{z}, q); verify(a, s, VVI{y}, VVI{z}, q); }
  if (how == 2) { Wisard a(as, o), b(as, o); a.train(VVI{x}, VS{"a"}); b.train(VVI{z}, VS{"b"}); b = a; a.train(VVI{y}, VS{"b"}); verify(b, s, VVI{x}, VVI{}, q); b.train(VVI{z, z}, VS{"a", "b"}); verify(a, s, VVI{x}, VVI{y}, q); verify(b, s, VVI{x, z}, VVI{z}, q); a = a; verify(a, s, VVI{x}, VVI{y}, q); }
  if (how == 3) { Wisard a(as, o); a.train(VVI{x}, VS{"a"}); { Wisard b(a); b.train(VVI{y}, VS{"b"}); Wisard c(b.json()); c.train(VVI{z}, VS{"a"}); verify(b, s, VVI{x}, VVI{y}, q); verify(c, s, VVI{x, z}, VVI{y}, q); } a.train(VVI{z}, VS{"b"}); verify(a, s, VVI{x}, VVI{z}, q); }
  if (how == 4) { Wisard* a = new Wisard(as, o); a->train(VVI{x}, VS{"a"}); Wisard b(*a); std::string t = a->json(); delete a; verify(b, s, VVI{x}, VVI{}, q); b.train(VVI{y}, VS{"b"}); verify(b, s, VVI{x}, VVI{y}, q); Wisard c(t), d(t); c.train(VVI{z}, VS{"a"}); verify(d, s, VVI{x}, VVI{}, q); verify(c, s, VVI{x, z}, VVI{}, q); std::vector<Wisard> v(2, c); v.push_back(d); v[0].train(VVI{y}, VS{"b"}); verify(v[1], s, VVI{x, z}, VVI{}, q); verify(v[2], s, VVI{x}, VVI{}, q); verify(v[0], s, VVI{x, z}, VVI{y}, q); }
  REACH("wisards");
}
ENTRY(e_discriminators) {
  Shape s = shape((int)PARAM("shape", 0)); bool iz = PARAM("ignoreZero", 0); VI x = sym_image("train", s.entry, s.base), y = sym_image("train", s.entry, s.base), q = sym_image("query", s.entry, s.base);
  auto is = [&](Discriminator& d, const VVI& l) { CHECK(same(d.classify(q), ref_votes(l, q, s.map, iz)), "votes of its own images"); CHECK(d.getNumberOfTrainings() == (int)l.size(), "counter of its own images"); CHECK(same(d.getMentalImage(), ref_mental(l, s.map, s.entry)), "mental image of its own images"); };
  Discriminator a(s.map, s.entry, iz, s.base), b(s.map, s.entry, iz, s.base); a.train(x); b.train(y); is(a, VVI{x}); Discriminator c(a); c.train(y); is(a, VVI{x}); is(b, VVI{y}); is(c, VVI{x, y}); b = c; c.untrain(x); is(b, VVI{x, y}); is(c, VVI{y}); Discriminator e(a.json()), f(a.json()); e.train(x); is(f, VVI{x}); is(e, VVI{x, x}); is(a, VVI{x}); std::swap(a, b); is(a, VVI{x, y}); is(b, VVI{x}); REACH("discriminators");
}
ENTRY(e_bases) {       // discriminators of different bases and address sizes side by side
  int o = (int)PARAM("order", 0), B[4] = {2, 4, 3, 16}; bool iz = PARAM("ignoreZero", 0); VVI m3{{0, 1, 2}, {2, 0, 1}}, m2{{0, 1}, {1, 2}}; std::vector<Discriminator> d; VVI x; VI q = sym_image("query", 3, 2); for (int i = 0; i < 4; i++) { int b = B[(i + o) % 4]; d.push_back(Discriminator(i == 3 ? m2 : m3, 3, iz, b)); x.push_back(i == 0 ? sym_image("train", 3, b) : i == 1 ? sym_image("second", 3, b) : VI{0, 1, 0}); }
  for (int i = 0; i < 4; i++) d[i].train(x[i]);
  for (int i = 0; i < 4; i++) CHECK(same(d[i].getMentalImage(), ref_mental(VVI{x[i]}, i == 3 ? m2 : m3, 3)), "the mental image of its own images");
  for (int i = 3; i >= 0; i--) { Discriminator e(d[i].json()); CHECK(same(e.getMentalImage(), ref_mental(VVI{x[i]}, i == 3 ? m2 : m3, 3)), "mental image after loading"); CHECK(same(e.classify(q), ref_votes(VVI{x[i]}, q, i == 3 ? m2 : m3, iz)) && same(d[i].classify(q), ref_votes(VVI{x[i]}, q, i == 3 ? m2 : m3, iz)), "votes of its own images"); }
  REACH("bases");
}
// a ClusWisard and its copies: what each of them answers must be that of a model with the same history
struct Hist { std::vector<std::pair<VI, std::string>> sup; VVI uns; };
static ClusWisard build(const Hist& h, float ms, int th, int lim) { ClusWisard c(2, ms, th, lim); for (auto& e : h.sup) c.train(VVI{e.first}, VS{e.second}); if (!h.uns.empty()) c.trainUnsupervised(h.uns); return c; }
static void alike(ClusWisard& c, const Hist& h, float ms, int th, int lim, const VVI& q) {
  C r(2, ms, th, lim); for (auto& e : h.sup) r.train(VVI{e.first}, VS{e.second}); if (!h.uns.empty()) r.trainUnsupervised(h.uns);
  auto m = c.getMentalImages(), n = r.getMentalImages(); CHECK(m.size() == n.size(), "its own classes"); for (auto& k : n) { CHECK(m.count(k.first) == 1 && m[k.first].size() == k.second.size(), "its own discriminators"); CHECK(same(m[k.first], k.second), "learned exactly its own images"); }
  CHECK(c.classify(q) == r.classify(q), "classifies by its own images"); if (!h.uns.empty()) CHECK(c.classifyUnsupervised(q) == r.classifyUnsupervised(q), "unsupervised classification by its own images");
}
ENTRY(e_clus) {
  sym_rand_mode(-8); int how = (int)PARAM("how", 0), es = 3; float ms = SCORES[PARAM("min", 4)]; int th = 2, lim = (int)PARAM("limit", 2); VI x = sym_image("train", es, 2), y = sym_image("train", es, 2); VI z{1, 0, 1}; VVI q{sym_image("query", es, 2)};
  Hist ha, hb; ha.sup = {{x, "a"}, {z, "b"}}; ha.uns = VVI{z}; hb = ha; hb.sup.push_back({y, "a"}); hb.uns.push_back(y); Hist hc = ha; hc.sup.push_back({y, "b"}); 
  auto more = [&](ClusWisard& c) { c.train(VVI{y}, VS{"a"}); c.trainUnsupervised(VVI{y}); };
  if (how == 0) { ClusWisard a = build(ha, ms, th, lim); ClusWisard b(a); more(b); alike(a, ha, ms, th, lim, q); alike(b, hb, ms, th, lim, q); a.train(VVI{y}, VS{"b"}); alike(b, hb, ms, th, lim, q); alike(a, hc, ms, th, lim, q); }
  if (how == 1) { ClusWisard a = build(ha, ms, th, lim), b(2, ms, th, lim); b.train(VVI{y}, VS{"q"}); b = a; more(a); alike(b, ha, ms, th, lim, q); alike(a, hb, ms, th, lim, q); a = a; alike(a, hb, ms, th, lim, q); b = a; alike(b, hb, ms, th, lim, q); }
  if (how == 2) { ClusWisard* a = new ClusWisard(build(ha, ms, th, lim)); ClusWisard b(*a); std::string t = a->json(); delete a; alike(b, ha, ms, th, lim, q); more(b); alike(b, hb, ms, th, lim, q); ClusWisard c(t), d(t); more(c); alike(d, ha, ms, th, lim, q); alike(c, hb, ms, th, lim, q); }
  if (how == 3) { ClusWisard a(2, ms, th, lim), b(2, ms, th, lim); a.train(VVI{x}, VS{"a"}); b.train(VVI{y}, VS{"a"}); a.train(VVI{z}, VS{"b"}); b.trainUnsupervised(VVI{x}); a.trainUnsupervised(VVI{z}); Hist h2; h2.sup = {{y, "a"}}; h2.uns = VVI{x}; alike(a, ha, ms, th, lim, q); alike(b, h2, ms, th, lim, q); std::vector<ClusWisard> v(2, a); v.push_back(b); more(v[0]); alike(v[1], ha, ms, th, lim, q); alike(v[2], h2, ms, th, lim, q); alike(v[0], hb, ms, th, lim, q); }
  REACH("clus");
}
ENTRY(e_alone) {       // a large ClusWisard works first; the small one after it answers by its own classes only
  sym_rand_mode(-8); int es = 4, how = (int)PARAM("how", 0); VVI many{VI(es, 0), VI(es, 1), VI{1, 0, 0, 1}, VI{0, 1, 1, 0}}; VI x = sym_image("train", es, 2); VVI q{sym_image("query", es, 2), VI{0, 1, 0, 1}, VI(es, 1)}; nl::json o = {{"bleachingActivated", (bool)PARAM("on", 1)}};
  C a(2, 1.0f, 1, 4, o); a.train(many, VS{"a", "b", "z", "z"}); a.trainUnsupervised(many); a.classify(q); VS first = a.classifyUnsupervised(q); a.getMentalImages(); std::string t = a.json();
  if (how == 0) { C b(2, 1.0f, 1, 4, o); CHECK(b.classify(q) == (VS{"", "", ""}) && b.classifyUnsupervised(q) == (VS{"", "", ""}), "a new model knows nothing"); CHECK(b.getMentalImages().empty(), "no classes"); b.train(VVI{x}, VS{"a"}); b.trainUnsupervised(VVI{x}); CHECK(b.classify(q) == (VS{"a", "a", "a"}), "its only class"); CHECK(b.classifyUnsupervised(q) == (VS{"0", "0", "0"}), "its only cluster"); CHECK(b.getMentalImages().size() == 1 && b.getMentalImage("a").size() == 1 && same(b.getMentalImage("a")[0], x), "its only image"); CHECK(b.getMentalImage("z").empty() && b.unsupervisedCluster.getNumberOfDiscriminators() == 1 && b.clusters.size() == 1, "nothing of the other model"); }
  if (how == 1) { std::map<int, std::string> l; l[0] = "k"; C b(2, 1.0f, 1, 4, o); a.train(many, l); b.train(VVI{x, VI(es, 1), x}, l); CHECK(b.classify(q) == (VS{"k", "k", "k"}), "its only class"); CHECK(b.getMentalImages().size() == 1, "nothing of the other model"); std::vector<RefDisc> ds; Rule r{1.0f, 1, 4, false}; VVI im{x, VI(es, 1), x}; std::vector<VVI> maps = maps_of(nl::json::parse(b.json())["clusters"]["k"]); for (auto& i : im) ref_train(ds, i, r, [&]() -> VVI { return ds.size() < maps.size() ? maps[ds.size()] : VVI(); }); CHECK(ds.size() == maps.size(), "grown by its own images"); agree(b.clusters["k"], ds, q[0], es, false, false); REACH("semi"); }
  if (how == 2) { Wisard w(2, nl::json{{"mapping", std::map<std::string, VVI>{{"a", {{0, 1}, {2, 3}}}, {"b", {{0, 1}, {2, 3}}}, {"z", {{0, 1}, {1, 2}, {2, 3}, {3, 0}}}}}, {"bleachingActivated", (bool)PARAM("on", 1)}}); w.train(many, VS{"a", "b", "z", "z"}); w.classify(q); DataSet dq; dq.add(pack(x)); w.classify(dq); Wisard v(2, o); CHECK(v.classify(q) == (VS{"", "", ""}) && v.classify(dq) == VS{""}, "a new model knows nothing"); v.train(VVI{x}, VS{"a"}); CHECK(v.classify(q) == (VS{"a", "a", "a"}) && v.classify(dq) == VS{"a"}, "its only class"); CHECK(v.getMentalImages().size() == 1, "nothing of the other model"); }
  if (how != 1) CHECK(a.json() == t && a.classifyUnsupervised(q) == first, "the large model is as it was"); REACH("alone");
}
struct K : KernelCanvas { using KernelCanvas::KernelCanvas; using KernelCanvas::kernels; using KernelCanvas::transform; };
ENTRY(e_others) {      // two kernel canvases and two synthesizers, used in turns
  sym_rand_mode(1); double P[] = {-1.0, 0.5, 2.0, -0.25}; std::vector<std::vector<double>> u, v; for (int i = 0; i < 2; i++) { u.push_back({P[sym_pick("x", 0, 3)], P[sym_pick("y", 0, 3)]}); v.push_back({P[i], P[3 - i], P[2]}); } bool dir = PARAM("direction", 0);
  K k(2, 6, nl::json{{"bitsByKernel", 2}, {"activationDegree", 0.34}, {"useDirection", dir}}); auto ks = k.kernels; VI o = k.transform(u); int on = 0; for (int b : o) on += b; CHECK(o.size() == 12 && on >= 4 && on <= 8, "its own size"); K l(3, 9, nl::json{{"bitsByKernel", 1}, {"useDirection", !dir}}); VI p = l.transform(v); CHECK(p.size() == 9, "its own size"); CHECK(k.kernels == ks, "its own kernels"); CHECK(k.transform(u) == o, "answers as before"); CHECK(l.transform(v) == p, "answers as before"); K c(k); c.kernels[0][0] = 9; c.transform(u); CHECK(k.kernels == ks && k.transform(u) == o, "a copy is its own"); CHECK(k.transform(u) == o, "a sequence leaves nothing behind");
  sym_rand_mode(12); VI m{3, 0, 2, 1}, n{0, 1}; Synthesizer a(m); VI r = a.make(); Synthesizer b(n); VI s = b.make(); CHECK(s.size() == 2 && s[0] == 0 && s[1] == 1, "follows its own mental image"); VI t = a.make(); for (VI x : {r, t}) CHECK(x.size() == 4 && x[0] == 1 && x[1] == 0 && (x[3] == 0 || x[2] == 1), "follows its own mental image"); REACH("others");
}
ENTRY(e_data) {        // packed inputs, data sets, handles
  int n = (int)PARAM("n", 9); VI a(n); for (auto& v : a) v = (int)sym_int("bit", 0, 1); int at = (int)sym_pick("at", 0, n - 1); std::vector<short> s(a.begin(), a.end());
  BinInput x(s), y(x), z(s); y.set(at, a[at] ? 0 : 1); for (int i = 0; i < n; i++) CHECK(x.get(i) == a[i] && z.get(i) == a[i] && y.get(i) == (i == at ? 1 - a[i] : a[i]), "a copy of an input is its own"); z = y; x.set(at, a[at] ? 0 : 1); x.set(0, a[0] ? 0 : 1); for (int i = 0; i < n; i++) CHECK(z.get(i) == (i == at ? 1 - a[i] : a[i]), "an assigned input is its own"); BinInput w(x.data()); w.set(at, 1); w.set(0, 1); CHECK(x.get(0) == 1 - a[0] , "an input rebuilt from text is its own");
  DataSet d; BinInput k(s); d.add(k, "l"); k.set(at, 1 - a[at]); CHECK(d.get(0).get(at) == a[at], "a data set keeps the input as it was added"); DataSet e(d); e.add(k, "m"); e.add(k); CHECK(d.size() == 1 && e.size() == 3 && d.getLabel(0) == "l" && e.getLabel(1) == "m" && e.getLabel(0) == "l", "a copy of a data set is its own"); d.add(z, "o"); CHECK(e.getLabel(1) == "m" && e.get(1).get(at) == 1 - a[at] && d.getLabel(1) == "o" && d.get(0).get(at) == a[at], "both keep their inputs"); d = e; d.add(z, "p"); CHECK(e.size() == 3 && d.size() == 4, "an assigned data set is its own");
  ram_t r; uint64_t ad = __sym_bv("address", 64); int v = (int)(int32_t)__sym_bv("value", 32), u = (int)(int32_t)__sym_bv("value", 32); r[ad] = v; RAMDataHandle h(r), g(h); g.set(0, ad, u); CHECK(h.get(0, ad) == v && g.get(0, ad) == u && r[ad] == v, "a copy of a handle is its own"); h = g; g.set(0, ad, v); CHECK(h.get(0, ad) == u, "an assigned handle is its own"); ram_t t = h.get(0); t[ad] = 3; CHECK(h.get(0, ad) == u, "cells taken out of a handle are a copy"); REACH("data");
}
ENTRY(e_returned) {    // what a model returned or was given does not stay connected to it
  sym_rand_mode(-8); Shape s = shape((int)PARAM("shape", 20)); nl::json o = opt(s); VI x = sym_image("train", s.entry, s.base), y = sym_image("train", s.entry, s.base), q = sym_image("query", s.entry, s.base); int as = (int)s.map[0].size();
  Wisard w(as, o); VVI im{x, y}; VS lb{"a", "b"}; w.train(im, lb); im[0] = y; im[1][0] = 0; lb[0] = "b"; auto mi = w.getMentalImages(); mi["a"][0] += 5; mi["c"] = VI{1}; verify(w, s, VVI{x}, VVI{y}, q); VS r = w.classify(VVI{q}); r[0] = "z"; verify(w, s, VVI{x}, VVI{y}, q); o["mapping"]["a"] = VVI{{0, 0}}; o["base"] = 7; verify(w, s, VVI{x}, VVI{y}, q); w.train(VVI{q}, VS{"a"}); verify(w, s, VVI{x, q}, VVI{y}, q); REACH("returned");
}
