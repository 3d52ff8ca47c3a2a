// C14: RAMDataHandle reads, edits and rewrites RAM contents exactly.
#include "model.h"
struct Cell { uint64_t a; int v; };
typedef std::vector<Cell> Cells;       // later entries of the same address replace earlier ones
static Cells cells(int n) { Cells c; for (int i = 0; i < n; i++) c.push_back({__sym_bv("address", 64), (int)(int32_t)__sym_bv("value", 32)}); return c; }
static int at(const Cells& c, uint64_t a) { int r = 0; for (auto& x : c) r = sel(x.a == a, x.v, r); return r; }
static bool has(const Cells& c, uint64_t a) { bool r = false; for (auto& x : c) r = r | (x.a == a); return r; }
static bool equal(const Cells& c, const Cells& d) { bool r = true; for (auto& x : c) r = r & has(d, x.a) & (at(c, x.a) == at(d, x.a)); for (auto& x : d) r = r & has(c, x.a) & (at(c, x.a) == at(d, x.a)); return r; }
static ram_t ram(const Cells& c) { ram_t r; for (auto& x : c) r[x.a] = x.v; return r; }
static bool holds(ram_t r, const Cells& c) { size_t n = 0; for (size_t i = 0; i < c.size(); i++) { bool first = true; for (size_t j = 0; j < i; j++) first = first & (c[j].a != c[i].a); n += first ? 1 : 0; } if (r.size() != n) return false; bool ok = true; for (auto& p : r) ok = ok & has(c, p.first) & (at(c, p.first) == p.second); return ok; }
static std::string text(const std::vector<Cells>& v) { std::string s; for (size_t i = 0; i < v.size(); i++) { RAMDataHandle h(ram(v[i])); s += (i ? "." : "") + h.data(0); } return s; }
static void verify(RAMDataHandle& h, const std::vector<Cells>& v, uint64_t q) { for (size_t i = 0; i < v.size(); i++) { CHECK(holds(h.get((int)i), v[i]), "cells of a RAM"); CHECK(h.get((int)i, q) == at(v[i], q), "value of any address"); } CHECK(h.get((int)v.size(), q) == 0 && h.get((int)v.size()).empty(), "no further RAM"); }
static std::vector<Cells> rams() { static const int K[6][3] = {{2, -1, -1}, {1, 1, -1}, {0, 2, -1}, {1, 0, 1}, {3, -1, -1}, {0, -1, -1}}; int p = (int)PARAM("pattern", 0); std::vector<Cells> v; for (int i = 0; i < 3; i++) if (K[p][i] >= 0) v.push_back(cells(K[p][i])); return v; }
ENTRY(e_load) {        // from saved data: any addresses and values
  std::vector<Cells> v = rams(); std::string t = text(v); RAMDataHandle h(t); uint64_t q = __sym_bv("query", 64); verify(h, v, q); RAMDataHandle g(h.data()); verify(g, v, q); CHECK(h.compare(g) && g.compare(h), "equal to its reload"); OBS("value", h.get(0, q)); REACH("load");
}
ENTRY(e_set) {         // set and get, before and after a reload
  std::vector<Cells> v = rams(); RAMDataHandle h(text(v)), before(text(v)); int r = (int)sym_pick("ram", 0, (int)v.size()); uint64_t a = __sym_bv("setaddress", 64), q = __sym_bv("query", 64); int x = (int)(int32_t)__sym_bv("setvalue", 32);
  h.get(7, q); h.get(r, a); h.set(r, a, x); if (r == (int)v.size()) v.push_back(Cells()); v[r].push_back({a, x}); verify(h, v, q); CHECK(h.get(r, a) == x, "the value set");
  RAMDataHandle g(h.data()); verify(g, v, q); CHECK(g.compare(h) && h.compare(g), "equal to its reload");
  bool eq = h.compare(before); CHECK(eq == before.compare(h), "comparison is symmetric"); int y = (int)(int32_t)__sym_bv("setvalue", 32); g.set(r, a, y); CHECK(g.compare(h) == (x == y), "comparison sees the change of one value"); REACH("set");
}
ENTRY(e_compare) {     // two RAMs of any cells
  int n = (int)PARAM("n", 2), m = (int)PARAM("m", 2); Cells c = cells(n), d = cells(m); RAMDataHandle a(ram(c)), b(ram(d)); bool want = equal(c, d); CHECK(a.compare(b) == want, "true exactly when both hold the same cells"); CHECK(b.compare(a) == want, "symmetric"); OBS("equal", want); REACH("compare"); if (want) REACH("same"); else REACH("different");
}
ENTRY(e_compare_rams) { // several RAMs
  int how = (int)PARAM("how", 0); std::vector<Cells> v = {cells(1), cells(1)}, w = v; if (how == 1) w[1] = cells(1); if (how == 2) w.push_back(Cells()); if (how == 3) { w[0] = v[1]; w[1] = v[0]; } if (how == 4) w.pop_back(); if (how == 5) w[1].clear();
  RAMDataHandle a(text(v)), b(text(w)); bool want = v.size() == w.size(); for (size_t i = 0; i < v.size() && i < w.size(); i++) want = want & equal(v[i], w[i]); CHECK(a.compare(b) == want && b.compare(a) == want, "true exactly when all RAMs hold the same cells"); REACH("compare rams");
}
ENTRY(e_file) {        // saved to a file
  std::vector<Cells> v = rams(); RAMDataHandle h(text(v)); h.save("data"); RAMDataHandle g("data" + ramdata_sufix); uint64_t q = __sym_bv("query", 64); verify(g, v, q); CHECK(g.compare(h), "equal to the saved one"); g.set(0, 1, 2); g.save("data"); RAMDataHandle k("data.wdpkg"); CHECK(k.compare(g), "saved again"); CHECK(k.get(0, 1) == 2, "the edited value"); REACH("file");
}
ENTRY(e_model) {       // editing the data of a trained model
  Shape s = shape((int)PARAM("shape", 0)); Discriminator d(s.map, s.entry, false, s.base); VI a = sym_image("train", s.entry, s.base), q = sym_image("query", s.entry, s.base); d.train(a); nl::json j = nl::json::parse(d.json()); RAMDataHandle h(j["data"].get<std::string>());
  VI v = d.classify(q); for (size_t r = 0; r < s.map.size(); r++) { addr_t x = 0, p = 1; for (int k : s.map[r]) { x += p * (addr_t)q[k]; p *= (addr_t)s.base; } CHECK(h.get((int)r, x) == v[r], "the vote is the cell of the address"); h.set((int)r, x, 9); }
  j["data"] = h.data(); Discriminator e(j); CHECK(same(e.classify(q), VI(s.map.size(), 9)), "the edited cells"); REACH("model");
}
