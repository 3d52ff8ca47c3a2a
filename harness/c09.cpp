// C09: a discriminator saved as JSON text and loaded again is the same discriminator.
#include "model.h"
static void alike(Discriminator& d, Discriminator& e, const VI& q, const VI& more) {
  CHECK(e.getNumberOfTrainings() == d.getNumberOfTrainings() && e.getNumberOfRAMS() == d.getNumberOfRAMS(), "training counter and number of RAMs");
  CHECK(d.getConfigJSON() == e.getConfigJSON(), "entry size and mapping");
  CHECK(same(d.classify(q), e.classify(q)), "same votes");
  CHECK(same(d.getMentalImage(), e.getMentalImage()), "same mental image");
  CHECK(d.jsonConfig() == e.jsonConfig(), "same settings");
  d.train(more); e.train(more); CHECK(same(d.classify(q), e.classify(q)) && e.getNumberOfTrainings() == d.getNumberOfTrainings(), "same votes after further training");
  d.untrain(q); e.untrain(q); CHECK(same(d.classify(q), e.classify(q)) && e.getNumberOfTrainings() == d.getNumberOfTrainings(), "same votes after untraining");
}
ENTRY(e_saved) {       // n symbolic images, any query
  Shape s = shape((int)PARAM("shape", 0)); int n = (int)PARAM("n", 1); bool iz = PARAM("ignoreZero", 0);
  Discriminator d(s.map, s.entry, iz, s.base); VVI all = sym_images("train", n, s); for (auto& a : all) d.train(a);
  if (PARAM("untrain", 0)) d.untrain(all[0]);
  VI q = sym_image("query", s.entry, s.base); std::string text = d.json(); Discriminator e(text);
  CHECK(same(e.classify(q), ref_votes(PARAM("untrain", 0) ? VVI(all.begin() + 1, all.end()) : all, q, s.map, iz)), "votes of the trained images after loading");
  alike(d, e, q, VI(s.entry, 1)); obs("vote", e.classify(q)); REACH("saved");
}
ENTRY(e_cells) {       // any 64-bit address and any counter, entered as RAM data
  bool iz = PARAM("ignoreZero", 0); Shape s = shape(6); s.entry = 65; s.map[0].resize(64);
  uint64_t addr = __sym_bv("address", 64); int value = (int)(int32_t)__sym_bv("value", 32); ram_t r; r[addr] = value; RAMDataHandle h(r);
  nl::json c = {{"entrySize", s.entry}, {"mapping", s.map}, {"count", 7}, {"ignoreZero", iz}, {"base", 2}, {"data", h.data(0)}};
  Discriminator d(c.dump()); VI q = sym_image("query", s.entry, 2); bool eq = true; uint64_t qa = 0; for (int i = 0; i < 64; i++) qa |= (uint64_t)q[s.map[0][i]] << i; eq = qa == addr;
  int want = sel(eq, value, 0); if (iz) want = sel(qa == 0, 0, want);
  CHECK(d.classify(q)[0] == want, "loaded cell"); Discriminator e(d.json()); CHECK(e.classify(q)[0] == want, "loaded cell after saving again");
  CHECK(e.getNumberOfTrainings() == 7, "counter"); CHECK(same(d.getMentalImage(), e.getMentalImage()), "same mental image"); OBS("vote", e.classify(q)[0]); REACH("cells");
}
ENTRY(e_several) {     // several cells per RAM with any counters
  int n = (int)PARAM("n", 2); ram_t r[2]; std::string data; int v[2][4]; for (int k = 0; k < 2; k++) { for (int i = 0; i < n; i++) { v[k][i] = (int)(int32_t)__sym_bv("value", 32); r[k][(addr_t)(i * 3 % 4)] = v[k][i]; } RAMDataHandle h(r[k]); data += (k ? "." : "") + h.data(0); }
  nl::json c = {{"entrySize", 4}, {"mapping", VVI{{0, 1}, {2, 3}}}, {"count", n}, {"ignoreZero", false}, {"base", 2}, {"data", data}};
  Discriminator d(c.dump()), e(d.json()), f(e.json());
  for (int a = 0; a < 4; a++) { int i = 0; int w[2] = {0, 0}; for (int k = 0; k < n; k++) if (k * 3 % 4 == a) { w[0] = v[0][k]; w[1] = v[1][k]; }
    VI q = {a & 1, a >> 1, a & 1, a >> 1}; VI x = f.classify(q); CHECK(x[0] == w[0] && x[1] == w[1], "cells after saving twice"); (void)i; }
  REACH("several");
}
ENTRY(e_untrained) {   // nothing trained yet
  Shape s = shape((int)PARAM("shape", 0)); bool iz = PARAM("ignoreZero", 0); Discriminator d(s.map, s.entry, iz, s.base), e(d.json()); VI q = sym_image("query", s.entry, s.base), t = sym_image("train", s.entry, s.base);
  CHECK(same(e.classify(q), VI(s.map.size(), 0)), "no votes"); alike(d, e, q, t); REACH("untrained");
}
ENTRY(e_random) {      // a random mapping, partial or complete
  sym_rand_mode(1); int as = (int)PARAM("as", 3), es = (int)PARAM("es", 7); Discriminator d(as, es, false, (bool)PARAM("complete", 1), 2); VI a = sym_image("train", es, 2), q = sym_image("query", es, 2); d.train(a); Discriminator e(d.json()); alike(d, e, q, VI(es, 0)); REACH("random");
}
ENTRY(e_many) {        // tables with many cells
  int bits = (int)PARAM("bits", 6); VVI map(1); for (int i = 0; i < bits; i++) map[0].push_back(i); map.push_back(VI{1, 0});
  Discriminator d(map, bits, false, 2); for (int k = 0; k < (1 << bits); k += 3) { VI a(bits); for (int i = 0; i < bits; i++) a[i] = k >> i & 1; d.train(a); if (k % 2) d.train(a); }
  Discriminator e(d.json()); VI q = sym_image("query", bits, 2); CHECK(same(d.classify(q), e.classify(q)), "same votes"); CHECK(same(d.getMentalImage(), e.getMentalImage()), "same mental image"); CHECK(d.getNumberOfTrainings() == e.getNumberOfTrainings(), "counter"); REACH("many");
}
