// C02: votes count the trained images that agree on the addressed positions, however they are fed.
#include "model.h"
static void verify(Discriminator& d, const Shape& s, const VVI& all, const VI& q, bool iz) {
  VI v = d.classify(q), w = ref_votes(all, q, s.map, iz);
  CHECK(v.size() == w.size(), "one vote per RAM");
  for (size_t r = 0; r < w.size(); r++) CHECK(v[r] == w[r], "vote is the number of trained images that agree on the addressed positions");
  CHECK(d.getNumberOfTrainings() == (int)all.size(), "number of trainings");
  obs("vote", v);
}
ENTRY(e_count) {       // images one by one
  Shape s = shape((int)PARAM("shape", 0)); int n = (int)PARAM("n", 3); bool iz = PARAM("ignoreZero", 0);
  Discriminator d(s.map, s.entry, iz, s.base); VVI all = sym_images("train", n, s);
  for (int i = 0; i < n; i++) d.train(all[i]);
  VI q = sym_image("query", s.entry, s.base); verify(d, s, all, q, iz); REACH("count");
}
ENTRY(e_batch) {       // the same images as a batch, split batches, packed, and in another order
  Shape s = shape((int)PARAM("shape", 0)); int n = (int)PARAM("n", 3); bool iz = PARAM("ignoreZero", 0);
  VVI all = sym_images("train", n, s); VI q = sym_image("query", s.entry, s.base);
  { Discriminator d(s.map, s.entry, iz, s.base); d.train(all); verify(d, s, all, q, iz); }
  { Discriminator d(s.map, s.entry, iz, s.base); d.train(VVI(all.begin() + 1, all.end())); d.train(VVI()); d.train(all[0]); verify(d, s, all, q, iz); }
  { Discriminator d(s.map, s.entry, iz, s.base); for (int i = n; i--;) { d.train(all[i]); } verify(d, s, all, q, iz); }
  if (s.base == 2) { Discriminator d(s.map, s.entry, iz, s.base); for (int i = 0; i < n; i++) { if (i % 2) d.train(all[i]); else d.train(pack(all[i])); }
    verify(d, s, all, q, iz); VI v = d.classify(pack(q)), w = d.classify(q); CHECK(same(v, w), "packed query"); }
  REACH("batch");
}
ENTRY(e_many) {        // long histories: the same image many times, others in between
  Shape s = shape((int)PARAM("shape", 0)); int n = (int)PARAM("n", 300); bool iz = PARAM("ignoreZero", 0);
  Discriminator d(s.map, s.entry, iz, s.base); VI a(s.entry); for (int i = 0; i < s.entry; i++) a[i] = (i * 7 + 1) % s.base;
  VI b = sym_image("train", s.entry, s.base), q = sym_image("query", s.entry, s.base);
  for (int i = 0; i < n; i++) { if (i == n / 2) d.train(b); d.train(a); }
  VI v = d.classify(q);
  for (size_t r = 0; r < s.map.size(); r++) {
    int want = n * (agree(a, q, s.map[r]) ? 1 : 0) + (agree(b, q, s.map[r]) ? 1 : 0); if (iz) want = zero_at(q, s.map[r]) ? 0 : want;
    CHECK(v[r] == want, "vote after many trainings");
  }
  CHECK(d.getNumberOfTrainings() == n + 1, "number of trainings"); obs("vote", v); REACH("many");
}
ENTRY(e_cells) {       // many different images: tables with many cells stay exact
  int bits = (int)PARAM("bits", 6); VVI map(1); for (int i = 0; i < bits; i++) map[0].push_back(i);
  Discriminator d(map, bits, false, 2); int n = 1 << bits;
  for (int k = 0; k < n; k += 1) { VI a(bits); for (int i = 0; i < bits; i++) a[i] = (k * 5 >> i) & 1; for (int t = 0; t <= k % 3; t++) d.train(a); }
  VI q = sym_image("query", bits, 2); int v = d.classify(q)[0];
  int want = 0; for (int k = 0; k < n; k++) { bool eq = true; for (int i = 0; i < bits; i++) eq = eq & (q[i] == ((k * 5 >> i) & 1)); want += eq ? k % 3 + 1 : 0; }
  CHECK(v == want, "vote in a large table"); OBS("vote", v); REACH("cells");
}
