// C17: synthesized data follows the mental image.
#include "model.h"
static VI image(int n, int top) { VI m(n); for (int i = 0; i < n; i++) m[i] = (int)sym_int("intensity", 0, top); return m; }
ENTRY(e_make) {        // any mental image, any random numbers
  int n = (int)PARAM("n", 3), top = (int)PARAM("top", 3); sym_rand_mode((int)PARAM("rmode", 60)); VI m = image(n, top); int mx = 0; for (int x : m) mx = sel(x > mx, x, mx); mx = (int)__sym_concretize((uint64_t)mx); Synthesizer s(m);
  for (int k = 0; k < (int)PARAM("times", 2); k++) { VI v = s.make(); CHECK((int)v.size() == n, "one value per position"); for (int i = 0; i < n; i++) { CHECK((v[i] == 0) | (v[i] == 1), "0 or 1"); CHECK((m[i] != 0) | (v[i] == 0), "intensity 0 is never set"); CHECK((mx == 0) | (m[i] != mx) | (v[i] == 1), "maximal intensity is always set"); OBS("value", v[i]); } }
  REACH("make");
}
ENTRY(e_shares) {      // every draw once: a position is set in exactly intensity of the draws
  int n = (int)PARAM("n", 3), top = (int)PARAM("top", 4), shift = (int)PARAM("shift", 0); VI m = image(n, top); int mx = 0; for (int x : m) mx = sel(x > mx, x, mx); mx = (int)__sym_concretize((uint64_t)mx); sym_rand_mode(1); Synthesizer s(m); VI sum(n, 0);
  for (int k = 0; k < mx; k++) { sym_rand_mode(-1 - (k + shift * mx)); VI v = s.make(); for (int i = 0; i < n; i++) sum[i] += v[i]; }
  if (!mx) { sym_rand_mode(1); CHECK(same(s.make(), VI(n, 0)), "an all-zero mental image yields all zeros"); } else CHECK(same(sum, m), "set in exactly intensity of the draws"); REACH("shares"); if (!mx) REACH("all zero");
}
ENTRY(e_large) {       // large intensities and many positions
  int n = (int)PARAM("n", 20), top = (int)PARAM("top", 300); sym_rand_mode(1); VI m(n); for (int i = 0; i < n; i++) m[i] = (i * 37) % top; m[n / 2] = top; m[1] = 0; Synthesizer s(m); sym_rand_mode(top > 1000 ? 40 : top > 7 ? 4 * top : 60); VI v = s.make(); for (int i = 0; i < n; i++) { CHECK((v[i] == 0) | (v[i] == 1), "0 or 1"); CHECK(m[i] != 0 || v[i] == 0, "never set"); CHECK(m[i] != top || v[i] == 1, "always set"); } REACH("large");
}
ENTRY(e_trained) {     // from the mental image of a trained model
  Shape s = shape((int)PARAM("shape", 0)); Discriminator d(s.map, s.entry, false, s.base); VVI all = sym_images("train", 2, s); for (auto& a : all) d.train(a); VI m = d.getMentalImage(); sym_rand_mode(1); Synthesizer y(m); sym_rand_mode(12); VI v = y.make(); for (int i = 0; i < s.entry; i++) CHECK((m[i] != 0) | (v[i] == 0), "a position never active is never set"); REACH("trained");
}
ENTRY(e_empty) { sym_rand_mode(60); Synthesizer s((VI())); CHECK(s.make().empty(), "no positions"); Synthesizer t(VI(3, 0)); CHECK(same(t.make(), VI(3, 0)), "all zero"); REACH("empty"); }
