// C01: a RAM tells apart exactly the images that differ on the positions it addresses.
#include "model.h"
static void one(const Shape& s, const VI& a, const VI& q, bool iz) {
  Discriminator d(s.map, s.entry, iz, s.base);
  d.train(a);
  VI v = d.classify(q);
  CHECK(v.size() == s.map.size(), "one vote per RAM");
  for (size_t r = 0; r < s.map.size(); r++) {
    int want = agree(a, q, s.map[r]) ? 1 : 0; if (iz) want = zero_at(q, s.map[r]) ? 0 : want;
    CHECK(v[r] == want, "vote is 1 exactly for images that agree on the addressed positions");
  }
  obs("vote", v);
}
ENTRY(e_vote) {      // any trained image, any other image
  Shape s = shape((int)PARAM("shape", 0)); bool iz = PARAM("ignoreZero", 0);
  VI a = sym_image("train", s.entry, s.base), q = sym_image("query", s.entry, s.base);
  one(s, a, q, iz); REACH("vote");
}
ENTRY(e_near) {      // any trained image; another image that differs at up to two arbitrary places
  Shape s = shape((int)PARAM("shape", 0)); bool iz = PARAM("ignoreZero", 0); int nd = (int)PARAM("diffs", 1);
  VI a = sym_image("train", s.entry, s.base), q = a; int from = -1;
  for (int i = 0; i < nd; i++) { int p = (int)sym_pick("where", 0, s.entry - 1); ASSUME(p > from); from = p; q[p] = (int)sym_int("value", 0, s.base - 1); }
  one(s, a, q, iz); REACH("near");
}
ENTRY(e_packed) {    // the same for packed images
  Shape s = shape((int)PARAM("shape", 0)); bool iz = PARAM("ignoreZero", 0);
  VI a = sym_image("train", s.entry, 2), q = sym_image("query", s.entry, 2);
  Discriminator d(s.map, s.entry, iz, 2); d.train(pack(a)); VI v = d.classify(pack(q)); VI w = d.classify(q);
  for (size_t r = 0; r < s.map.size(); r++) { int want = agree(a, q, s.map[r]) ? 1 : 0; if (iz) want = zero_at(q, s.map[r]) ? 0 : want; CHECK(v[r] == want && w[r] == want, "vote of packed images"); }
  obs("vote", v); REACH("packed");
}
