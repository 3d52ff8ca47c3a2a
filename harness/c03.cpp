// C03: leaving an image out restores what the model would be without it.
#include "model.h"
ENTRY(e_untrain) {     // n images, any subset of them left out afterwards or while training goes on
  Shape s = shape((int)PARAM("shape", 0)); int n = (int)PARAM("n", 3), mask = (int)PARAM("mask", 1), inter = (int)PARAM("interleave", 0); bool iz = PARAM("ignoreZero", 0);
  VVI all = sym_images("train", n, s), rest; VI q = sym_image("query", s.entry, s.base);
  Discriminator d(s.map, s.entry, iz, s.base);
  for (int i = 0; i < n; i++) { d.train(all[i]); if (inter && (mask >> i & 1)) d.untrain(all[i]); if (!(mask >> i & 1)) rest.push_back(all[i]); }
  if (!inter) for (int i = n; i--;) if (mask >> i & 1) d.untrain(all[i]);
  VI v = d.classify(q), w = ref_votes(rest, q, s.map, iz);
  CHECK(same(v, w), "votes as if the image had never been trained");
  CHECK(d.getNumberOfTrainings() == (int)rest.size(), "training counter as if the image had never been trained");
  CHECK(same(d.getMentalImage(), ref_mental(rest, s.map, s.entry)), "mental image as if the image had never been trained");
  d.train(q); VVI more = rest; more.push_back(q);
  CHECK(same(d.classify(all[0]), ref_votes(more, all[0], s.map, iz)), "later training as if the image had never been trained");
  obs("vote", v); REACH("untrain");
}
struct W : Wisard { using Wisard::Wisard; using Wisard::discriminators; };
static const char* L[] = {"a", "b", "", "a::0"};
ENTRY(e_wisard) {      // leaveOneOut / leaveMoreOut on a Wisard with two classes and a label that was never trained
  Shape s = shape((int)PARAM("shape", 20)); bool more = PARAM("more", 0); bool iz = PARAM("ignoreZero", 0);
  std::map<std::string, VVI> mp; for (int i = 0; i < 2; i++) mp[L[i]] = s.map;
  nl::json cfg = {{"mapping", mp}, {"ignoreZero", iz}, {"base", s.base}, {"bleachingActivated", true}};
  W w((int)s.map[0].size(), cfg);
  VVI im = sym_images("train", 4, s); VS lb = {L[0], L[1], L[0], L[1]};
  w.train(im, lb);
  int out = (int)PARAM("out", 2); VI q = sym_image("query", s.entry, s.base); VVI ra, rb;
  for (int i = 0; i < 4; i++) if (i != out) (i % 2 ? rb : ra).push_back(im[i]);
  if (more) w.leaveMoreOut(VVI{q, im[out]}, VS{"never", lb[out]}); else { w.leaveOneOut(q, "never"); w.leaveOneOut(im[out], lb[out]); }
  auto mi = w.getMentalImages();
  CHECK(mi.size() == 2 && mi.count(L[0]) && mi.count(L[1]), "no class appears or disappears");
  CHECK(same(mi[L[0]], ref_mental(ra, s.map, s.entry)) && same(mi[L[1]], ref_mental(rb, s.map, s.entry)), "mental images of both classes as if the image had never been trained");
  CHECK(same(w.discriminators[L[0]].classify(q), ref_votes(ra, q, s.map, iz)) && same(w.discriminators[L[1]].classify(q), ref_votes(rb, q, s.map, iz)), "votes of both classes as if the image had never been trained");
  CHECK(w.discriminators[L[0]].getNumberOfTrainings() == (int)ra.size() && w.discriminators[L[1]].getNumberOfTrainings() == (int)rb.size(), "training counters of both classes");
  REACH("wisard");
}
ENTRY(e_batch) {       // one leaveMoreOut call with repeated pairs, several labels, also images trained more than once
  Shape s = shape((int)PARAM("shape", 16)); bool iz = PARAM("ignoreZero", 0); std::map<std::string, VVI> mp; for (int i = 0; i < 2; i++) mp[L[i]] = s.map; W w((int)s.map[0].size(), nl::json{{"mapping", mp}, {"ignoreZero", iz}, {"base", s.base}}); VI x = sym_image("train", s.entry, s.base), y = sym_image("train", s.entry, s.base), q = sym_image("query", s.entry, s.base); int times = (int)PARAM("times", 3), out = (int)PARAM("out", 2);
  for (int i = 0; i < times; i++) w.train(VVI{x, x, y}, VS{L[0], L[1], L[0]}); VVI im; VS lb; int order = (int)PARAM("order", 0); for (int i = 0; i < out; i++) { im.push_back(x); lb.push_back(L[0]); if (order == 1) { im.push_back(x); lb.push_back(L[1]); } } if (order == 2) { im.push_back(y); lb.push_back(L[0]); im.push_back(x); lb.push_back(L[0]); im.push_back(q); lb.push_back("never"); } w.leaveMoreOut(im, lb);
  int xa = times - out - (order == 2), xb = times - (order == 1 ? out : 0), ya = times - (order == 2); VVI ra, rb; for (int i = 0; i < xa; i++) ra.push_back(x); for (int i = 0; i < ya; i++) ra.push_back(y); for (int i = 0; i < xb; i++) rb.push_back(x);
  CHECK(w.discriminators.size() == 2, "no class appears or disappears"); CHECK(same(w.discriminators[L[0]].classify(q), ref_votes(ra, q, s.map, iz)) && same(w.discriminators[L[1]].classify(q), ref_votes(rb, q, s.map, iz)), "votes as if the images had never been trained"); CHECK(w.discriminators[L[0]].getNumberOfTrainings() == (int)ra.size() && w.discriminators[L[1]].getNumberOfTrainings() == (int)rb.size(), "training counters"); auto mi = w.getMentalImages(); CHECK(same(mi[L[0]], ref_mental(ra, s.map, s.entry)) && same(mi[L[1]], ref_mental(rb, s.map, s.entry)), "mental images"); REACH("batch");
}
ENTRY(e_often) {       // images trained very often, left out several times
  Shape s = shape((int)PARAM("shape", 0)); int n = (int)PARAM("n", 300), out = (int)PARAM("out", 260); Discriminator d(s.map, s.entry, false, s.base); VI a(s.entry), b = sym_image("train", s.entry, s.base), q = sym_image("query", s.entry, s.base); for (int i = 0; i < s.entry; i++) a[i] = (i * 5 + 1) % s.base; for (int i = 0; i < n; i++) d.train(a); d.train(b); for (int i = 0; i < out; i++) d.untrain(a); VI v = d.classify(q); for (size_t r = 0; r < s.map.size(); r++) CHECK(v[r] == (n - out) * (agree(a, q, s.map[r]) ? 1 : 0) + (agree(b, q, s.map[r]) ? 1 : 0), "votes of what is left"); CHECK(d.getNumberOfTrainings() == n - out + 1, "training counter"); REACH("often");
}
