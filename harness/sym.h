// Interface of the check harnesses: symbolic inputs, assumptions, assertions, observations.
// The same source is executed symbolically (LLVM IR) and natively (replay of a concrete vector).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
  uint64_t __sym_bv(const char* name, unsigned width);   // a fresh unconstrained bit-vector input
  uint64_t __sym_bvr(const char* name, unsigned width, uint64_t max);   // the same with a largest value
  int64_t __sym_param(const char* name, int64_t def);    // bound of this run, fixed from outside
  void __sym_assume(bool);
  void __sym_check(bool, const char* msg);
  void __sym_reach(const char* msg);                     // must be reached on some path (vacuity guard)
  void __sym_observe(const char* name, uint64_t v);      // compared between the symbolic and the native run
  uint64_t __sym_concretize(uint64_t);                   // case split on the value
  bool __sym_symbolic();
  void sym_rand_mode(int mode);                          // 0: every rand() is a fresh input; 1: fixed sequence; m > 1: fresh inputs below m, m < 0: always -1-m
}
static inline int64_t sym_int(const char* n, int64_t lo, int64_t hi) {
  uint64_t span = (uint64_t)hi - (uint64_t)lo; unsigned w = 1; while (w < 64 && (span >> w)) w++;
  uint64_t v = __sym_bvr(n, w, span);
  return (int64_t)((uint64_t)lo + v);
}
static inline int64_t sym_pick(const char* n, int64_t lo, int64_t hi) {          // one execution per value
  int64_t v = sym_int(n, lo, hi); return lo + (int64_t)__sym_concretize((uint64_t)(v - lo));
}
static inline bool sym_bool(const char* n) { return __sym_bv(n, 1) & 1; }
static inline double sym_double(const char* n) { uint64_t b = __sym_bv(n, 64); double d; __builtin_memcpy(&d, &b, 8); return d; }
static inline float sym_float(const char* n) { uint32_t b = (uint32_t)__sym_bv(n, 32); float d; __builtin_memcpy(&d, &b, 4); return d; }
#define ASSUME(c) __sym_assume(c)
#define CHECK(c, m) __sym_check((c), m)
#define REACH(m) __sym_reach(m)
#define OBS(n, v) __sym_observe(n, (uint64_t)(v))
#define PARAM(n, d) __sym_param(n, d)
#define ENTRY(f) extern "C" void f()
