// C12: BinInput is a faithful fixed-size bit array.
#include "model.h"
static std::vector<short> bits(int n) { std::vector<short> v(n); for (int i = 0; i < n; i++) v[i] = (short)sym_int("bit", 0, 1); return v; }
static bool is(const BinInput& b, const std::vector<short>& v) { if (b.size() != v.size()) return false; bool r = true; for (size_t i = 0; i < v.size(); i++) r = r & (b.get(i) == v[i]) & (b[i] == v[i]); return r; }
ENTRY(e_list) {        // any list of n bits; one bit set; any index; its text
  int n = (int)PARAM("n", 9); std::vector<short> v = bits(n); BinInput b(v); CHECK(b.size() == (index_size_t)n, "size"); CHECK(is(b, v), "bits of the list");
  uint64_t past = __sym_bv("index", 64); ASSUME(past >= (uint64_t)n);
  CHECK(THROWS_LIB(b.get(past)), "reading past the size is rejected"); CHECK(THROWS_LIB(b[past]), "indexing past the size is rejected"); CHECK(THROWS_LIB(b.set(past, 1)), "setting past the size is rejected"); CHECK(is(b, v), "rejected accesses change nothing");
  BinInput c(b.data()); CHECK(is(c, v), "rebuilt from its text"); CHECK(c.data() == b.data(), "text of the rebuilt one");
  if (n) { uint64_t i = (uint64_t)sym_int("position", 0, n - 1); int x = (int)sym_int("value", 0, 1); b.set(i, x); for (int k = 0; k < n; k++) v[k] = (short)sel((uint64_t)k == i, x, v[k]); CHECK(is(b, v), "setting one bit changes only that bit"); CHECK(b.get(i) == x, "the bit that was set");
    BinInput d(b.data()); CHECK(is(d, v), "rebuilt after setting"); CHECK(is(c, v) == (c.get(i) == x), "copies are independent"); OBS("bit", b.get(i)); }
  REACH("list");
}
ENTRY(e_ops) {         // a sequence of symbolic settings
  int n = (int)PARAM("n", 10), m = (int)PARAM("m", 3); BinInput b((index_size_t)n); std::vector<short> v(n, 0); CHECK(is(b, v), "all zero at first");
  for (int k = 0; k < m; k++) { int i = (int)sym_int("position", 0, n - 1), x = (int)sym_int("value", 0, 1); b.set(i, x); for (int j = 0; j < n; j++) v[j] = (short)sel(j == i, x, v[j]); }
  CHECK(is(b, v), "bits after several settings"); BinInput c(b.data()); CHECK(is(c, v), "rebuilt"); BinInput d(c); d.set(0, 1); CHECK(is(c, v), "a copy has its own bits"); REACH("ops");
}
ENTRY(e_large) {       // large sizes: bits around the ends and around byte borders
  uint64_t n = (uint64_t)PARAM("n", 524296); BinInput b((index_size_t)n); CHECK(b.size() == n, "size"); int k = (int)PARAM("window", 12); uint64_t at = (uint64_t)PARAM("at", -1); if (at == (uint64_t)-1) at = n - k;
  uint64_t i = at + (uint64_t)sym_int("position", 0, k - 1), j = at + (uint64_t)sym_int("other", 0, k - 1); b.set(i, 1); CHECK(b.get(i) == 1, "bit set"); CHECK(b.get(j) == (i == j ? 1 : 0), "no other bit changed"); CHECK(b.get(0) == (i == 0 ? 1 : 0), "first bit");
  CHECK(THROWS_LIB(b.get(n)), "size is out of range"); CHECK(THROWS_LIB(b.set(n, 1)), "size is out of range for set"); b.set(i, 0); CHECK(b.get(i) == 0 && b.get(j) == 0, "cleared"); REACH("large");
}
ENTRY(e_reload) {      // a large one from its text
  int n = (int)PARAM("n", 1000); std::vector<short> v(n); for (int i = 0; i < n; i++) v[i] = (i * 7 + i / 9) & 1; BinInput b(v); int i = (int)sym_int("position", 0, 15); b.set(n - 16 + i, 1); BinInput c(b.data()); CHECK(c.size() == b.size(), "size"); for (int k = 0; k < n; k++) CHECK(b.get(k) == c.get(k), "bit"); REACH("reload");
}
