// C15: malformed serialized data never corrupts memory. Every access of the code is checked by the executor.
#include "model.h"
static std::string any(int n, const char* name = "char") { std::string s; for (int i = 0; i < n; i++) s += (char)__sym_bv(name, 8); return s; }
// any text, one execution per way it ends ("=" in the last place but one, only in the last one, in neither)
static std::string text(int n) { std::string s = any(n); if (n < 2) return s; int e = (int)sym_pick("ending", 0, 2); if (e == 2) s[n - 2] = '='; else { ASSUME(s[n - 2] != '='); if (e == 1) s[n - 1] = '='; else ASSUME(s[n - 1] != '='); } return s; }
ENTRY(e_decode) { int n = (int)PARAM("n", 4); std::string s = any(n); bool ok = true; try { std::string r = Base64::decode(s); CHECK(r.size() <= (size_t)(3 * (n / 4)), "length"); for (size_t i = 0; i < r.size(); i++) OBS("byte", (unsigned char)r[i]); } catch (std::exception&) { ok = false; } if (n % 4 == 0) CHECK(ok || n, "empty text"); REACH("decode"); }
static void use(BinInput& b) {
  index_size_t n = b.size(); for (index_size_t i = 0; i < n && i < 64; i++) { int x = b.get(i); CHECK(x == 0 || x == 1, "a bit"); } CHECK(THROWS_LIB(b.get(n)), "size is out of range"); CHECK(THROWS_LIB(b.set(n, 1)), "size is out of range");
  CHECK(n < 4096, "size fits the text"); if (n) { b.set(n - 1, 1); CHECK(b[n - 1] == 1, "last bit"); b.set(0, 0); } BinInput c(b.data()); CHECK(c.size() == n, "rebuilt"); DataSet d; d.add(b, "l"); CHECK(d[0].size() == n, "stored");
}
static void touch(BinInput& b) {     // any place, also past the end
  uint64_t i = __sym_bv("index", 64); bool in = i < b.size(); CHECK(b.size() < 4096, "size fits the text"); int x = 0; bool t = THROWS_LIB(x = b.get(i)); CHECK(t == !in, "exactly the places past the size are refused"); CHECK(x == 0 || x == 1, "a bit"); CHECK(THROWS_LIB(b[i]) == !in && THROWS_LIB(b.set(i, 1)) == !in, "exactly the places past the size are refused"); if (in) CHECK(b.get(i) == 1, "the bit that was set");
}
ENTRY(e_bininput) { int n = (int)PARAM("n", 4); bool good = true; try { BinInput b(text(n)); touch(b); } catch (std::exception&) { good = false; } REACH("bininput"); if (good) REACH("accepted"); }
ENTRY(e_bininput_bytes) { // coded text of any bytes
  int n = (int)PARAM("n", 3); try { std::string t = any(n); if (n) t[0] = (char)sym_pick("first", 0, 255); BinInput b(Base64::encode(t)); use(b); REACH("accepted"); } catch (std::exception&) { REACH("refused"); } }
static void use(RAMDataHandle& h) { h.get(0); h.get(1, 5); h.set(0, 3, 4); CHECK(h.get(0, 3) == 4, "set"); RAMDataHandle g(h.data()); h.compare(g); CHECK(g.get(0, 3) == 4, "rebuilt"); h.data(0); h.data(9); }
ENTRY(e_ramdata) { int n = (int)PARAM("n", 4); try { RAMDataHandle h(text(n)); use(h); } catch (std::exception&) { REACH("refused"); } REACH("ramdata"); }
ENTRY(e_ramdata_bytes) { // coded text of any number of bytes, cut or not
  int n = (int)PARAM("n", 11), cut = (int)PARAM("cut", 0); std::string t = Base64::encode(any(n)); t.resize(t.size() > (size_t)cut ? t.size() - cut : 0); try { RAMDataHandle h(t); use(h); } catch (std::exception&) { } REACH("bytes"); }
ENTRY(e_pool) {        // longer texts over a few characters that matter
  int n = (int)PARAM("n", 8), what = (int)PARAM("what", 0); std::string s; for (int i = 0; i < n; i++) { static const char P[] = {'A', '=', '.', '!'}; s += P[sym_int("pool", 0, 3)]; } std::string fill((size_t)PARAM("fill", 0), 'Q');
  try { s = fill + s; if (what == 0) Base64::decode(s); if (what == 1) { BinInput b(s); use(b); } if (what == 2) { RAMDataHandle h(s); use(h); } } catch (std::exception&) { REACH("refused"); } REACH("pool"); }
ENTRY(e_model) {       // a model whose RAM data is any text
  int n = (int)PARAM("n", 3); nl::json c = {{"entrySize", 4}, {"mapping", VVI{{0, 1}, {2, 3}}}, {"count", 1}, {"ignoreZero", false}, {"base", 2}}; c["data"] = any(n);
  try { Discriminator d(c); VI v = d.classify(VI{1, 0, 1, 0}); CHECK(v.size() == 2, "a vote per RAM"); d.train(VI{1, 0, 1, 0}); d.getMentalImage(); d.untrain(VI{1, 0, 1, 0}); d.json(); d.getsizeof(); } catch (std::exception&) { REACH("refused"); } REACH("model"); }
ENTRY(e_cell) {        // a model with any cell, also addresses outside its address space
  int m = (int)PARAM("m", 2), base = (int)PARAM("base", 2); ram_t r; r[__sym_bv("address", 64)] = (int)(int32_t)__sym_bv("value", 32); RAMDataHandle h(r); VI row; for (int i = 0; i < m; i++) row.push_back(i % 2);
  nl::json c = {{"entrySize", 2}, {"mapping", VVI{row}}, {"count", 1}, {"ignoreZero", false}, {"base", base}, {"data", h.data(0)}};
  Discriminator d(c); VI im = d.getMentalImage(); CHECK(im.size() == 2, "mental image"); d.classify(VI{1, 0}); d.train(VI{1, 1}); Discriminator e(d.json()); e.getMentalImage(); REACH("cell"); }
ENTRY(e_file) {        // a data set file of any text
  int n = (int)PARAM("n", 3); std::string s = any(n); { std::ofstream o; o.open("x.wpkds"); o << s; o.close(); } try { DataSet d("x.wpkds"); for (size_t i = 0; i < d.size(); i++) { BinInput b = d[i]; touch(b); } REACH("read"); } catch (std::exception&) { REACH("refused"); } REACH("file"); }
ENTRY(e_file_pool) {
  int n = (int)PARAM("n", 7); std::string s; for (int i = 0; i < n; i++) { static const char P[] = {'A', '=', '.', '#'}; s += P[sym_int("pool", 0, 3)]; } { std::ofstream o; o.open("x.wpkds"); o << s; o.close(); }
  try { DataSet d("x.wpkds"); for (size_t i = 0; i < d.size(); i++) { BinInput b = d[i]; touch(b); } REACH("read"); } catch (std::exception&) { REACH("refused"); } REACH("file pool"); }
ENTRY(e_ram_file) {    // RAM data in a file of any text, through a handle and through a model
  int n = (int)PARAM("n", 3); std::string s = any(n); { std::ofstream o; o.open("r.wdpkg"); o << s; o.close(); }
  try { RAMDataHandle h("r.wdpkg"); use(h); } catch (std::exception&) {}
  nl::json c = {{"entrySize", 4}, {"mapping", VVI{{0, 1}, {2, 3}}}, {"count", 1}, {"ignoreZero", false}, {"base", 2}, {"data", "r.wdpkg"}}; try { Discriminator d(c); d.classify(VI{1, 0, 1, 0}); d.train(VI{1, 0, 1, 0}); d.getMentalImage(); d.json(); } catch (std::exception&) {} REACH("ram file"); }
