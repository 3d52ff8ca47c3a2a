// C13: a DataSet survives saving to and loading from a file.
#include "model.h"
struct In { std::vector<short> bits; bool labelled; std::string label; };
static In one(int n, int len) { In r; for (int i = 0; i < n; i++) r.bits.push_back((short)sym_int("bit", 0, 1)); r.labelled = len > 0; for (int i = 0; i < len; i++) r.label += (char)__sym_bv("char", 8); return r; }
static void put(DataSet& d, const In& x, bool packed) { if (packed) { BinInput b(x.bits); if (x.labelled) d.add(b, x.label); else d.add(b); } else if (x.labelled) d.add(x.bits, x.label); else d.add(x.bits); }
static void verify(const DataSet& d, const std::vector<In>& v) {
  CHECK(d.size() == v.size(), "number of inputs");
  for (size_t i = 0; i < v.size(); i++) { CHECK(d[i].size() == v[i].bits.size() && d.get(i).size() == v[i].bits.size(), "size of an input"); bool ok = true; for (size_t j = 0; j < v[i].bits.size(); j++) ok = ok & (d[i].get(j) == v[i].bits[j]); CHECK(ok, "bits of an input");
    if (v[i].labelled) { std::string l = d.getLabel(i); CHECK(l.size() == v[i].label.size(), "length of a label"); bool same = true; for (size_t j = 0; j < l.size(); j++) same = same & (l[j] == v[i].label[j]); CHECK(same, "label"); if (l.size()) OBS("label", (unsigned char)l[0]); }
    else CHECK(THROWS_STD(d.getLabel(i)), "no label"); }
}
ENTRY(e_file) {        // k inputs; sizes and label lengths by pattern; any bits and any label bytes
  int k = (int)PARAM("k", 2), pat = (int)PARAM("pattern", 0); static const int N[6][4] = {{3, 8, 1, 4}, {0, 2, 0, 9}, {9, 4, 3, 2}, {2, 2, 2, 2}, {7, 0, 16, 1}, {5, 1, 3, 8}}; static const int L[6][4] = {{1, 0, 2, 1}, {2, 1, 0, 3}, {0, 4, 0, 1}, {3, 3, 3, 3}, {0, 0, 1, 0}, {5, 0, 6, 0}};
  std::vector<In> v; DataSet d; for (int i = 0; i < k; i++) { v.push_back(one(N[pat][i], L[pat][i])); put(d, v[i], (i + pat) & 1); } verify(d, v);
  d.save("file"); DataSet e("file" + dataset_sufix); verify(e, v); e.save("again"); DataSet f("again.wpkds"); verify(f, v);
  In more = one(2, 1); put(e, more, true); v.push_back(more); verify(e, v); e.save("file"); DataSet g("file.wpkds"); verify(g, v); REACH("file");
}
ENTRY(e_same_name) {   // saved again under the same name, with fewer inputs
  std::vector<In> v, w; DataSet d, e; for (int i = 0; i < 3; i++) { v.push_back(one(3, 1)); put(d, v[i], true); } int k = (int)PARAM("k", 1); for (int i = 0; i < k; i++) { w.push_back(one(4, i & 1)); put(e, w[i], false); }
  d.save("f"); e.save("f"); verify(DataSet("f.wpkds"), w); e.save("f"); verify(DataSet("f.wpkds"), w); d.save("f"); verify(DataSet("f.wpkds"), v); REACH("same name");
}
ENTRY(e_empty) { DataSet d; d.save("e"); DataSet e("e.wpkds"); CHECK(e.size() == 0, "empty data set"); e.save("e"); DataSet f("e.wpkds"); CHECK(f.size() == 0, "empty again"); In x = one(2, 0); put(f, x, true); f.save("e"); verify(DataSet("e.wpkds"), {x}); REACH("empty"); }
ENTRY(e_name) {        // any name of n characters
  int n = (int)PARAM("n", 6); std::string s; for (int i = 0; i < n; i++) s += (char)__sym_bv("char", 8); const std::string x = ".wpkds"; bool good = n >= 6; for (int i = 0; i < 6 && n >= 6; i++) good = good & (s[n - 6 + i] == x[i]);
  bool t = THROWS_LIB(DataSet d(s); CHECK(d.size() == 0, "a file that does not exist")); CHECK(t == !good, "exactly the other extensions are rejected"); REACH("name"); if (t) REACH("rejected");
}
ENTRY(e_long) {        // long labels and inputs
  int len = (int)PARAM("len", 400), n = (int)PARAM("n", 100); std::string l(len, 0); for (int i = 0; i < len; i++) l[i] = (char)(i * 37); l[len / 2] = (char)__sym_bv("char", 8); In x = one(3, 0); x.labelled = true; x.label = l; In y = one(0, 2); y.bits.assign(n, 1); y.bits[n / 2] = (short)sym_int("bit", 0, 1); DataSet d; put(d, x, true); put(d, y, false); d.save("l"); verify(DataSet("l.wpkds"), {x, y}); REACH("long");
}
ENTRY(e_many) {        // many inputs
  int k = (int)PARAM("k", 40); std::vector<In> v; DataSet d; for (int i = 0; i < k; i++) { In x; for (int j = 0; j < i % 11; j++) x.bits.push_back((i >> (j % 4)) & 1); x.labelled = i % 3 != 0; if (x.labelled) x.label = std::string(1 + i % 7, (char)(i * 5 + 1)); if (i == k / 2) x = one(3, 1); v.push_back(x); put(d, x, i & 1); } d.save("m"); verify(DataSet("m.wpkds"), v); REACH("many");
}
