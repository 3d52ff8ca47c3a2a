// C06: invalid training and classification data is rejected, valid data never.
#include "model.h"
#include <climits>
static VI any_image(const char* n, int size) { VI v(size); for (int i = 0; i < size; i++) v[i] = (int)sym_int(n, INT_MIN, INT_MAX); return v; }
static bool invalid(const VI& v, int es, int base) { if ((int)v.size() != es) return true; bool b = false; for (size_t i = 0; i < v.size(); i++) b = b | (v[i] < 0) | (v[i] >= base); return b; }
static const int BASES[] = {2, 3, 10, 256, 2147483647};
ENTRY(e_values) {      // every image of this size
  sym_rand_mode(1); int base = BASES[PARAM("base", 0)], size = (int)PARAM("size", 3), es = 3; bool iz = PARAM("ignoreZero", 0);
  Discriminator d(VVI{{0, 1}, {2, 0}}, es, iz, base); d.train(VI{1, 0, 1});
  VI a = any_image("image", size); bool bad = invalid(a, es, base);
  CHECK(THROWS_LIB(d.classify(a)) == bad, "classify rejects exactly wrong sizes and values");
  CHECK(THROWS_LIB(d.train(a)) == bad, "train rejects exactly wrong sizes and values");
  CHECK(THROWS_LIB(d.untrain(a)) == bad, "untrain rejects exactly wrong sizes and values");
  CHECK(THROWS_LIB(d.train(VVI{VI{0, 0, 0}, a})) == bad, "a batch is rejected exactly if it contains such an image");
  REACH("values");
}
ENTRY(e_packed) {      // packed images of any size
  sym_rand_mode(1); int size = (int)PARAM("size", 3), es = 3; Discriminator d(VVI{{0, 1}, {2, 0}}, es, false, 2); BinInput b((index_size_t)size); for (int i = 0; i < size; i++) b.set(i, sym_bool("bit"));
  CHECK(THROWS_LIB(d.classify(b)) == (size != es), "classify packed"); CHECK(THROWS_LIB(d.train(b)) == (size != es), "train packed");
  Wisard w(2, nl::json{}); DataSet ok, ds; ok.add(BinInput(std::vector<short>{1, 0, 1}), "x"); w.train(ok); ds.add(b, "x");
  CHECK(THROWS_LIB(w.train(ds)) == (size != es), "train packed data set"); CHECK(THROWS_LIB(w.classify(ds)) == (size != es), "classify packed data set");
  DataSet none; w.train(none); CHECK(w.classify(none).empty(), "empty data set");
  REACH("packed");
}
template<class M> static void lists(M& w, int base) {
  int ni = (int)sym_pick("images", 0, 3), nlab = (int)sym_pick("labels", 0, 3); VVI im; VS lb; for (int i = 0; i < ni; i++) im.push_back(VI{i & 1, 0, 1}); for (int i = 0; i < nlab; i++) lb.push_back(i & 1 ? "a" : "b");
  CHECK(THROWS_LIB(w.train(im, lb)) == (ni != nlab), "lists of different length are rejected");
}
ENTRY(e_lists) {       // lengths of the lists, empty batches
  sym_rand_mode(1); { Wisard w(2, nl::json{}); lists(w, 2); CHECK(w.classify(VVI()).empty(), "empty query"); int a = (int)sym_pick("out", 0, 2), b = (int)sym_pick("outLabels", 0, 2);
    CHECK(THROWS_LIB(w.leaveMoreOut(VVI(a, VI{0, 0, 1}), VS(b, "zz"))) == (a != b), "leaveMoreOut lists of different length"); w.train(VVI(), VS()); w.leaveMoreOut(VVI(), VS()); }
  { ClusWisard c(2, 0.3f, 5, 2); lists(c, 2); CHECK(c.classify(VVI()).empty() && c.classifyUnsupervised(VVI()).empty(), "empty query"); c.train(VVI(), VS()); c.trainUnsupervised(VVI()); }
  REACH("lists");
}
ENTRY(e_wisard) {      // a Wisard with images of any values and sizes
  sym_rand_mode(1); int base = BASES[PARAM("base", 0)], size = (int)PARAM("size", 3), es = 3; Wisard w(2, nl::json{{"base", base}}); w.train(VVI{VI{1, 0, 1}, VI{0, 1, 1}}, VS{"a", "b"});
  VI a = any_image("image", size); bool bad = invalid(a, es, base);
  CHECK(THROWS_LIB(w.classify(VVI{VI{0, 0, 0}, a})) == bad, "Wisard classify"); CHECK(THROWS_LIB(w.train(VVI{VI{0, 0, 0}, a}, VS{"a", "b"})) == bad, "Wisard train");
  CHECK(THROWS_LIB(w.leaveOneOut(a, "b")) == bad, "Wisard leaveOneOut"); CHECK(!THROWS_LIB(w.leaveOneOut(a, "unknown")), "unknown label"); REACH("wisard");
}
ENTRY(e_clus) {        // a ClusWisard with images of any values and sizes
  sym_rand_mode(1); int base = BASES[PARAM("base", 0)], size = (int)PARAM("size", 2), es = 2, what = (int)PARAM("what", 0); ClusWisard w(2, 0.3f, 5, 2, nl::json{{"base", base}});
  VI a = any_image("image", size); bool bad = invalid(a, es, base); std::map<int, std::string> m; m[0] = "a";
  if (what == 3 || what == 4) w.trainUnsupervised(VVI{VI{1, 0}}); else w.train(VVI{VI{1, 0}, VI{0, 1}}, VS{"a", "b"});
  bool t = THROWS_LIB(
    if (what == 0) w.classify(VVI{a}); else if (what == 1) w.train(VVI{VI{0, 0}, a}, VS{"a", "b"}); else if (what == 2) w.train(VVI{VI{0, 0}, a}, m); else if (what == 3) w.trainUnsupervised(VVI{a}); else w.classifyUnsupervised(VVI{a}));
  CHECK(t == bad, "ClusWisard rejects exactly wrong sizes and values"); REACH("clus");
}
struct W : Wisard { using Wisard::Wisard; }; 
ENTRY(e_confidence) {  // every confidence
  sym_rand_mode(1); int conf = (int)sym_int("confidence", INT_MIN, INT_MAX), as = (int)PARAM("as", 2), es = (int)PARAM("es", 5), kind = (int)PARAM("kind", 0); bool complete = PARAM("complete", 1);
  int rams = complete ? (es + as - 1) / as : es / as; bool bad = conf > rams; VVI im(2, VI(es, 1)); std::map<int, std::string> m; m[1] = "x";
  nl::json o = {{"completeAddressing", complete}, {"confidence", conf}};
  bool t = THROWS_LIB(
    if (kind == 0) { Wisard w(as, o); w.train(im, VS{"a", "b"}); } else if (kind == 1) { Wisard w(as, o); DataSet d; d.add(std::vector<short>(es, 1), "a"); w.train(d); }
    else if (kind == 2) { ClusWisard w(as, 0.3f, 5, 2, o); w.train(im, VS{"a", "b"}); } else { ClusWisard w(as, 0.3f, 5, 2, o); w.train(im, m); });
  CHECK(t == bad, "a confidence is rejected exactly when it exceeds the number of RAMs"); REACH("confidence");
}
ENTRY(e_first) {       // empty models
  sym_rand_mode(1); Wisard w(2); VI a = any_image("image", 3); CHECK(!THROWS_LIB(CHECK(w.classify(VVI{a, a}).size() == 2, "one label per image")), "classify with an untrained Wisard");
  ClusWisard c(2, 0.3f, 5, 2); CHECK(!THROWS_LIB(CHECK(c.classify(VVI{a, a}).size() == 2, "one label per image")), "classify with an untrained ClusWisard");
  CHECK(!THROWS_LIB(CHECK(c.classifyUnsupervised(VVI{a, a}).size() == 2, "one label per image")), "classifyUnsupervised with an untrained ClusWisard"); REACH("first");
}
