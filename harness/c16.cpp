// C16: mental images count how often each position was seen active.
#include "model.h"
ENTRY(e_mental) {      // n images, every shape
  Shape s = shape((int)PARAM("shape", 0)); bool iz = PARAM("ignoreZero", 0); int n = (int)PARAM("n", 2); Discriminator d(s.map, s.entry, iz, s.base); CHECK(same(d.getMentalImage(), VI(s.entry, 0)), "nothing seen yet");
  VVI all = sym_images("train", n, s); for (auto& a : all) d.train(a); VI m = d.getMentalImage(); CHECK((int)m.size() == s.entry, "one value per entry position"); CHECK(same(m, ref_mental(all, s.map, s.entry)), "sum over the RAM connections of the images active there"); CHECK(same(d.getMentalImage(), m), "asked again"); obs("mental", m); REACH("mental");
}
ENTRY(e_base) {        // one RAM, one image, any base
  int m = (int)PARAM("m", 2); int bases[] = {2, 3, 4, 5, 7, 8, 10, 16, 100, 255, 256, 257, 1000, 32768, 65535, 65536, 2147483647}; int b = bases[PARAM("which", 0)]; VVI map(1); for (int i = 0; i < m; i++) map[0].push_back(m - 1 - i); Discriminator d(map, m, false, b); VI a = sym_image("train", m, b); d.train(a); CHECK(same(d.getMentalImage(), ref_mental(VVI{a}, map, m)), "one image in this base"); d.train(a); CHECK(same(d.getMentalImage(), ref_mental(VVI{a, a}, map, m)), "twice the same image"); REACH("base");
}
ENTRY(e_random) {      // random mappings, repeated positions
  sym_rand_mode(1); int as = (int)PARAM("as", 3), es = (int)PARAM("es", 5), base = (int)PARAM("base", 2); Discriminator d(as, es, (bool)PARAM("ignoreZero", 0), (bool)PARAM("complete", 1), base); VVI map = d.getConfigJSON()["mapping"].get<VVI>(); VVI all; for (int i = 0; i < (int)PARAM("n", 2); i++) { all.push_back(sym_image("train", es, base)); d.train(all[i]); } CHECK(same(d.getMentalImage(), ref_mental(all, map, es)), "random mapping"); REACH("random");
}
ENTRY(e_wisard) {      // one image per class
  Shape s = shape((int)PARAM("shape", 20)); bool iz = PARAM("ignoreZero", 0); std::map<std::string, VVI> mp; mp["a"] = s.map; mp["b"] = VVI(s.map.rbegin(), s.map.rend()); Wisard w(2, nl::json{{"mapping", mp}, {"ignoreZero", iz}, {"base", s.base}}); CHECK(w.getMentalImages().empty(), "no classes yet");
  VVI im = sym_images("train", 3, s); w.train(im, VS{"a", "b", "a"}); auto m = w.getMentalImages(); CHECK(m.size() == 2 && m.count("a") && m.count("b"), "one per class"); CHECK(same(m["a"], ref_mental(VVI{im[0], im[2]}, s.map, s.entry)) && same(m["b"], ref_mental(VVI{im[1]}, s.map, s.entry)), "images of each class"); REACH("wisard");
}
ENTRY(e_packed) {      // a data set
  Shape s = shape((int)PARAM("shape", 1)); VVI im = sym_images("train", 2, s); Wisard w(2, nl::json{{"mapping", std::map<std::string, VVI>{{"a", s.map}}}}); DataSet d; for (auto& a : im) d.add(pack(a), "a"); w.train(d); CHECK(same(w.getMentalImages()["a"], ref_mental(im, s.map, s.entry)), "packed images"); REACH("packed");
}
struct C : ClusWisard { using ClusWisard::ClusWisard; using ClusWisard::clusters; };
ENTRY(e_clus) {        // one mental image per discriminator of each class, each over the images its discriminator learned
  sym_rand_mode(1); int es = (int)PARAM("es", 4), n = (int)PARAM("n", 3), base = (int)PARAM("base", 2), limit = (int)PARAM("limit", 1); C c(2, (float)PARAM("one", 1), 1, limit, nl::json{{"base", base}, {"ignoreZero", (bool)PARAM("ignoreZero", 0)}});
  VVI im; VS lb; VVI a, b; for (int i = 0; i < n; i++) { im.push_back(sym_image("train", es, base)); lb.push_back(i == 1 ? "b" : "a"); (i == 1 ? b : a).push_back(im[i]); } c.train(im, lb); auto all = c.getMentalImages(); CHECK(all.size() == 2, "classes");
  nl::json j = nl::json::parse(c.json());
  for (auto& k : {std::string("a"), std::string("b")}) {
    VVI m = c.getMentalImage(k); CHECK(same(m, all[k]), "asked for one class or for all"); CHECK(m.size() == c.clusters[k].getNumberOfDiscriminators() && (int)m.size() <= limit, "one per discriminator"); 
    nl::json& ds = j["clusters"][k]["discriminators"]; CHECK(ds.size() == m.size(), "saved discriminators"); VI sum(es, 0); int trained = 0; for (size_t i = 0; i < m.size(); i++) { CHECK((int)m[i].size() == es, "one value per position"); trained += ds[i]["count"].get<int>(); }
    if (limit == 1) { VVI map = ds[0]["mapping"].get<VVI>(); CHECK(same(m[0], ref_mental(k == "a" ? a : b, map, es)), "all images of the class"); CHECK(trained == (k == "a" ? n - 1 : 1), "trainings"); }
  }
  CHECK(c.getMentalImage("never").empty(), "a label never trained has none"); REACH("clus");
}
