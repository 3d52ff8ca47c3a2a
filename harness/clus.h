// Reference cluster: the growth rule written down from the documentation, and access to a model's parts.
#pragma once
#include "model.h"
struct C : ClusWisard { using ClusWisard::ClusWisard; using ClusWisard::clusters; using ClusWisard::unsupervisedCluster; };
struct RefDisc { VVI map; VVI learned; };
struct Rule { float minScore; int threshold, limit; bool iz; };
static inline float ref_score(const VI& votes) { int mx = 0, sum = 0; for (int v : votes) { mx = sel(v > mx, v, mx); sum += v; } mx = (int)__sym_concretize((uint64_t)mx); if (!mx) return 0; sum = (int)__sym_concretize((uint64_t)sum); return (float)sum / (float)(mx * (int)votes.size()); }
// one training step; fresh gives the mapping a new discriminator has
template<class F> static inline void ref_train(std::vector<RefDisc>& ds, const VI& im, const Rule& r, F fresh) {
  if (ds.empty()) { ds.push_back(RefDisc{fresh(), VVI{im}}); return; }
  bool some = false; float best = 0; int at = 0; std::vector<bool> takes(ds.size());
  for (size_t i = 0; i < ds.size(); i++) { float s = ref_score(ref_votes(ds[i].learned, im, ds[i].map, r.iz)); float lim = r.minScore + (float)ds[i].learned.size() / (float)r.threshold; if (lim > 1.0f) lim = 1.0f; if (s >= best) { best = s; at = (int)i; } takes[i] = s >= lim; if (takes[i]) some = true; }
  if (some) { for (size_t i = 0; i < ds.size(); i++) if (takes[i]) ds[i].learned.push_back(im); return; }
  if ((int)ds.size() < r.limit) { ds.push_back(RefDisc{fresh(), VVI{im}}); return; }
  ds[at].learned.push_back(im);
}
// the mappings the model gave its discriminators, read from its saved text
static inline std::vector<VVI> maps_of(const nl::json& cluster) { std::vector<VVI> r; for (auto& d : cluster["discriminators"]) r.push_back(d["mapping"].template get<VVI>()); return r; }
static inline void agree(Cluster& c, const std::vector<RefDisc>& ds, const VI& q, int es, bool iz, bool mental = true) {
  CHECK((size_t)c.getNumberOfDiscriminators() == ds.size(), "number of discriminators"); VVI v = c.classify(q), m; if (mental) m = c.getMentalImages(); CHECK(v.size() == ds.size() && (!mental || m.size() == ds.size()), "votes and mental images of every discriminator");
  for (size_t i = 0; i < ds.size() && i < v.size(); i++) { CHECK(same(v[i], ref_votes(ds[i].learned, q, ds[i].map, iz)), "votes of the images the discriminator should have learned"); if (mental) CHECK(same(m[i], ref_mental(ds[i].learned, ds[i].map, es)), "mental image of the images the discriminator should have learned"); }
}
static const float SCORES[] = {0.0f, 0.1f, 0.25f, 0.4f, 0.5f, 0.75f, 1.0f, 0.6f, 0.0001f, 1.0f / 3, 0.99999994f};
