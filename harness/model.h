// Reference notions used by the checks, written without branches on symbolic values.
#pragma once
#include "repo.h"
struct Shape { VVI map; int entry; int base; };
static inline VVI rows(int n, int m, int first = 0, int step = 1) {   // n RAMs of m positions each: first, first+step, ...
  VVI r(n); int p = first; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { r[i].push_back(p); p += step; } return r;
}
// small and wide position mappings (repeated positions, overlapping RAMs, unmapped positions, reversed order)
static inline Shape shape(int k) {
  switch (k) {
    case 0: return {{{0, 1}, {2, 3}}, 4, 2};
    case 1: return {{{1, 0, 3}, {2, 3, 1}}, 5, 2};            // overlapping, position 4 unmapped
    case 2: return {{{0, 1, 2}}, 4, 3};
    case 3: return {{{2, 0}, {1, 1}}, 3, 4};                  // a position twice in one RAM
    case 4: return {{{0, 1}, {1, 2}}, 3, 10};
    case 5: return {{{0, 1}, {2, 3}, {4, 5}}, 6, 2};
    case 6: return {rows(1, 64, 1), 66, 2};                   // the whole 64-bit address space
    case 7: return {rows(1, 33), 33, 2};
    case 8: return {rows(1, 40), 41, 3};
    case 9: return {rows(1, 16), 17, 16};
    case 10: return {rows(1, 32), 33, 4};
    case 11: return {rows(1, 8), 9, 256};
    case 12: return {rows(1, 2), 3, 2147483647};
    case 13: return {rows(1, 4), 4, 65536};
    case 14: return {rows(1, 19), 20, 10};
    case 15: return {rows(2, 31), 62, 2};
    case 16: return {{{0, 1}}, 2, 2};
    case 17: return {{{0, 1, 2}}, 3, 2};
    case 18: return {rows(12, 2), 24, 2};                     // many RAMs
    case 19: return {{{3, 2, 1, 0}}, 4, 2};
    case 20: return {{{0, 1}, {2, 0}}, 3, 2};
    case 21: return {rows(2, 2), 4, 3};
    case 22: return {rows(1, 27), 27, 5};
    case 23: return {rows(1, 63), 63, 2};
  }
  return {{{0, 1}}, 2, 2};
}
static inline bool agree(const VI& a, const VI& b, const VI& pos) { bool r = true; for (size_t i = 0; i < pos.size(); i++) r = r & (a[pos[i]] == b[pos[i]]); return r; }
static inline bool zero_at(const VI& a, const VI& pos) { bool r = true; for (size_t i = 0; i < pos.size(); i++) r = r & (a[pos[i]] == 0); return r; }
// the vote a RAM must give: number of trained images that agree on its positions
static inline int ref_vote(const VVI& trained, const VI& q, const VI& pos, bool ignoreZero) {
  int n = 0; for (size_t i = 0; i < trained.size(); i++) n += agree(trained[i], q, pos) ? 1 : 0;
  return (ignoreZero & zero_at(q, pos)) ? 0 : n;
}
static inline VI ref_votes(const VVI& trained, const VI& q, const VVI& map, bool ignoreZero) { VI r; for (size_t i = 0; i < map.size(); i++) r.push_back(ref_vote(trained, q, map[i], ignoreZero)); return r; }
// the mental image: per position and RAM connection the trained images that are not zero there
static inline VI ref_mental(const VVI& trained, const VVI& map, int entry) {
  VI m(entry, 0);
  for (size_t r = 0; r < map.size(); r++) for (size_t i = 0; i < map[r].size(); i++) for (size_t t = 0; t < trained.size(); t++) m[map[r][i]] += (trained[t][map[r][i]] != 0) ? 1 : 0;
  return m;
}
static inline VVI sym_images(const char* n, int count, const Shape& s) { VVI v; for (int i = 0; i < count; i++) v.push_back(sym_image(n, s.entry, s.base)); return v; }
static inline BinInput pack(const VI& v) { std::vector<short> s(v.begin(), v.end()); return BinInput(s); }
static inline void obs(const char* n, const VI& v) { for (size_t i = 0; i < v.size(); i++) OBS(n, v[i]); }
// reference bleaching, branch-free: scores of the classes (votes[class][ram]) at the first threshold 1..top+1 that settles it
static inline VI ref_scores(const VVI& votes, int b) { VI s; for (size_t k = 0; k < votes.size(); k++) { int n = 0; for (size_t j = 0; j < votes[k].size(); j++) n += votes[k][j] >= b ? 1 : 0; s.push_back(n); } return s; }
static inline int sel(bool c, int a, int b) { return c ? a : b; }
static inline bool settled(const VI& s, int confidence) {
  int best = 0, second = 0;
  for (size_t k = 0; k < s.size(); k++) { int lo = sel(s[k] < best, s[k], best); best = sel(s[k] > best, s[k], best); second = sel(lo > second, lo, second); }
  return (s.size() < 2) | (best - second >= confidence) | (best <= 1);
}
static inline VI ref_bleach(const VVI& votes, int top, bool on, int confidence, int from = 1) {
  if (!on) return ref_scores(votes, 1);
  VI r = ref_scores(votes, top + 1);
  for (int b = top; b >= from; b--) { VI s = ref_scores(votes, b); bool st = settled(s, confidence); for (size_t k = 0; k < s.size(); k++) r[k] = sel(st, s[k], r[k]); }
  return r;
}
// index of the winner: highest score, the last one on ties (classes in lexicographic order)
static inline int ref_winner(const VI& s) { int w = 0, best = s.empty() ? 0 : s[0]; for (size_t k = 1; k < s.size(); k++) { w = sel(s[k] >= best, (int)k, w); best = sel(s[k] >= best, s[k], best); } return w; }
