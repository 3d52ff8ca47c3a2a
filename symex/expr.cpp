#include "expr.h"
#include <algorithm>
#include <functional>

std::vector<SymInfo> g_syms;
bool g_abstractFP = false;
static uint32_t g_epoch = 0;
Model::Model(): epoch(++g_epoch) {}

struct EHash { size_t operator()(const Expr* e) const { return e->hash; } };
struct EEq {
  bool operator()(const Expr* a, const Expr* b) const {
    return a->k == b->k && a->w == b->w && a->aux == b->aux && a->nops == b->nops && a->c == b->c &&
           a->ops[0] == b->ops[0] && a->ops[1] == b->ops[1] && a->ops[2] == b->ops[2];
  }
};
#include <unordered_set>
static std::unordered_set<const Expr*, EHash, EEq> g_tab;
static uint32_t g_nextId = 0;

static const Expr* mkSym8(uint32_t id);
u128 evalExpr(const Expr* e, const Model& m);
static const Expr* intern(Kind k, unsigned w, uint32_t aux, int n, const Expr* a, const Expr* b, const Expr* c, u128 cv) {
  Expr t; t.k = k; t.w = w; t.aux = aux; t.nops = n; t.ops[0] = a; t.ops[1] = b; t.ops[2] = c; t.c = cv;
  uint64_t h = k * 0x9E3779B97F4A7C15ull + w * 1315423911ull + aux * 2654435761ull;
  auto mix = [&](uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); };
  if (a) mix(a->hash); if (b) mix(b->hash * 3); if (c) mix(c->hash * 7);
  mix((uint64_t)cv); mix((uint64_t)(cv >> 64));
  t.hash = h;
  auto it = g_tab.find(&t);
  if (it != g_tab.end()) return (*it)->alt ? (*it)->alt : *it;
  Expr* e = new Expr(t);
  e->id = ++g_nextId;
  e->hasFP = (k >= K_FADD && k <= K_FCONV);
  e->hasUninit = false; e->hasMul = (k >= K_MUL && k <= K_SREM && w >= 8);
  for (int i = 0; i < n; i++) { e->hasFP |= e->ops[i]->hasFP; e->hasUninit |= e->ops[i]->hasUninit; e->hasMul |= e->ops[i]->hasMul; }
  if (k == K_SYM) e->hasUninit = g_syms[aux].uninit;
  e->leaves = 0;
  if (k == K_CONST) e->leaves = 1;
  if (k == K_ITE && b->leaves && c->leaves) e->leaves = b->leaves + c->leaves;
  if (k == K_SYM) e->sup = (int32_t)aux; else for (int i = 0; i < n; i++) { int32_t u = e->ops[i]->sup; if (u == -1) continue; e->sup = e->sup == -1 || e->sup == u ? u : -2; }
  g_tab.insert(e);
  // a value of up to 8 bits that depends on a single byte of input is a table over that byte
  if (e->sup >= 0 && w >= 2 && w <= 8 && k != K_SYM && k != K_TAB && k != K_AGG && !e->hasFP && !e->hasUninit && g_syms[e->sup].w == 8 && !(k == K_EXTRACT && a->k == K_SYM)) {
    std::vector<u128> t; Model m; const Expr* y = mkSym8(e->sup);
    for (int i = 0; i < 256; i++) { if (i) { Model f; m.epoch = f.epoch; } m.vals[e->sup] = i; t.push_back(evalExpr(e, m)); }
    const Expr* r = mkTab(y, t, w); if (r != e) e->alt = r; return r;
  }
  return e;
}
static const Expr* mkSym8(uint32_t id) { return intern(K_SYM, 8, id, 0, nullptr, nullptr, nullptr, 0); }

const Expr* mkConst(u128 v, unsigned w) { return intern(K_CONST, w, 0, 0, nullptr, nullptr, nullptr, v & maskW(w)); }

const Expr* mkSym(const std::string& name, unsigned w, bool uninit, u128 max) {
  static std::unordered_map<std::string, uint32_t> ids;
  if (max > maskW(w)) max = maskW(w);
  std::string key = name + "#" + std::to_string(w); if (max != maskW(w)) key += "<" + std::to_string((unsigned long long)max) + "/" + std::to_string((unsigned long long)(max >> 64));
  auto it = ids.find(key);
  uint32_t id;
  if (it == ids.end()) { id = g_syms.size(); g_syms.push_back({name, w, uninit, max}); ids[key] = id; }
  else id = it->second;
  return intern(K_SYM, w, id, 0, nullptr, nullptr, nullptr, 0);
}

const Expr* mkAgg(std::vector<Val> v) {
  Expr* e = new Expr(); e->k = K_AGG; e->nops = 0; e->w = 0; e->aux = 0; e->id = ++g_nextId; e->leaves = 0;
  e->hasFP = e->hasUninit = e->hasMul = false; e->ops[0] = e->ops[1] = e->ops[2] = nullptr; e->c = 0; e->hash = e->id;
  e->agg = new std::vector<Val>(std::move(v));
  return e;
}

static double bd(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
static float bf(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static u128 db(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static u128 fb(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

u128 foldBin(Kind k, u128 a, u128 b, unsigned w) {
  u128 m = maskW(w);
  switch (k) {
    case K_ADD: return (a + b) & m;
    case K_SUB: return (a - b) & m;
    case K_MUL: return (a * b) & m;
    case K_UDIV: return b ? (a / b) & m : m;
    case K_UREM: return b ? (a % b) & m : a;
    case K_SDIV: { s128 x = sextW(a, w), y = sextW(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
    case K_SREM: { s128 x = sextW(a, w), y = sextW(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case K_AND: return a & b;
    case K_OR: return a | b;
    case K_XOR: return a ^ b;
    case K_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case K_LSHR: return b >= w ? 0 : (a >> (unsigned)b);
    case K_ASHR: { s128 x = sextW(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; if (w == 0) return 0; return (u128)(x >> s) & m; }
    case K_EQ: return a == b;
    case K_ULT: return a < b;
    case K_ULE: return a <= b;
    case K_SLT: return sextW(a, w) < sextW(b, w);
    case K_SLE: return sextW(a, w) <= sextW(b, w);
    case K_FADD: return w == 64 ? db(bd(a) + bd(b)) : fb(bf(a) + bf(b));
    case K_FSUB: return w == 64 ? db(bd(a) - bd(b)) : fb(bf(a) - bf(b));
    case K_FMUL: return w == 64 ? db(bd(a) * bd(b)) : fb(bf(a) * bf(b));
    case K_FDIV: return w == 64 ? db(bd(a) / bd(b)) : fb(bf(a) / bf(b));
    case K_FREM: return w == 64 ? db(fmod(bd(a), bd(b))) : fb(fmodf(bf(a), bf(b)));
    case K_FEQ: return w == 64 ? bd(a) == bd(b) : bf(a) == bf(b);
    case K_FLT: return w == 64 ? bd(a) < bd(b) : bf(a) < bf(b);
    case K_FLE: return w == 64 ? bd(a) <= bd(b) : bf(a) <= bf(b);
    default: fprintf(stderr, "foldBin kind %d\n", k); abort();
  }
}
u128 foldF1(Kind k, u128 a, unsigned wa, unsigned w, uint32_t aux) {
  switch (k) {
    case K_FNAN: return wa == 64 ? std::isnan(bd(a)) : std::isnan(bf(a));
    case K_FSQRT: return w == 64 ? db(std::sqrt(bd(a))) : fb(std::sqrt(bf(a)));
    case K_FROUND: {
      double d = wa == 64 ? bd(a) : bf(a);
      switch (aux) { case 0: d = std::round(d); break; case 1: d = std::floor(d); break; case 2: d = std::ceil(d); break; case 3: d = std::trunc(d); break; default: d = std::nearbyint(d); }
      return w == 64 ? db(d) : fb((float)d);
    }
    case K_FTOSI: { double d = wa == 64 ? bd(a) : bf(a); if (!(d >= -9.3e18 && d < 9.3e18)) return ((u128)1 << (w - 1)) & maskW(w); return (u128)(s128)(int64_t)d & maskW(w); }
    case K_FTOUI: { double d = wa == 64 ? bd(a) : bf(a); if (!(d > -1 && d < 1.85e19)) return 0; return (u128)(uint64_t)d & maskW(w); }
    case K_SITOF: return w == 64 ? db((double)(int64_t)sextW(a, wa)) : fb((float)(int64_t)sextW(a, wa));
    case K_UITOF: return w == 64 ? db((double)(uint64_t)a) : fb((float)(uint64_t)a);
    case K_FCONV: if (wa == w) return a; return w == 64 ? db((double)bf(a)) : fb((float)bd(a));
    default: abort();
  }
}

static bool liftable(const Expr* e) { return e->k == K_TAB || (e->k == K_ITE && e->leaves && e->leaves <= 160); }

static const Expr* liftMap(const Expr* e, const std::function<const Expr*(const Expr*)>& f, std::unordered_map<const Expr*, const Expr*>& memo) {
  if (e->k == K_TAB) {
    const std::vector<u128>& t = g_tabs[e->aux];
    std::vector<u128> r(t.size()); unsigned w = 0;
    const Expr* last = nullptr; u128 lastIn = 0;
    for (size_t i = 0; i < t.size(); i++) {
      if (!last || t[i] != lastIn) { last = f(mkConst(g_tabs[e->aux][i], e->w)); lastIn = g_tabs[e->aux][i]; }
      r[i] = last->c; w = last->w;
    }
    return mkTab(e->ops[0], std::move(r), w);
  }
  if (e->k != K_ITE) return f(e);
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  const Expr* r = mkIte(e->ops[0], liftMap(e->ops[1], f, memo), liftMap(e->ops[2], f, memo));
  memo[e] = r;
  return r;
}
static const Expr* lift(const Expr* e, const std::function<const Expr*(const Expr*)>& f) {
  std::unordered_map<const Expr*, const Expr*> memo; return liftMap(e, f, memo);
}

const Expr* mkNot(const Expr* a) { return mkBin(K_XOR, a, mkConst(maskW(a->w), a->w)); }
static bool isNot(const Expr* a) { return a->k == K_XOR && a->ops[1]->k == K_CONST && a->ops[1]->c == maskW(a->w); }
static bool comm(Kind k) { return k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ || k == K_FADD || k == K_FMUL || k == K_FEQ; }
static bool isCmp(Kind k) { return (k >= K_EQ && k <= K_SLE) || (k >= K_FEQ && k <= K_FLE); }
// number of known-zero high bits
static unsigned hiZeros0(const Expr* e);
static unsigned hiZeros(const Expr* e) {
  if (e->hz < 0) { unsigned n = hiZeros0(e); u128 m = umax(e); unsigned k = 0; while (k < e->w && !((m >> (e->w - 1 - k)) & 1)) k++; e->hz = (int16_t)(n > k ? n : k); }
  return (unsigned)e->hz;
}
// an upper bound of the value
u128 umax(const Expr* e) {
  if (e->umKnown) return e->um;
  u128 M = maskW(e->w), r = M;
  if (e->w <= 64) switch (e->k) {
    case K_CONST: r = e->c; break;
    case K_SYM: r = g_syms[e->aux].max; break;
    case K_ZEXT: r = umax(e->ops[0]); break;
    case K_ADD: { u128 t = umax(e->ops[0]) + umax(e->ops[1]); if (t <= M) r = t; break; }
    case K_MUL: { u128 a = umax(e->ops[0]), b = umax(e->ops[1]); if (!a || !b) r = 0; else if (a <= M / b) r = a * b; break; }
    case K_SHL: if (isConst(e->ops[1]) && e->ops[1]->c < e->w) { u128 a = umax(e->ops[0]); if (a <= (M >> (unsigned)e->ops[1]->c)) r = a << (unsigned)e->ops[1]->c; } break;
    case K_ITE: { u128 a = umax(e->ops[1]), b = umax(e->ops[2]); r = a > b ? a : b; break; }
    case K_CONCAT: r = (umax(e->ops[0]) << e->ops[1]->w) | umax(e->ops[1]); { u128 lo = maskW(e->ops[1]->w); if (umax(e->ops[0])) r = (umax(e->ops[0]) << e->ops[1]->w) | lo; } break;
    case K_AND: { u128 a = umax(e->ops[0]), b = umax(e->ops[1]); r = a < b ? a : b; break; }
    case K_UDIV: if (isConst(e->ops[1]) && e->ops[1]->c) r = umax(e->ops[0]) / e->ops[1]->c; break;
    case K_UREM: if (isConst(e->ops[1]) && e->ops[1]->c) { u128 a = umax(e->ops[0]); r = a < e->ops[1]->c - 1 ? a : e->ops[1]->c - 1; } break;
    case K_EXTRACT: { unsigned lo = e->aux & 0xffff; u128 a = umax(e->ops[0]) >> lo; if (a <= M) r = a; break; }
    case K_TAB: { u128 t = 0; for (u128 v : g_tabs[e->aux]) if (v > t) t = v; r = t; break; }
    default: break;
  }
  e->umKnown = true; return e->um = r;
}
// sums of products with constants that cannot wrap around, and what follows from unique division with remainder
struct LinT { u128 c; const Expr* x; };
struct Lin { std::vector<LinT> t; u128 k = 0; bool ok = true; };
static void linOf(const Expr* e, u128 f, Lin& L, unsigned w) {      // adds f * e; e as an unsigned integer
  if (!L.ok) return;
  if (f > maskW(w) || L.t.size() > 200) { L.ok = false; return; }
  switch (e->k) {
    case K_CONST: { if (e->c && f > maskW(w) / e->c) { L.ok = false; return; } L.k += f * e->c; return; }
    case K_ZEXT: linOf(e->ops[0], f, L, w); return;
    case K_ADD: if (umax(e->ops[0]) + umax(e->ops[1]) > maskW(e->w)) break; linOf(e->ops[0], f, L, w); linOf(e->ops[1], f, L, w); return;
    case K_MUL: if (!isConst(e->ops[1]) || !e->ops[1]->c || umax(e->ops[0]) > maskW(e->w) / e->ops[1]->c || f > maskW(w) / e->ops[1]->c) break; linOf(e->ops[0], f * e->ops[1]->c, L, w); return;
    case K_SHL: if (!isConst(e->ops[1]) || e->ops[1]->c >= e->w || umax(e->ops[0]) > (maskW(e->w) >> (unsigned)e->ops[1]->c) || f > (maskW(w) >> (unsigned)e->ops[1]->c)) break; linOf(e->ops[0], f << (unsigned)e->ops[1]->c, L, w); return;
    case K_CONCAT: if (e->ops[1]->w >= 64 || f > (maskW(w) >> e->ops[1]->w)) break; linOf(e->ops[0], f << e->ops[1]->w, L, w); linOf(e->ops[1], f, L, w); return;
    default: break;
  }
  for (auto& t : L.t) if (t.x == e) { t.c += f; if (t.c > maskW(w)) L.ok = false; return; }
  L.t.push_back({f, e});
}
static bool linFits(const Lin& L, unsigned w) { u128 s = L.k; if (s > maskW(w)) return false; for (auto& t : L.t) { u128 m = umax(t.x); if (m && t.c > maskW(w) / m) return false; s += t.c * m; if (s > maskW(w)) return false; } return true; }
static u128 linMax(const std::vector<LinT>& t) { u128 s = 0; for (auto& x : t) s += x.c * umax(x.x); return s; }
static const Expr* linBuild(const std::vector<LinT>& t, u128 k, u128 div, unsigned w) {
  const Expr* r = nullptr; for (auto& x : t) { const Expr* m = mkBin(K_MUL, mkZExt(x.x, w), mkConst(x.c / div, w)); r = r ? mkBin(K_ADD, r, m) : m; }
  if (!r) return mkConst(k / div, w); return k / div ? mkBin(K_ADD, r, mkConst(k / div, w)) : r;
}
static u128 gcdU(u128 a, u128 b) { while (b) { u128 t = a % b; a = b; b = t; } return a; }
// a == b for two such sums; nullptr when nothing is gained
static const Expr* linEq(const Expr* a, const Expr* b, unsigned w) {
  Lin A, B; linOf(a, 1, A, w); linOf(b, 1, B, w);
  if (!A.ok || !B.ok || A.t.size() + B.t.size() < 2 || !linFits(A, w) || !linFits(B, w)) return nullptr;
  bool changed = false;
  for (auto& x : A.t) for (auto& y : B.t) if (x.x == y.x) { u128 m = x.c < y.c ? x.c : y.c; x.c -= m; y.c -= m; changed = true; }
  { u128 m = A.k < B.k ? A.k : B.k; if (m) { A.k -= m; B.k -= m; changed = true; } }
  auto drop = [](std::vector<LinT>& v) { std::vector<LinT> r; for (auto& x : v) if (x.c) r.push_back(x); v.swap(r); };
  drop(A.t); drop(B.t);
  if (A.t.empty() && B.t.empty()) return A.k == B.k ? mkTrue() : mkFalse();
  std::vector<u128> cs; for (auto& x : A.t) cs.push_back(x.c); for (auto& x : B.t) cs.push_back(x.c);
  std::sort(cs.begin(), cs.end()); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  u128 g = 0; for (u128 c : cs) g = gcdU(g, c);
  if ((A.k % g) != (B.k % g)) return mkFalse();
  if (g > 1) { if (A.k % g) return nullptr; return mkEq(linBuild(A.t, A.k, g, w), linBuild(B.t, B.k, g, w)); }
  for (size_t i = 1; i < cs.size(); i++) {      // coefficients below cs[i] are low, the others are multiples of m
    u128 m = 0; for (size_t j = i; j < cs.size(); j++) m = gcdU(m, cs[j]);
    if (m <= 1) continue;
    std::vector<LinT> la, ha, lb, hb; for (auto& x : A.t) (x.c % m ? la : ha).push_back(x); for (auto& x : B.t) (x.c % m ? lb : hb).push_back(x);
    if (linMax(la) + A.k % m >= m || linMax(lb) + B.k % m >= m) continue;
    return mkAnd(mkEq(linBuild(la, A.k % m, 1, w), linBuild(lb, B.k % m, 1, w)), mkEq(linBuild(ha, A.k - A.k % m, m, w), linBuild(hb, B.k - B.k % m, m, w)));
  }
  if (changed) return mkEq(linBuild(A.t, A.k, 1, w), linBuild(B.t, B.k, 1, w));
  return nullptr;
}
// a / v and a % v for such a sum; nullptr when nothing is gained
static const Expr* linDiv(Kind k, const Expr* a, u128 v, unsigned w) {
  Lin A; linOf(a, 1, A, w); if (!A.ok || !linFits(A, w)) return nullptr;
  std::vector<LinT> lo, hi; for (auto& x : A.t) (x.c % v ? lo : hi).push_back(x);
  u128 lk = A.k % v, hk = A.k - lk;
  if (linMax(lo) + lk < v) return k == K_UDIV ? linBuild(hi, hk, v, w) : linBuild(lo, lk, 1, w);
  if (hi.empty() && !hk) return nullptr;
  const Expr* l = linBuild(lo, lk, 1, w);
  return k == K_UREM ? mkBin(K_UREM, l, mkConst(v, w)) : mkBin(K_ADD, linBuild(hi, hk, v, w), mkBin(K_UDIV, l, mkConst(v, w)));
}
static unsigned hiZeros0(const Expr* e) {
  switch (e->k) {
    case K_CONST: { unsigned n = 0; for (int i = e->w - 1; i >= 0 && !((e->c >> i) & 1); i--) n++; return n; }
    case K_ZEXT: return e->w - e->ops[0]->w + hiZeros(e->ops[0]);
    case K_CONCAT: if (e->ops[0]->k == K_CONST && e->ops[0]->c == 0) return e->ops[0]->w + hiZeros(e->ops[1]); return hiZeros(e->ops[0]) < e->ops[0]->w ? hiZeros(e->ops[0]) : e->ops[0]->w;
    case K_ITE: { unsigned a = hiZeros(e->ops[1]); if (!a) return 0; unsigned b = hiZeros(e->ops[2]); return a < b ? a : b; }
    case K_AND: { unsigned a = hiZeros(e->ops[0]), b = hiZeros(e->ops[1]); return a > b ? a : b; }
    case K_OR: { unsigned a = hiZeros(e->ops[0]), b = hiZeros(e->ops[1]); return a < b ? a : b; }
    case K_TAB: { u128 o = 0; for (u128 v : g_tabs[e->aux]) o |= v; unsigned n = 0; for (int i = e->w - 1; i >= 0 && !((o >> i) & 1); i--) n++; return n; }
    case K_UREM: { if (e->ops[1]->k == K_CONST) return hiZeros(e->ops[1]); return 0; }
    default: return 0;
  }
}

std::vector<std::vector<u128>> g_tabs;
static uint32_t tabId(const std::vector<u128>& t) {
  static std::unordered_map<uint64_t, std::vector<uint32_t>> ids;
  uint64_t h = t.size(); for (u128 v : t) h = (h ^ (uint64_t)v ^ ((uint64_t)(v >> 64) * 31)) * 0x9E3779B97F4A7C15ull + (h >> 29);
  for (uint32_t i : ids[h]) if (g_tabs[i] == t) return i;
  g_tabs.push_back(t); ids[h].push_back(g_tabs.size() - 1);
  return g_tabs.size() - 1;
}
unsigned trailZeros(const Expr* e) {
  switch (e->k) {
    case K_CONST: { if (!e->c) return e->w; unsigned n = 0; while (!((e->c >> n) & 1)) n++; return n; }
    case K_CONCAT: { unsigned a = trailZeros(e->ops[1]); return a < e->ops[1]->w ? a : a + trailZeros(e->ops[0]); }
    case K_ZEXT: case K_SEXT: { unsigned a = trailZeros(e->ops[0]); return a < e->ops[0]->w ? a : e->w; }
    case K_ADD: case K_SUB: case K_OR: case K_XOR: { unsigned a = trailZeros(e->ops[0]), b = trailZeros(e->ops[1]); return a < b ? a : b; }
    case K_MUL: { unsigned a = trailZeros(e->ops[0]) + trailZeros(e->ops[1]); return a < e->w ? a : e->w; }
    case K_AND: { unsigned a = trailZeros(e->ops[0]), b = trailZeros(e->ops[1]); return a > b ? a : b; }
    case K_ITE: { unsigned a = trailZeros(e->ops[1]), b = trailZeros(e->ops[2]); return a < b ? a : b; }
    case K_TAB: { u128 o = 0; for (u128 v : g_tabs[e->aux]) o |= v; if (!o) return e->w; unsigned n = 0; while (!((o >> n) & 1)) n++; return n; }
    default: return 0;
  }
}
unsigned highZeros(const Expr* e) { return hiZeros(e); }
// a joined index is compared as a whole: tables over it fold, comparisons of its parts would not
static bool wholeIndex(const Expr* i) { return i->k == K_CONCAT && i->w <= 8 && !isConst(i->ops[0]) && !isConst(i->ops[1]); }
static bool feasible(const Expr* idx, u128 i) {     // can the index have this value, as far as bounds tell
  if (idx->k == K_CONCAT) { unsigned n = idx->ops[1]->w; return feasible(idx->ops[0], i >> n) && feasible(idx->ops[1], i & maskW(n)); }
  return i <= umax(idx);
}
const Expr* mkTab(const Expr* idx, std::vector<u128> t, unsigned w) {
  if (t.size() != ((size_t)1 << idx->w)) { fprintf(stderr, "mkTab size\n"); abort(); }
  if (isConst(idx)) return mkConst(t[(size_t)idx->c], w);
  bool same = true; for (u128 v : t) if (v != t[0]) { same = false; break; }
  if (same) return mkConst(t[0], w);
  if (idx->k == K_ZEXT) { t.resize((size_t)1 << idx->ops[0]->w); return mkTab(idx->ops[0], std::move(t), w); }
  if (idx->k == K_TAB) { std::vector<u128> r; for (u128 v : g_tabs[idx->aux]) r.push_back(t[(size_t)v]); return mkTab(idx->ops[0], std::move(r), w); }
  if (w == 1) {
    size_t n1 = 0; for (u128 v : t) n1 += v != 0;
    bool inv = n1 * 2 > t.size(); size_t n = inv ? t.size() - n1 : n1;
    for (unsigned b = 0; b < idx->w; b++) {
      bool p = true, q = true;
      for (size_t i = 0; i < t.size(); i++) { bool bit = (i >> b) & 1; p &= (bit == (t[i] != 0)); q &= (bit != (t[i] != 0)); }
      if (p) return mkExtract(idx, b, b);
      if (q) return mkNot(mkExtract(idx, b, b));
    }
    if (n <= 8 && !wholeIndex(idx)) {
      const Expr* r = mkFalse();
      for (size_t i = 0; i < t.size(); i++) if ((t[i] != 0) != inv) r = mkOr(r, mkEq(idx, mkConst(i, idx->w)));
      return inv ? mkNot(r) : r;
    }
  }
  if (w >= idx->w) {
    bool id = true; for (size_t i = 0; i < t.size(); i++) if (t[i] != i) { id = false; break; }
    if (id) return mkZExt(idx, w);
  }
  bool ptrs = w == 64; for (u128 v : t) if (v < (1u << 24)) { ptrs = false; break; }      // pointers stay a choice of targets
  if (w > 1 && w <= 64 && !ptrs) {      // every bit is constant or a bit of the index
    std::vector<int> src(w, -3); bool ok = true; std::vector<char> fe; for (size_t i = 0; i < t.size(); i++) fe.push_back(feasible(idx, i));
    for (unsigned j = 0; j < w && ok; j++) {
      bool z = true, o = true; for (size_t i = 0; i < t.size(); i++) if (fe[i]) { if ((t[i] >> j) & 1) z = false; else o = false; }
      if (z) { src[j] = -1; continue; } if (o) { src[j] = -2; continue; }
      for (unsigned b = 0; b < idx->w && src[j] == -3; b++) { bool same = true; for (size_t i = 0; i < t.size() && same; i++) if (fe[i]) same = ((t[i] >> j) & 1) == ((i >> b) & 1); if (same) src[j] = (int)b; }
      if (src[j] == -3) ok = false;
    }
    if (ok) {
      const Expr* r = nullptr;
      for (unsigned j = 0; j < w;) {
        unsigned n = 1; const Expr* p;
        if (src[j] < 0) { u128 c = src[j] == -2; while (j + n < w && src[j + n] < 0) { if (src[j + n] == -2) c |= (u128)1 << n; n++; } p = mkConst(c, n); }
        else { while (j + n < w && src[j + n] == src[j] + (int)n) n++; p = mkExtract(idx, src[j] + n - 1, src[j]); }
        r = r ? mkConcat(p, r) : p; j += n;
      }
      return r;
    }
  }
  return intern(K_TAB, w, tabId(t), 1, idx, nullptr, nullptr, 0);
}

static const Expr* absFP(Kind k, unsigned w, uint32_t aux, const Expr* a, const Expr* b) {
  // one unconstrained variable per syntactically distinct operation (over-approximation)
  char nm[96]; snprintf(nm, sizeof nm, "fp!%d_%u_%u_%u", (int)k, aux, a->id, b ? b->id : 0);
  return mkSym(nm, w, false);
}

static bool linear(const Expr* e) { return e->k == K_ADD || (e->k == K_MUL && isConst(e->ops[1])) || (e->k == K_ZEXT && linear(e->ops[0])); }
const Expr* mkBin(Kind k, const Expr* a, const Expr* b) {
  if (a->w != b->w) { fprintf(stderr, "mkBin width mismatch k=%d %u %u\n", k, a->w, b->w); abort(); }
  unsigned w = a->w;
  if (isConst(a) && isConst(b)) return mkConst(foldBin(k, a->c, b->c, w), isCmp(k) ? 1 : w);
  if (k >= K_FADD && k <= K_FREM) {
    if (comm(k) && a->id > b->id) std::swap(a, b);
    if (g_abstractFP) return absFP(k, w, 0, a, b);
    if (liftable(a) && isConst(b)) return lift(a, [&](const Expr* l) { return mkBin(k, l, b); });
    if (liftable(b) && isConst(a)) return lift(b, [&](const Expr* l) { return mkBin(k, a, l); });
    return intern(k, w, 0, 2, a, b, nullptr, 0);
  }
  if (comm(k) && (isConst(a) || (!isConst(b) && a->id > b->id))) std::swap(a, b);
  if (isConst(b) && liftable(a)) return lift(a, [&](const Expr* l) { return mkBin(k, l, b); });
  if (isConst(a) && liftable(b)) return lift(b, [&](const Expr* l) { return mkBin(k, a, l); });
  if (a->k == K_TAB && b->k == K_TAB && a->ops[0] == b->ops[0]) {
    std::vector<u128> r; for (size_t i = 0; i < g_tabs[a->aux].size(); i++) r.push_back(foldBin(k, g_tabs[a->aux][i], g_tabs[b->aux][i], w));
    return mkTab(a->ops[0], std::move(r), isCmp(k) ? 1 : w);
  }
  switch (k) {
    case K_ADD:
      if (isConst(b)) {
        if (b->c == 0) return a;
        if (a->k == K_ADD && isConst(a->ops[1])) return mkBin(K_ADD, a->ops[0], mkConst(a->ops[1]->c + b->c, w));
      } else {
        if (a->k == K_ADD && isConst(a->ops[1])) return mkBin(K_ADD, mkBin(K_ADD, a->ops[0], b), a->ops[1]);
        if (b->k == K_ADD && isConst(b->ops[1])) return mkBin(K_ADD, mkBin(K_ADD, a, b->ops[0]), b->ops[1]);
        if (b->k == K_SUB && b->ops[1] == a) return b->ops[0];
        if (a->k == K_SUB && a->ops[1] == b) return a->ops[0];
      }
      if (w == 1) return mkBin(K_XOR, a, b);
      break;
    case K_SUB:
      if (a == b) return mkConst(0, w);
      if (isConst(b)) return mkBin(K_ADD, a, mkConst((~b->c + 1), w));
      if (a->k == K_ADD) {
        if (a->ops[0] == b) return a->ops[1];
        if (a->ops[1] == b) return a->ops[0];
        if (isConst(a->ops[1])) {
          if (b->k == K_ADD && isConst(b->ops[1])) return mkBin(K_ADD, mkBin(K_SUB, a->ops[0], b->ops[0]), mkConst(a->ops[1]->c - b->ops[1]->c, w));
          return mkBin(K_ADD, mkBin(K_SUB, a->ops[0], b), a->ops[1]);
        }
      }
      if (b->k == K_ADD && isConst(b->ops[1])) return mkBin(K_ADD, mkBin(K_SUB, a, b->ops[0]), mkConst(~b->ops[1]->c + 1, w));
      if (w == 1) return mkBin(K_XOR, a, b);
      break;
    case K_MUL:
      if (isConst(b)) {
        if (b->c == 0) return b; if (b->c == 1) return a;
        u128 v = b->c; if ((v & (v - 1)) == 0) { unsigned s = 0; while (!((v >> s) & 1)) s++; return mkBin(K_SHL, a, mkConst(s, w)); }
        if (a->k == K_MUL && isConst(a->ops[1])) return mkBin(K_MUL, a->ops[0], mkConst(a->ops[1]->c * b->c, w));
      }
      break;
    case K_UDIV: case K_UREM:
      if (isConst(b) && b->c) {
        u128 v = b->c;
        if (v == 1) return k == K_UDIV ? a : mkConst(0, w);
        if ((v & (v - 1)) == 0) { unsigned s = 0; while (!((v >> s) & 1)) s++;
          if (k == K_UDIV) return mkBin(K_LSHR, a, mkConst(s, w));
          return mkBin(K_AND, a, mkConst(v - 1, w)); }
        unsigned z = hiZeros(a);
        if (z < w && maskW(w - z) < v) return k == K_UDIV ? mkConst(0, w) : a;
        if (z >= w) return mkConst(0, w);
        if (w <= 64 && (a->k == K_ADD || a->k == K_MUL || a->k == K_ZEXT || a->k == K_CONCAT)) if (const Expr* r = linDiv(k, a, v, w)) return r;
        // narrow
        if (z > 0) { unsigned nw = w - z; if (hiZeros(b) >= z) return mkZExt(mkBin(k, mkExtract(a, nw - 1, 0), mkExtract(b, nw - 1, 0)), w); }
      }
      break;
    case K_SDIV: case K_SREM:
      if (isConst(b)) {
        if (b->c == 1) return k == K_SDIV ? a : mkConst(0, w);
        if (hiZeros(a) > 0 && hiZeros(b) > 0 && b->c) return mkBin(k == K_SDIV ? K_UDIV : K_UREM, a, b);
      }
      break;
    case K_AND:
      if (a == b) return a;
      if (isConst(b)) {
        if (b->c == 0) return b; if (b->c == maskW(w)) return a;
        if (a->k == K_AND && isConst(a->ops[1])) return mkBin(K_AND, a->ops[0], mkConst(a->ops[1]->c & b->c, w));
        u128 v = b->c;
        if ((v & (v + 1)) == 0) { unsigned s = 0; while ((v >> s) & 1) s++; return mkZExt(mkExtract(a, s - 1, 0), w); }
        { // contiguous run: split into concat
          unsigned lo = 0; while (!((v >> lo) & 1)) lo++; u128 r = v >> lo;
          if ((r & (r + 1)) == 0) { unsigned s = 0; while ((r >> s) & 1) s++;
            const Expr* mid = mkExtract(a, lo + s - 1, lo);
            const Expr* e = mkConcat(mid, mkConst(0, lo)); return mkZExt(e, w); }
        }
      }
      if (w == 1) {
        if ((isNot(a) && a->ops[0] == b) || (isNot(b) && b->ops[0] == a)) return mkFalse();
        if (a->k == K_AND && (a->ops[0] == b || a->ops[1] == b)) return a;
        if (b->k == K_AND && (b->ops[0] == a || b->ops[1] == a)) return b;
      }
      break;
    case K_OR:
      if (a == b) return a;
      if (isConst(b)) { if (b->c == 0) return a; if (b->c == maskW(w)) return b; }
      if (w == 1) {
        if ((isNot(a) && a->ops[0] == b) || (isNot(b) && b->ops[0] == a)) return mkTrue();
        if (a->k == K_OR && (a->ops[0] == b || a->ops[1] == b)) return a;
        if (b->k == K_OR && (b->ops[0] == a || b->ops[1] == a)) return b;
      } else {
        // disjoint halves -> concat
        for (int t = 0; t < 2; t++) {
          const Expr *x = t ? b : a, *y = t ? a : b;     // y has low part only, x has zero low part
          if (x->k == K_CONCAT && isConst(x->ops[1]) && x->ops[1]->c == 0) {
            unsigned lw = x->ops[1]->w;
            if (hiZeros(y) >= w - lw) return mkConcat(x->ops[0], mkExtract(y, lw - 1, 0));
          }
          if (x->k == K_ZEXT && x->ops[0]->k == K_CONCAT && isConst(x->ops[0]->ops[1]) && x->ops[0]->ops[1]->c == 0) {
            unsigned lw = x->ops[0]->ops[1]->w;
            if (hiZeros(y) >= w - lw) return mkZExt(mkConcat(x->ops[0]->ops[0], mkExtract(y, lw - 1, 0)), w);
          }
        }
      }
      break;
    case K_XOR:
      if (a == b) return mkConst(0, w);
      if (isConst(b)) {
        if (b->c == 0) return a;
        if (a->k == K_XOR && isConst(a->ops[1])) return mkBin(K_XOR, a->ops[0], mkConst(a->ops[1]->c ^ b->c, w));
        if (w == 1 && b->c == 1) {      // not
          if (a->k == K_ULT) return mkBin(K_ULE, a->ops[1], a->ops[0]);
          if (a->k == K_ULE) return mkBin(K_ULT, a->ops[1], a->ops[0]);
          if (a->k == K_SLT) return mkBin(K_SLE, a->ops[1], a->ops[0]);
          if (a->k == K_SLE) return mkBin(K_SLT, a->ops[1], a->ops[0]);
        }
      }
      break;
    case K_SHL:
      if (isConst(b)) {
        if (b->c == 0) return a;
        if (b->c >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->c; return mkConcat(mkExtract(a, w - 1 - s, 0), mkConst(0, s));
      }
      if (isConst(a) && a->c == 0) return a;
      break;
    case K_LSHR:
      if (isConst(b)) {
        if (b->c == 0) return a;
        if (b->c >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->c; return mkZExt(mkExtract(a, w - 1, s), w);
      }
      if (isConst(a) && a->c == 0) return a;
      break;
    case K_ASHR:
      if (isConst(b)) {
        if (b->c == 0) return a;
        unsigned s = b->c >= w ? w - 1 : (unsigned)b->c; return mkSExt(mkExtract(a, w - 1, s), w);
      }
      break;
    case K_EQ:
      if (a == b) return mkTrue();
      if (isConst(b) && umax(a) < b->c) return mkFalse();
      if (w >= 8 && w <= 64 && (linear(a) || linear(b))) if (const Expr* r = linEq(a, b, w)) return r;
      if (isConst(b)) {
        if (w == 1) return b->c ? a : mkNot(a);
        switch (a->k) {
          case K_ZEXT: { unsigned n = a->ops[0]->w; if (b->c >> n) return mkFalse(); return mkEq(a->ops[0], mkConst(b->c, n)); }
          case K_SEXT: { unsigned n = a->ops[0]->w; u128 lo = b->c & maskW(n); if (((u128)sextW(lo, n) & maskW(w)) != b->c) return mkFalse(); return mkEq(a->ops[0], mkConst(lo, n)); }
          case K_CONCAT: { if (wholeIndex(a)) { std::vector<u128> t((size_t)1 << w, 0); t[(size_t)b->c] = 1; return intern(K_TAB, 1, tabId(t), 1, a, nullptr, nullptr, 0); }
            unsigned n = a->ops[1]->w; return mkAnd(mkEq(a->ops[0], mkConst(b->c >> n, a->ops[0]->w)), mkEq(a->ops[1], mkConst(b->c, n))); }
          case K_ADD: if (isConst(a->ops[1])) return mkEq(a->ops[0], mkConst(b->c - a->ops[1]->c, w)); break;
          case K_XOR: if (isConst(a->ops[1])) return mkEq(a->ops[0], mkConst(b->c ^ a->ops[1]->c, w)); break;
          case K_ITE:
            if (isConst(a->ops[1]) && a->ops[1]->c != b->c) return mkAnd(mkNot(a->ops[0]), mkEq(a->ops[2], b));
            if (isConst(a->ops[2]) && a->ops[2]->c != b->c) return mkAnd(a->ops[0], mkEq(a->ops[1], b));
            break;
          default: break;
        }
      } else {
        if (a->k == K_ZEXT && b->k == K_ZEXT && a->ops[0]->w == b->ops[0]->w) return mkEq(a->ops[0], b->ops[0]);
        if (a->k == K_SEXT && b->k == K_SEXT && a->ops[0]->w == b->ops[0]->w) return mkEq(a->ops[0], b->ops[0]);
        if (a->k == K_ADD && b->k == K_ADD) {
          if (a->ops[1] == b->ops[1]) return mkEq(a->ops[0], b->ops[0]);
          if (a->ops[0] == b->ops[0]) return mkEq(a->ops[1], b->ops[1]);
        }
      }
      break;
    case K_ULT:
      if (a == b) return mkFalse();
      if (isConst(b)) {
        if (b->c == 0) return mkFalse();
        if (umax(a) < b->c) return mkTrue();
        if (b->c == 1) return mkEq(a, mkConst(0, w));
        unsigned z = hiZeros(a); if (z && maskW(w - z) < b->c) return mkTrue();
        if (a->k == K_ZEXT) { unsigned n = a->ops[0]->w; if (b->c <= maskW(n)) return mkBin(K_ULT, a->ops[0], mkConst(b->c, n)); return mkTrue(); }
      }
      if (isConst(a)) {
        if (a->c == maskW(w) || umax(b) <= a->c) return mkFalse();
        if (a->c == 0) return mkNot(mkEq(b, mkConst(0, w)));
        if (b->k == K_ZEXT) { unsigned n = b->ops[0]->w; if (a->c > maskW(n)) return mkFalse(); return mkBin(K_ULT, mkConst(a->c, n), b->ops[0]); }
      }
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->ops[0]->w == b->ops[0]->w) return mkBin(K_ULT, a->ops[0], b->ops[0]);
      if (w == 1) return mkAnd(mkNot(a), b);
      break;
    case K_ULE:
      if (a == b) return mkTrue();
      if (isConst(b)) {
        if (b->c == maskW(w)) return mkTrue();
        return mkBin(K_ULT, a, mkConst(b->c + 1, w));
      }
      if (isConst(a)) { if (a->c == 0) return mkTrue(); return mkBin(K_ULT, mkConst(a->c - 1, w), b); }
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->ops[0]->w == b->ops[0]->w) return mkBin(K_ULE, a->ops[0], b->ops[0]);
      if (w == 1) return mkOr(mkNot(a), b);
      break;
    case K_SLT: case K_SLE:
      if (a == b) return k == K_SLE ? mkTrue() : mkFalse();
      if (w > 1 && hiZeros(a) && hiZeros(b)) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
      if (w > 1 && isConst(b) && hiZeros(a) && (b->c >> (w - 1))) return mkFalse();
      if (w > 1 && isConst(a) && hiZeros(b) && (a->c >> (w - 1))) return mkTrue();
      if (k == K_SLE) {
        if (isConst(b) && b->c == (maskW(w) >> 1)) return mkTrue();
        if (isConst(b)) return mkBin(K_SLT, a, mkConst(b->c + 1, w));
        if (isConst(a) && a->c == ((u128)1 << (w - 1))) return mkTrue();
        if (isConst(a)) return mkBin(K_SLT, mkConst(a->c - 1, w), b);
      }
      if (a->k == K_SEXT && b->k == K_SEXT && a->ops[0]->w == b->ops[0]->w) return mkBin(k, a->ops[0], b->ops[0]);
      if (a->k == K_SEXT && isConst(b)) { unsigned n = a->ops[0]->w; u128 lo = b->c & maskW(n); if (((u128)sextW(lo, n) & maskW(w)) == b->c) return mkBin(k, a->ops[0], mkConst(lo, n)); return (b->c >> (w - 1)) ? mkFalse() : mkTrue(); }
      if (b->k == K_SEXT && isConst(a)) { unsigned n = b->ops[0]->w; u128 lo = a->c & maskW(n); if (((u128)sextW(lo, n) & maskW(w)) == a->c) return mkBin(k, mkConst(lo, n), b->ops[0]); return (a->c >> (w - 1)) ? mkTrue() : mkFalse(); }
      break;
    case K_FEQ: case K_FLT: case K_FLE: break;
    default: fprintf(stderr, "mkBin bad kind %d\n", k); abort();
  }
  return intern(k, isCmp(k) ? 1 : w, 0, 2, a, b, nullptr, 0);
}

const Expr* mkIte(const Expr* c, const Expr* a, const Expr* b) {
  if (a->w != b->w) { fprintf(stderr, "mkIte width\n"); abort(); }
  if (isTrue(c)) return a;
  if (isFalse(c)) return b;
  if (a == b) return a;
  if (isNot(c)) return mkIte(c->ops[0], b, a);
  if (a->w == 1) {
    if (isTrue(a)) return mkOr(c, b);
    if (isFalse(a)) return mkAnd(mkNot(c), b);
    if (isTrue(b)) return mkOr(mkNot(c), a);
    if (isFalse(b)) return mkAnd(c, a);
  }
  if (c->k == K_EQ && isConst(c->ops[1]) && c->ops[0]->w <= 8 && isConst(a) && c->ops[0]->k != K_ZEXT) {
    const Expr* idx = c->ops[0]; size_t k = (size_t)c->ops[1]->c;
    if (b->k == K_TAB && b->ops[0] == idx) { std::vector<u128> t = g_tabs[b->aux]; t[k] = a->c; return mkTab(idx, std::move(t), a->w); }
    if (isConst(b)) { std::vector<u128> t((size_t)1 << idx->w, b->c); t[k] = a->c; return mkTab(idx, std::move(t), a->w); }
  }
  if (c->k == K_TAB && (isConst(a) || (a->k == K_TAB && a->ops[0] == c->ops[0])) && (isConst(b) || (b->k == K_TAB && b->ops[0] == c->ops[0]))) {
    std::vector<u128> t, &g = g_tabs[c->aux];
    for (size_t i = 0; i < g.size(); i++) { const Expr* x = g[i] ? a : b; t.push_back(isConst(x) ? x->c : g_tabs[x->aux][i]); }
    return mkTab(c->ops[0], std::move(t), a->w);
  }
  if (b->k == K_ITE) {
    if (b->ops[0] == c) return mkIte(c, a, b->ops[2]);
    if (b->ops[1] == a) return mkIte(mkOr(c, b->ops[0]), a, b->ops[2]);
  }
  if (a->k == K_ITE && a->ops[0] == c) return mkIte(c, a->ops[1], b);
  return intern(K_ITE, a->w, 0, 3, c, a, b, 0);
}

const Expr* mkConcat(const Expr* hi, const Expr* lo) {
  unsigned w = hi->w + lo->w;
  if (w > 128) { fprintf(stderr, "concat too wide\n"); abort(); }
  if (isConst(hi) && isConst(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  if (isConst(hi) && hi->c == 0) return mkZExt(lo, w);
  if (hi->k == K_EXTRACT) {
    const Expr* y = hi->ops[0]; unsigned h = hi->aux >> 16, l = hi->aux & 0xffff;
    if (l >= lo->w && mkExtract(y, l - 1, l - lo->w) == lo) return mkExtract(y, h, l - lo->w);
  }
  if (hi->k == K_ZEXT) return mkZExt(mkConcat(hi->ops[0], lo), w);
  if (hi->k == K_ITE && lo->k == K_ITE && hi->ops[0] == lo->ops[0]) return mkIte(hi->ops[0], mkConcat(hi->ops[1], lo->ops[1]), mkConcat(hi->ops[2], lo->ops[2]));
  if (lo->k == K_CONCAT && hi->k == K_EXTRACT && lo->ops[0]->k == K_EXTRACT && hi->ops[0] == lo->ops[0]->ops[0]) {
    unsigned l = hi->aux & 0xffff, h2 = lo->ops[0]->aux >> 16;
    if (l == h2 + 1) return mkConcat(mkConcat(hi, lo->ops[0]), lo->ops[1]);
  }
  if (lo->k == K_CONCAT && isConst(hi) && isConst(lo->ops[0])) return mkConcat(mkConcat(hi, lo->ops[0]), lo->ops[1]);
  return intern(K_CONCAT, w, 0, 2, hi, lo, nullptr, 0);
}

const Expr* mkExtract(const Expr* a, unsigned hi, unsigned lo) {
  unsigned w = hi - lo + 1;
  if (hi >= a->w || lo > hi) { fprintf(stderr, "bad extract %u %u of %u\n", hi, lo, a->w); abort(); }
  if (w == a->w) return a;
  if (isConst(a)) return mkConst(a->c >> lo, w);
  if (liftable(a)) return lift(a, [&](const Expr* l) { return mkExtract(l, hi, lo); });
  switch (a->k) {
    case K_EXTRACT: { unsigned l = a->aux & 0xffff; return mkExtract(a->ops[0], hi + l, lo + l); }
    case K_CONCAT: { unsigned n = a->ops[1]->w;
      if (hi < n) return mkExtract(a->ops[1], hi, lo);
      if (lo >= n) return mkExtract(a->ops[0], hi - n, lo - n);
      return mkConcat(mkExtract(a->ops[0], hi - n, 0), mkExtract(a->ops[1], n - 1, lo)); }
    case K_ZEXT: { unsigned n = a->ops[0]->w;
      if (hi < n) return mkExtract(a->ops[0], hi, lo);
      if (lo >= n) return mkConst(0, w);
      return mkZExt(mkExtract(a->ops[0], n - 1, lo), w); }
    case K_SEXT: { unsigned n = a->ops[0]->w;
      if (hi < n) return mkExtract(a->ops[0], hi, lo);
      if (lo < n && hi >= n) return mkSExt(mkExtract(a->ops[0], n - 1, lo), w);
      break; }
    case K_AND: case K_OR: case K_XOR: case K_ADD: case K_SUB: case K_MUL: {
      if (a->k >= K_ADD && a->k <= K_MUL && lo != 0) break;
      static std::unordered_map<uint64_t, const Expr*> memo;
      uint64_t key = ((uint64_t)a->id << 16) | (hi << 8) | lo;
      auto it = memo.find(key); if (it != memo.end()) return it->second;
      const Expr* r = mkBin(a->k, mkExtract(a->ops[0], hi, lo), mkExtract(a->ops[1], hi, lo));
      memo[key] = r; return r; }
    case K_ITE:
      if (isConst(a->ops[1]) || isConst(a->ops[2])) return mkIte(a->ops[0], mkExtract(a->ops[1], hi, lo), mkExtract(a->ops[2], hi, lo));
      break;
    default: break;
  }
  return intern(K_EXTRACT, w, (hi << 16) | lo, 1, a, nullptr, nullptr, 0);
}

const Expr* mkZExt(const Expr* a, unsigned w) {
  if (w == a->w) return a;
  if (w < a->w) { fprintf(stderr, "zext narrow\n"); abort(); }
  if (isConst(a)) return mkConst(a->c, w);
  if (a->k == K_ZEXT) return mkZExt(a->ops[0], w);
  if (liftable(a)) return lift(a, [&](const Expr* l) { return mkZExt(l, w); });
  return intern(K_ZEXT, w, 0, 1, a, nullptr, nullptr, 0);
}
const Expr* mkSExt(const Expr* a, unsigned w) {
  if (w == a->w) return a;
  if (isConst(a)) return mkConst((u128)sextW(a->c, a->w), w);
  if (a->k == K_SEXT) return mkSExt(a->ops[0], w);
  if (a->w > 1 && hiZeros(a) > 0) return mkZExt(a, w);
  if (liftable(a)) return lift(a, [&](const Expr* l) { return mkSExt(l, w); });
  return intern(K_SEXT, w, 0, 1, a, nullptr, nullptr, 0);
}
const Expr* mkF1(Kind k, const Expr* a, unsigned w, uint32_t aux) {
  if (isConst(a)) return mkConst(foldF1(k, a->c, a->w, w, aux), w);
  if (liftable(a)) return lift(a, [&](const Expr* l) { return mkF1(k, l, w, aux); });
  if (k == K_FCONV && a->w == w) return a;
  if (g_abstractFP && k != K_FNAN) return absFP(k, w, aux, a, nullptr);
  return intern(k, w, aux, 1, a, nullptr, nullptr, 0);
}

u128 evalExpr(const Expr* e, const Model& m) {
  if (e->k == K_CONST) return e->c;
  if (e->evalEpoch == m.epoch) return e->evalVal;
  u128 r;
  switch (e->k) {
    case K_SYM: { auto it = m.vals.find(e->aux); r = it == m.vals.end() ? 0 : it->second; break; }
    case K_TAB: r = g_tabs[e->aux][(size_t)evalExpr(e->ops[0], m)]; break;
    case K_ITE: r = evalExpr(e->ops[0], m) ? evalExpr(e->ops[1], m) : evalExpr(e->ops[2], m); break;
    case K_CONCAT: r = (evalExpr(e->ops[0], m) << e->ops[1]->w) | evalExpr(e->ops[1], m); break;
    case K_EXTRACT: r = (evalExpr(e->ops[0], m) >> (e->aux & 0xffff)) & maskW(e->w); break;
    case K_ZEXT: r = evalExpr(e->ops[0], m); break;
    case K_SEXT: r = (u128)sextW(evalExpr(e->ops[0], m), e->ops[0]->w) & maskW(e->w); break;
    case K_FSQRT: case K_FROUND: case K_FNAN: case K_FTOSI: case K_FTOUI: case K_SITOF: case K_UITOF: case K_FCONV:
      r = foldF1(e->k, evalExpr(e->ops[0], m), e->ops[0]->w, e->w, e->aux); break;
    case K_AND: { u128 a = evalExpr(e->ops[0], m); r = a ? (a & evalExpr(e->ops[1], m)) : 0; break; }
    default: r = foldBin(e->k, evalExpr(e->ops[0], m), evalExpr(e->ops[1], m), e->ops[0]->w);
  }
  e->evalEpoch = m.epoch; e->evalVal = r;
  return r;
}

const std::vector<uint32_t>& exprVars(const Expr* e) {
  static const std::vector<uint32_t> none;
  if (e->k == K_CONST) return none;
  if (e->vars) return *e->vars;
  std::vector<uint32_t> out;
  if (e->k == K_SYM) out.push_back(e->aux);
  else for (int i = 0; i < e->nops; i++) {
    const std::vector<uint32_t>& o = exprVars(e->ops[i]);
    if (out.empty()) out = o;
    else {
      std::vector<uint32_t> r; r.reserve(out.size() + o.size());
      size_t x = 0, y = 0;
      while (x < out.size() || y < o.size()) {
        if (y >= o.size() || (x < out.size() && out[x] < o[y])) r.push_back(out[x++]);
        else if (x >= out.size() || o[y] < out[x]) r.push_back(o[y++]);
        else { r.push_back(out[x++]); y++; }
      }
      out.swap(r);
    }
  }
  // share when equal to an operand's set
  for (int i = 0; i < e->nops; i++) if (e->ops[i]->vars && *e->ops[i]->vars == out) { e->vars = e->ops[i]->vars; return *e->vars; }
  e->vars = new std::vector<uint32_t>(std::move(out));
  return *e->vars;
}

std::string exprStr(const Expr* e, int d) {
  static const char* names[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","=","u<","u<=","s<","s<=","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","frem","fsqrt","fround","f=","f<","f<=","fnan","ftosi","ftoui","sitof","uitof","fconv","tab","agg"};
  if (e->k == K_CONST) { char b[64]; snprintf(b, 64, "%llu:%u", (unsigned long long)e->c, e->w); return b; }
  if (e->k == K_SYM) return g_syms[e->aux].name;
  if (d == 0) return "...";
  std::string s = std::string("(") + names[e->k];
  if (e->k == K_EXTRACT) s += "[" + std::to_string(e->aux >> 16) + ":" + std::to_string(e->aux & 0xffff) + "]";
  if (e->k == K_TAB) { s += "{"; for (size_t i = 0; i < g_tabs[e->aux].size() && i < 70; i++) s += std::to_string((unsigned long long)g_tabs[e->aux][i]) + ","; s += "}"; }
  for (int i = 0; i < e->nops; i++) s += " " + exprStr(e->ops[i], d - 1);
  return s + ")";
}

const Expr* replaceUninit(const Expr* e, int copy) {
  static std::unordered_map<const Expr*, const Expr*> memo[2];
  if (!e->hasUninit) return e; auto it = memo[copy].find(e); if (it != memo[copy].end()) return it->second;
  const Expr* r; const Expr* o[3] = {nullptr, nullptr, nullptr};
  if (e->k != K_SYM) for (int i = 0; i < e->nops; i++) o[i] = replaceUninit(e->ops[i], copy);
  switch (e->k) {
    case K_SYM: r = copy ? mkSym(g_syms[e->aux].name + "'", e->w, true, g_syms[e->aux].max) : mkConst(0, e->w); break;
    case K_TAB: r = mkTab(o[0], std::vector<u128>(g_tabs[e->aux]), e->w); break;
    case K_ITE: r = mkIte(o[0], o[1], o[2]); break;
    case K_CONCAT: r = mkConcat(o[0], o[1]); break;
    case K_EXTRACT: r = mkExtract(o[0], (e->aux & 0xffff) + e->w - 1, e->aux & 0xffff); break;
    case K_ZEXT: r = mkZExt(o[0], e->w); break;
    case K_SEXT: r = mkSExt(o[0], e->w); break;
    case K_FSQRT: case K_FROUND: case K_FNAN: case K_FTOSI: case K_FTOUI: case K_SITOF: case K_UITOF: case K_FCONV: r = mkF1(e->k, o[0], e->w, e->aux); break;
    default: r = mkBin(e->k, o[0], o[1]);
  }
  return memo[copy][e] = r;
}
