#include <bitset>
#include <atomic>
#include <thread>
#include <cstdlib>
#include <unistd.h>
#include "solver.h"
#include <z3.h>
#include <chrono>
#include <algorithm>
#include <set>
SolverStats g_ss;
unsigned g_timeoutMs = 60000;
static Z3_context ctx = nullptr;
static Z3_solver inc = nullptr;
static uint32_t incGen = 0; static unsigned incCount = 0;

static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }

static Z3_ast T(const Expr* e);
static Z3_sort bv(unsigned w) { static std::map<unsigned, Z3_sort> m; auto it = m.find(w); if (it != m.end()) return it->second; Z3_sort s = Z3_mk_bv_sort(ctx, w); return m[w] = s; }
static Z3_sort fs(unsigned w) { static Z3_sort f = nullptr, d = nullptr; if (!f) { f = Z3_mk_fpa_sort_single(ctx); d = Z3_mk_fpa_sort_double(ctx); } return w == 64 ? d : f; }
static Z3_ast rne() { static Z3_ast r = nullptr; if (!r) { r = Z3_mk_fpa_rne(ctx); } return r; }
static Z3_ast rtz() { static Z3_ast r = nullptr; if (!r) { r = Z3_mk_fpa_rtz(ctx); } return r; }
static Z3_ast FP(const Expr* e) { return Z3_mk_fpa_to_fp_bv(ctx, T(e), fs(e->w)); }
static Z3_ast num(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(ctx, (uint64_t)v, bv(w));
  std::string s; u128 t = v; if (!t) s = "0"; while (t) { s.insert(s.begin(), '0' + (int)(t % 10)); t /= 10; }
  return Z3_mk_numeral(ctx, s.c_str(), bv(w));
}
static void init() {
  if (ctx) return;
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);   // not the _rc variant: terms live as long as the context
  Z3_set_error_handler(ctx, errh);
}
// width-1 expressions are Bool, others bit-vectors
static Z3_ast T(const Expr* e) {
  if (e->z) return (Z3_ast)e->z;
  Z3_ast r = nullptr, a, b;
  auto B2 = [&](Z3_ast (*f)(Z3_context, Z3_ast, Z3_ast)) { a = T(e->ops[0]); b = T(e->ops[1]); return f(ctx, a, b); };
  bool b1 = e->nops && e->ops[0]->w == 1;
  auto asBV = [&](const Expr* x) { if (x->w != 1) return T(x); return Z3_mk_ite(ctx, T(x), num(1, 1), num(0, 1)); };
  switch (e->k) {
    case K_CONST: r = e->w == 1 ? (e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : num(e->c, e->w); break;
    case K_SYM: { std::string n = "v" + std::to_string(e->aux); Z3_symbol s = Z3_mk_string_symbol(ctx, n.c_str()); r = Z3_mk_const(ctx, s, e->w == 1 ? Z3_mk_bool_sort(ctx) : bv(e->w)); break; }
    case K_ADD: r = B2(Z3_mk_bvadd); break;
    case K_SUB: r = B2(Z3_mk_bvsub); break;
    case K_MUL: if (b1) { Z3_ast v[2] = {T(e->ops[0]), T(e->ops[1])}; r = Z3_mk_and(ctx, 2, v); } else r = B2(Z3_mk_bvmul); break;
    case K_UDIV: r = B2(Z3_mk_bvudiv); break;
    case K_SDIV: r = B2(Z3_mk_bvsdiv); break;
    case K_UREM: r = B2(Z3_mk_bvurem); break;
    case K_SREM: r = B2(Z3_mk_bvsrem); break;
    case K_AND: if (b1) { Z3_ast v[2] = {T(e->ops[0]), T(e->ops[1])}; r = Z3_mk_and(ctx, 2, v); } else r = B2(Z3_mk_bvand); break;
    case K_OR: if (b1) { Z3_ast v[2] = {T(e->ops[0]), T(e->ops[1])}; r = Z3_mk_or(ctx, 2, v); } else r = B2(Z3_mk_bvor); break;
    case K_XOR: if (b1) { if (e->ops[1]->k == K_CONST) r = e->ops[1]->c ? Z3_mk_not(ctx, T(e->ops[0])) : T(e->ops[0]); else r = B2(Z3_mk_xor); } else r = B2(Z3_mk_bvxor); break;
    case K_SHL: r = B2(Z3_mk_bvshl); break;
    case K_LSHR: r = B2(Z3_mk_bvlshr); break;
    case K_ASHR: r = B2(Z3_mk_bvashr); break;
    case K_EQ: r = B2(Z3_mk_eq); break;
    case K_ULT: r = B2(Z3_mk_bvult); break;
    case K_ULE: r = B2(Z3_mk_bvule); break;
    case K_SLT: r = B2(Z3_mk_bvslt); break;
    case K_SLE: r = B2(Z3_mk_bvsle); break;
    case K_ITE: r = Z3_mk_ite(ctx, T(e->ops[0]), T(e->ops[1]), T(e->ops[2])); break;
    case K_CONCAT: r = Z3_mk_concat(ctx, asBV(e->ops[0]), asBV(e->ops[1])); break;
    case K_EXTRACT: r = Z3_mk_extract(ctx, e->aux >> 16, e->aux & 0xffff, T(e->ops[0])); if (e->w == 1) r = Z3_mk_eq(ctx, r, num(1, 1)); break;
    case K_ZEXT: if (b1) r = Z3_mk_ite(ctx, T(e->ops[0]), num(1, e->w), num(0, e->w)); else r = Z3_mk_zero_ext(ctx, e->w - e->ops[0]->w, T(e->ops[0])); break;
    case K_SEXT: if (b1) r = Z3_mk_ite(ctx, T(e->ops[0]), num(maskW(e->w), e->w), num(0, e->w)); else r = Z3_mk_sign_ext(ctx, e->w - e->ops[0]->w, T(e->ops[0])); break;
    case K_FADD: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rne(), FP(e->ops[0]), FP(e->ops[1]))); break;
    case K_FSUB: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rne(), FP(e->ops[0]), FP(e->ops[1]))); break;
    case K_FMUL: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rne(), FP(e->ops[0]), FP(e->ops[1]))); break;
    case K_FDIV: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rne(), FP(e->ops[0]), FP(e->ops[1]))); break;
    case K_FSQRT: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sqrt(ctx, rne(), FP(e->ops[0]))); break;
    case K_FROUND: { Z3_ast m = e->aux == 0 ? Z3_mk_fpa_rna(ctx) : e->aux == 1 ? Z3_mk_fpa_rtn(ctx) : e->aux == 2 ? Z3_mk_fpa_rtp(ctx) : e->aux == 3 ? rtz() : rne();
      r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_round_to_integral(ctx, m, FP(e->ops[0]))); break; }
    case K_FEQ: r = Z3_mk_fpa_eq(ctx, FP(e->ops[0]), FP(e->ops[1])); break;
    case K_FLT: r = Z3_mk_fpa_lt(ctx, FP(e->ops[0]), FP(e->ops[1])); break;
    case K_FLE: r = Z3_mk_fpa_leq(ctx, FP(e->ops[0]), FP(e->ops[1])); break;
    case K_FNAN: r = Z3_mk_fpa_is_nan(ctx, FP(e->ops[0])); break;
    case K_FTOSI: r = Z3_mk_fpa_to_sbv(ctx, rtz(), FP(e->ops[0]), e->w); break;
    case K_FTOUI: r = Z3_mk_fpa_to_ubv(ctx, rtz(), FP(e->ops[0]), e->w); break;
    case K_SITOF: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rne(), asBV(e->ops[0]), fs(e->w))); break;
    case K_UITOF: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rne(), asBV(e->ops[0]), fs(e->w))); break;
    case K_FCONV: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rne(), FP(e->ops[0]), fs(e->w))); break;
    case K_TAB: {
      const std::vector<u128>& t = g_tabs[e->aux]; Z3_ast ix = T(e->ops[0]); unsigned iw = e->ops[0]->w;
      auto K = [&](u128 v) { return e->w == 1 ? (v ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : num(v, e->w); };
      std::map<uint64_t, size_t> cnt; for (u128 v : t) cnt[(uint64_t)v]++;
      uint64_t best = 0; size_t bc = 0; for (auto& p : cnt) if (p.second > bc) { bc = p.second; best = p.first; }
      if (e->w <= 64 && t.size() - bc <= 12) {
        r = K(best);
        for (size_t i = 0; i < t.size(); i++) if ((uint64_t)t[i] != best) r = Z3_mk_ite(ctx, iw == 1 ? (i ? ix : Z3_mk_not(ctx, ix)) : Z3_mk_eq(ctx, ix, num(i, iw)), K(t[i]), r);
      } else {
        std::vector<Z3_ast> lv; for (u128 v : t) lv.push_back(K(v));
        for (unsigned bpos = 0; bpos < iw; bpos++) {
          Z3_ast bit = iw == 1 ? ix : Z3_mk_eq(ctx, Z3_mk_extract(ctx, bpos, bpos, ix), num(1, 1));
          std::vector<Z3_ast> nx;
          for (size_t i = 0; i < lv.size(); i += 2) nx.push_back(lv[i] == lv[i + 1] ? lv[i] : Z3_mk_ite(ctx, bit, lv[i + 1], lv[i]));
          lv.swap(nx);
        }
        r = lv[0];
      }
      break; }
    default: fprintf(stderr, "toZ3: kind %d\n", e->k); abort();
  }
  
  e->z = r;
  return r;
}

static ModelP getModel(Z3_solver s, const std::vector<const Expr*>& cs) {
  Z3_model m = Z3_solver_get_model(ctx, s);
  Z3_model_inc_ref(ctx, m);
  auto out = std::make_shared<Model>();
  for (auto c : cs) for (uint32_t v : exprVars(c)) {
    if (out->vals.count(v)) continue;
    const Expr* se = mkSym(g_syms[v].name, g_syms[v].w, g_syms[v].uninit, g_syms[v].max);
    Z3_ast val = nullptr;
    u128 x = 0;
    if (Z3_model_eval(ctx, m, T(se), true, &val) && val) {
      
      if (g_syms[v].w == 1) x = Z3_get_bool_value(ctx, val) == Z3_L_TRUE;
      else { const char* str = Z3_get_numeral_string(ctx, val); for (; *str; str++) x = x * 10 + (*str - '0'); }
    }
    out->vals[v] = x;
  }
  Z3_model_dec_ref(ctx, m);
  return out;
}

struct KeyHash { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
static std::unordered_map<std::vector<uint32_t>, std::pair<SatRes, ModelP>, KeyHash> cache;
static std::vector<ModelP> recent;

static std::vector<uint32_t> boundGen;
static Z3_ast bound(uint32_t v) {      // the range that is part of a variable's definition
  const SymInfo& i = g_syms[v]; if (i.w == 1 || i.max >= maskW(i.w)) return nullptr;
  return Z3_mk_bvule(ctx, T(mkSym(i.name, i.w, i.uninit, i.max)), num(i.max, i.w));
}
// stops a query that outlives its time limit or the end of the run
static std::atomic<double> qEnd{0};
double g_deadline = 1e18;
static double tick() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void watch() {
  static bool on = false; if (on) return; on = true;
  std::thread([] { for (;;) { std::this_thread::sleep_for(std::chrono::milliseconds(100)); double e = qEnd; if (e > 0 && tick() > e) Z3_interrupt(ctx); if (tick() > g_deadline + 15) { fprintf(stderr, "time over\n"); _exit(3); } } }).detach();
}
static Z3_lbool timed(Z3_solver s, const std::vector<Z3_ast>& as, double limit = 1e9) {
  watch(); qEnd = std::min(tick() + std::min(limit, g_timeoutMs / 1000.0 + 1), g_deadline + 2);
  Z3_lbool r = as.empty() ? Z3_solver_check(ctx, s) : Z3_solver_check_assumptions(ctx, s, as.size(), as.data());
  qEnd = 0; return r;
}
SatRes solve(const std::vector<const Expr*>& cs0, ModelP* model) {
  init();
  g_ss.queries++;
  std::vector<const Expr*> cs;
  for (auto c : cs0) { if (isTrue(c)) continue; if (isFalse(c)) return UNSAT; cs.push_back(c); }
  std::sort(cs.begin(), cs.end(), [](const Expr* a, const Expr* b) { return a->id < b->id; });
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  if (cs.empty()) { if (model) *model = std::make_shared<Model>(); return SAT; }
  std::vector<uint32_t> key; for (auto c : cs) key.push_back(c->id);
  auto it = cache.find(key);
  if (it != cache.end()) { g_ss.cacheHits++; if (model) *model = it->second.second; return it->second.first; }
  bool fp = false; for (auto c : cs) fp |= c->hasFP;
  for (int i = (int)recent.size() - 1; i >= 0; i--) {
    bool ok = true;
    for (auto c : cs) if (!evalExpr(c, *recent[i])) { ok = false; break; }
    if (ok) {
      g_ss.modelHits++;
      ModelP m = recent[i];
      cache[key] = {SAT, m}; if (model) *model = m; return SAT;
    }
  }
  auto t0 = std::chrono::steady_clock::now();
  SatRes res; ModelP m;
  g_ss.z3calls++;
  bool mul = false; for (auto c : cs) mul |= c->hasMul;
  auto fresh = [&]() {
    Z3_solver s;
    if (fp) { g_ss.fpcalls++; Z3_tactic t = Z3_mk_tactic(ctx, "qffpbv"); Z3_tactic_inc_ref(ctx, t); s = Z3_mk_solver_from_tactic(ctx, t); }
    else s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), g_timeoutMs);
    Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
    for (auto c : cs) Z3_solver_assert(ctx, s, T(c));
    { std::set<uint32_t> vs; for (auto c : cs) for (uint32_t v : exprVars(c)) vs.insert(v); for (uint32_t v : vs) if (Z3_ast b = bound(v)) Z3_solver_assert(ctx, s, b); }
    Z3_lbool r = timed(s, {});
    res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
    if (res == SAT) m = getModel(s, cs);
    Z3_solver_dec_ref(ctx, s);
  };
  auto guess = [&]() {       // most of these have many solutions
    static uint64_t st = 88172645463325252ull; std::set<uint32_t> vs; for (auto c : cs) for (uint32_t v : exprVars(c)) vs.insert(v);
    for (int t = 0; t < 400; t++) {
      auto g = std::make_shared<Model>();
      for (uint32_t v : vs) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; u128 r = ((u128)st * 0x9E3779B97F4A7C15ull >> 20) & maskW(g_syms[v].w); if (r > g_syms[v].max) r %= g_syms[v].max + 1; g->vals[v] = r; }
      bool ok = true; for (auto c : cs) if (!evalExpr(c, *g)) { ok = false; break; }
      if (ok) { res = SAT; m = g; return true; }
    }
    return false;
  };
  if (!fp && mul && guess()) g_ss.modelHits++;
  else if (fp || mul) fresh();
  else {
    if (!inc || incCount > 4000) {
      if (inc) Z3_solver_dec_ref(ctx, inc);
      inc = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
      Z3_solver_inc_ref(ctx, inc);
      Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
      Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), g_timeoutMs);
      Z3_solver_set_params(ctx, inc, p); Z3_params_dec_ref(ctx, p);
      incGen++; incCount = 0;
      Z3_solver_push(ctx, inc);
    }
    std::vector<Z3_ast> as;
    for (auto c : cs) {
      if (!c->lit) {
        std::string n = "lit" + std::to_string(c->id);
        Z3_ast l = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bool_sort(ctx));
        c->lit = l; c->litGen = 0;
      }
      if (c->litGen != incGen) for (uint32_t v : exprVars(c)) { if (boundGen.size() <= v) boundGen.resize(v + 1, 0); if (boundGen[v] != incGen) { boundGen[v] = incGen; if (Z3_ast b = bound(v)) Z3_solver_assert(ctx, inc, b); } }
      if (c->litGen != incGen) { Z3_solver_assert(ctx, inc, Z3_mk_implies(ctx, (Z3_ast)c->lit, T(c))); c->litGen = incGen; incCount++; }
      as.push_back((Z3_ast)c->lit);
    }
    Z3_lbool r = timed(inc, as, 4);
    res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
    if (res == SAT) m = getModel(inc, cs);
    if (res == UNKNOWN) { Z3_solver_dec_ref(ctx, inc); inc = nullptr; fresh(); }
  }
  g_ss.time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  static const char* slow = getenv("SX_SLOW");
  if (slow && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > atof(slow)) { fprintf(stderr, "slow query (%d, %.1fs):\n", (int)res, std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count()); for (auto c : cs) fprintf(stderr, "   %s\n", exprStr(c, 9).substr(0, 1500).c_str()); }
  if (res == SAT) {
    g_ss.sat++;
    for (auto c : cs) if (!evalExpr(c, *m)) {
      // a model that our own evaluator rejects: never trust it
      fprintf(stderr, "solver model rejected by evaluator: %s\n", exprStr(c, 5).c_str());
      res = UNKNOWN; break;
    }
  }
  if (res == UNKNOWN) g_ss.unknown++;
  if (res == UNSAT) g_ss.unsat++;
  if (res == SAT) { recent.push_back(m); if (recent.size() > 12) recent.erase(recent.begin()); }
  if (res != UNKNOWN) cache[key] = {res, m};
  if (model) *model = m;
  return res;
}

// sets the input bits an expression of concatenations and extracts is made of so that it has the value v
static bool assignBits(const Expr* e, u128 v, Model& m) {
  if (e->k == K_CONST) return e->c == v;
  if (e->k == K_CONCAT) return assignBits(e->ops[1], v & maskW(e->ops[1]->w), m) && assignBits(e->ops[0], v >> e->ops[1]->w, m);
  if (e->k == K_ZEXT) return !(v >> e->ops[0]->w) && assignBits(e->ops[0], v, m);
  const Expr* y = e; unsigned lo = 0; if (e->k == K_EXTRACT) { y = e->ops[0]; lo = e->aux & 0xffff; }
  if (y->k != K_SYM) return false;
  u128 old = m.vals.count(y->aux) ? m.vals[y->aux] : 0, mask = maskW(e->w) << lo; u128 n = (old & ~mask) | (v << lo); if (n > g_syms[y->aux].max) return false; m.vals[y->aux] = n; return true;
}
static bool touches(const Expr* e, const std::set<uint32_t>& f) { for (uint32_t v : exprVars(e)) if (f.count(v)) return true; return false; }
// makes c come out as want by assigning inputs not fixed so far (a guess: the caller evaluates everything afterwards)
static bool repair(const Expr* c, bool want, std::shared_ptr<Model>& g, std::set<uint32_t>& fixed) {
  if ((evalExpr(c, *g) != 0) == want) { return true; }
  if (c->k == K_XOR && c->w == 1 && isTrue(c->ops[1])) return repair(c->ops[0], !want, g, fixed);
  if (c->k == K_AND && c->w == 1) { if (want) return repair(c->ops[0], true, g, fixed) && repair(c->ops[1], true, g, fixed); return repair(c->ops[0], false, g, fixed) || repair(c->ops[1], false, g, fixed); }
  if (c->k == K_OR && c->w == 1) { if (!want) return repair(c->ops[0], false, g, fixed) && repair(c->ops[1], false, g, fixed); return repair(c->ops[0], true, g, fixed) || repair(c->ops[1], true, g, fixed); }
  if (c->k == K_EQ && want) for (int i = 1; i >= 0; i--) {
    const Expr* x = c->ops[i]; const Expr* y = c->ops[1 - i]; if (isConst(x) || touches(x, fixed)) continue;
    u128 v = evalExpr(y, *g); auto n = std::make_shared<Model>(); n->vals = g->vals; if (!assignBits(x, v, *n)) continue;
    for (uint32_t q : exprVars(x)) fixed.insert(q); for (uint32_t q : exprVars(y)) fixed.insert(q); g = n; return true;
  }
  return false;
}
static ModelP nearby(const std::vector<const Expr*>& cs, const Expr* goal, const ModelP& base) {       // the base model with only the goal's index changed
  const Expr* goal0 = goal; bool inv = false; if (goal->k == K_XOR && goal->w == 1 && isTrue(goal->ops[1])) { inv = true; goal = goal->ops[0]; }
  std::vector<u128> want; const Expr* ix = nullptr;
  if (goal->k == K_TAB && goal->w == 1) { ix = goal->ops[0]; auto& t = g_tabs[goal->aux]; for (size_t k = 0; k < t.size(); k++) if ((t[k] != 0) != inv) want.push_back(k); }
  else if (goal->k == K_EQ && isConst(goal->ops[1]) && goal->ops[0]->w > 1) { ix = goal->ops[0]; if (!inv) want.push_back(goal->ops[1]->c); else for (int k = 0; k < 3; k++) want.push_back((goal->ops[1]->c + 1 + k) & maskW(ix->w)); }
  if (!ix) return nullptr;
  size_t step = want.size() > 4 ? want.size() / 4 : 1;
  for (size_t i = 0; i < want.size(); i += step) {
    auto g = std::make_shared<Model>(); g->vals = base->vals; if (!assignBits(ix, want[i], *g)) continue;
    std::set<uint32_t> fixed(exprVars(goal0).begin(), exprVars(goal0).end());
    for (int pass = 0; pass < 3; pass++) {
      bool ok = true, can = true; for (auto c : cs) if (!evalExpr(c, *g)) { ok = false; if (!repair(c, true, g, fixed)) { can = false; break; } }
      if (ok) return g; if (!can) break;
    }
  }
  return nullptr;
}
// bytes of input: what the constraints on single bytes leave of each; 0 no value for one of them, 1 *out holds a solution, -1 not settled
typedef std::bitset<256> Dom;
static const Dom& domOf(const Expr* c, uint32_t v) {
  static std::unordered_map<uint32_t, Dom> memo; auto it = memo.find(c->id); if (it != memo.end()) return it->second;
  Dom d; Model m; for (int i = 0; i < 256; i++) { if (i) { Model f; m.epoch = f.epoch; } m.vals[v] = i; if ((u128)i <= g_syms[v].max && evalExpr(c, m)) d.set(i); }
  return memo[c->id] = d;
}
static int byteDomains(const std::vector<const Expr*>& cs, const ModelP& base, ModelP* out) {
  std::vector<const Expr*> todo = cs, single; bool rest = false;
  while (!todo.empty()) {
    const Expr* c = todo.back(); todo.pop_back();
    if (c->k == K_AND && c->w == 1) { todo.push_back(c->ops[0]); todo.push_back(c->ops[1]); continue; }
    const auto& v = exprVars(c); if (v.size() == 1 && g_syms[v[0]].w == 8 && !c->hasFP) { single.push_back(c); continue; }
    if (c->k == K_EQ && isConst(c->ops[1])) {
      const Expr* e = c->ops[0]; u128 k = c->ops[1]->c;
      if (e->k == K_TAB) { auto& t = g_tabs[e->aux]; int at = -1, n = 0; for (size_t i = 0; i < t.size(); i++) if (t[i] == k) { at = (int)i; n++; } if (!n) return 0; if (n == 1) { todo.push_back(mkEq(e->ops[0], mkConst(at, e->ops[0]->w))); continue; } }
      if (e->k == K_CONCAT) { unsigned w = e->ops[1]->w; todo.push_back(mkEq(e->ops[0], mkConst(k >> w, e->ops[0]->w))); todo.push_back(mkEq(e->ops[1], mkConst(k & maskW(w), w))); continue; }
    }
    if (c->k == K_TAB && c->w == 1) { auto& t = g_tabs[c->aux]; int at = -1, n = 0; for (size_t i = 0; i < t.size(); i++) if (t[i]) { at = (int)i; n++; } if (n == 1) { todo.push_back(mkEq(c->ops[0], mkConst(at, c->ops[0]->w))); if (todo.back() == c) { todo.pop_back(); rest = true; } continue; } }
    rest = true;
  }
  if (single.empty()) return -1;
  std::map<uint32_t, Dom> dom; for (auto c : single) { uint32_t v = exprVars(c)[0]; auto it = dom.find(v); if (it == dom.end()) dom[v] = domOf(c, v); else it->second &= domOf(c, v); }
  for (auto& d : dom) if (d.second.none()) return 0;
  if (!base) return -1;
  static uint64_t st = 0x853c49e6748fea9bull; auto rnd = [&]() { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st >> 11; };
  for (int t = 0; t < (rest ? 24 : 1); t++) {
    auto g = std::make_shared<Model>(); g->vals = base->vals;
    for (auto& d : dom) { auto it = g->vals.find(d.first); unsigned cur = it == g->vals.end() ? 0 : (unsigned)it->second; if (d.second[cur] && (t == 0 || rnd() & 1)) continue; unsigned n = d.second.count(), k = rnd() % n, i = 0; for (;; i++) if (d.second[i] && !k--) break; g->vals[d.first] = i; }
    bool ok = true; for (auto c : cs) if (!evalExpr(c, *g)) { ok = false; break; }
    if (ok) { *out = g; return 1; }
  }
  return -1;
}
SatRes solvePC(const std::vector<const Expr*>& pc, const Expr* goal, const ModelP& base, ModelP* out) {
  if (isFalse(goal)) return UNSAT;
  std::vector<char> used(pc.size(), 0);
  std::vector<const Expr*> cs{goal};
  std::set<uint32_t> vs(exprVars(goal).begin(), exprVars(goal).end());
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) {
      if (used[i]) continue;
      const auto& v = exprVars(pc[i]);
      bool hit = false;
      for (auto x : v) if (vs.count(x)) { hit = true; break; }
      if (hit) { used[i] = 1; cs.push_back(pc[i]); vs.insert(v.begin(), v.end()); ch = true; }
    }
  }
  if (base) if (ModelP g = nearby(cs, goal, base)) { g_ss.queries++; g_ss.modelHits++; if (out) *out = g; return SAT; }
  { ModelP g; int r = byteDomains(cs, base, &g); if (r == 0) { g_ss.queries++; g_ss.unsat++; return UNSAT; } if (r == 1) { g_ss.queries++; g_ss.modelHits++; if (out) *out = g; return SAT; } }
  // what several tables (or comparisons) over the same short index leave of it
  { struct G { std::vector<char> ok; std::vector<size_t> at; }; std::map<uint32_t, std::pair<const Expr*, G>> by;
    for (size_t i = 0; i < cs.size(); i++) {
      const Expr* c = cs[i]; bool inv = false; if (c->k == K_XOR && c->w == 1 && isTrue(c->ops[1])) { inv = true; c = c->ops[0]; }
      const Expr* ix = nullptr; if (c->k == K_TAB && c->w == 1) ix = c->ops[0]; else if (c->k == K_EQ && isConst(c->ops[1]) && c->ops[0]->w > 1 && c->ops[0]->w <= 8) ix = c->ops[0];
      if (!ix) continue;
      auto& g = by[ix->id]; g.first = ix; size_t n = (size_t)1 << ix->w; if (g.second.ok.empty()) g.second.ok.assign(n, 1);
      for (size_t k = 0; k < n; k++) { bool t = c->k == K_TAB ? g_tabs[c->aux][k] != 0 : c->ops[1]->c == k; if (t == inv) g.second.ok[k] = 0; }
      g.second.at.push_back(i);
    }
    bool drop = false;
    for (auto& p : by) { auto& g = p.second.second; if (g.at.size() < 2) continue;
      std::vector<u128> t; bool any = false; for (char o : g.ok) { t.push_back(o); any |= o != 0; } if (!any) return UNSAT;
      for (size_t i : g.at) cs[i] = mkTrue(); cs[g.at[0]] = mkTab(p.second.first, t, 1); drop = true; }
    if (drop) { std::vector<const Expr*> r; for (auto c : cs) if (!isTrue(c)) r.push_back(c); cs.swap(r); }
  }
  ModelP m;
  SatRes r = solve(cs, &m);
  if (r == SAT && out) {
    auto n = std::make_shared<Model>();
    n->vals = base->vals;
    for (auto v : vs) { auto it = m->vals.find(v); n->vals[v] = it == m->vals.end() ? 0 : it->second; }
    *out = n;
  }
  return r;
}
