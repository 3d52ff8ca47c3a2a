// Hash-consed bit-vector / floating-point expressions with local simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <memory>
#include <cstdio>
#include <cstdlib>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum Kind : uint8_t {
  K_CONST, K_SYM,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
  K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT,
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FREM, K_FSQRT, K_FROUND,
  K_FEQ, K_FLT, K_FLE, K_FNAN,
  K_FTOSI, K_FTOUI, K_SITOF, K_UITOF, K_FCONV,
  K_TAB, K_AGG
};

struct Expr;
struct Val {              // a runtime value: concrete when e==nullptr
  uint64_t c; const Expr* e;
  Val(): c(0), e(nullptr) {}
  Val(uint64_t c): c(c), e(nullptr) {}
  Val(const Expr* e): c(0), e(e) {}
};

struct Expr {
  Kind k; uint8_t nops; uint16_t w; uint32_t aux; uint32_t id;
  int32_t sup = -1; const Expr* alt = nullptr;      // the only symbol in it (-1: none, -2: several); the form it collapsed to
  uint32_t leaves;            // number of constant leaves if an ITE tree of constants, else 0
  bool hasFP; bool hasUninit; bool hasMul;      // hasMul: wide multiplication or division
  const Expr* ops[3];
  u128 c;
  uint64_t hash;
  mutable uint32_t evalEpoch = 0; mutable u128 evalVal = 0;
  mutable int16_t hz = -1; mutable bool umKnown = false; mutable u128 um = 0;
  mutable void* z = nullptr;                        // Z3 ast
  mutable void* lit = nullptr; mutable uint32_t litGen = 0;
  mutable const std::vector<uint32_t>* vars = nullptr;
  std::vector<Val>* agg = nullptr;
};

struct SymInfo { std::string name; unsigned w; bool uninit; u128 max; };      // max: largest value, part of the variable's definition
extern std::vector<SymInfo> g_syms;

struct Model {
  uint32_t epoch;
  std::unordered_map<uint32_t, u128> vals;
  Model();
};
typedef std::shared_ptr<const Model> ModelP;

const Expr* mkConst(u128 v, unsigned w);
const Expr* mkSym(const std::string& name, unsigned w, bool uninit = false, u128 max = ~(u128)0);
u128 umax(const Expr* e);
const Expr* mkBin(Kind k, const Expr* a, const Expr* b);
const Expr* mkNot(const Expr* a);
const Expr* mkIte(const Expr* c, const Expr* a, const Expr* b);
const Expr* mkConcat(const Expr* hi, const Expr* lo);
const Expr* mkExtract(const Expr* a, unsigned hi, unsigned lo);
const Expr* mkZExt(const Expr* a, unsigned w);
const Expr* mkSExt(const Expr* a, unsigned w);
const Expr* mkF1(Kind k, const Expr* a, unsigned w, uint32_t aux = 0);
extern std::vector<std::vector<u128>> g_tabs;
const Expr* mkTab(const Expr* idx, std::vector<u128> t, unsigned w);   // t[idx], |t| == 2^idx.w, idx.w <= 8
unsigned trailZeros(const Expr* e);
unsigned highZeros(const Expr* e);
const Expr* mkAgg(std::vector<Val> v);
inline const Expr* mkEq(const Expr* a, const Expr* b) { return mkBin(K_EQ, a, b); }
inline const Expr* mkAnd(const Expr* a, const Expr* b) { return mkBin(K_AND, a, b); }
inline const Expr* mkOr(const Expr* a, const Expr* b) { return mkBin(K_OR, a, b); }
inline const Expr* mkTrue() { return mkConst(1, 1); }
inline const Expr* mkFalse() { return mkConst(0, 1); }
inline bool isConst(const Expr* e) { return e->k == K_CONST; }
inline bool isTrue(const Expr* e) { return e->k == K_CONST && e->w == 1 && e->c == 1; }
inline bool isFalse(const Expr* e) { return e->k == K_CONST && e->w == 1 && e->c == 0; }
u128 evalExpr(const Expr* e, const Model& m);
const std::vector<uint32_t>& exprVars(const Expr* e);
const Expr* replaceUninit(const Expr* e, int copy);   // 0: zeros, 1: other uninitialised values
std::string exprStr(const Expr* e, int depth = 6);
u128 foldBin(Kind k, u128 a, u128 b, unsigned w);   // w: operand width
u128 foldF1(Kind k, u128 a, unsigned wa, unsigned w, uint32_t aux);
inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sextW(u128 v, unsigned w) { if (w >= 128) return (s128)v; u128 s = (u128)1 << (w - 1); return (s128)((v ^ s)) - (s128)s; }
extern bool g_abstractFP;     // symbolic FP arithmetic becomes unconstrained variables (memoised)
