// Symbolic executor over LLVM IR.  Explores every feasible path of one entry function of a module made from
// the real source plus a harness; forks on symbolic branches, resolves symbolic addresses, checks memory safety
// and the harness' assertions with an SMT solver.
#include "expr.h"
#include "solver.h"
#include "mem.h"
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/Transforms/IPO/Inliner.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/Utils/LowerSwitch.h>
#include <llvm/Transforms/InstCombine/InstCombine.h>
#include <chrono>
#include <deque>
#include <map>
#include <set>
#include <regex>
#include <unordered_set>
#include <unistd.h>
#include <sys/resource.h>
using namespace llvm;
typedef uint64_t u64; typedef uint32_t u32;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
[[noreturn]] static void fatal(const std::string& m) { fprintf(stderr, "FATAL: %s\n", m.c_str()); _exit(3); }

// ---------------------------------------------------------------- types and decoded code
struct TyD { int kind; unsigned w; u64 size; std::vector<std::pair<u64, TyD*>> f; };   // kind 0 scalar, 1 aggregate, 2 void
static LLVMContext* C; static Module* M; static const DataLayout* DL;
static std::map<Type*, TyD*> tyCache;
static TyD* ty(Type* t) {
  auto it = tyCache.find(t); if (it != tyCache.end()) return it->second;
  TyD* d = new TyD(); d->kind = 0; d->w = 0; d->size = 0;
  if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) d->kind = 2;
  else if (t->isIntegerTy()) { d->w = t->getIntegerBitWidth(); d->size = DL->getTypeStoreSize(t); }
  else if (t->isPointerTy()) { d->w = 64; d->size = 8; }
  else if (t->isDoubleTy()) { d->w = 64; d->size = 8; }
  else if (t->isFloatTy()) { d->w = 32; d->size = 4; }
  else if (auto* st = dyn_cast<StructType>(t)) {
    d->kind = 1;
    if (!st->isOpaque()) { d->size = DL->getTypeAllocSize(t); const StructLayout* sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) d->f.push_back({(u64)sl->getElementOffset(i), ty(st->getElementType(i))}); }
  } else if (auto* at = dyn_cast<ArrayType>(t)) {
    d->kind = 1; d->size = DL->getTypeAllocSize(t); TyD* e = ty(at->getElementType()); u64 es = DL->getTypeAllocSize(at->getElementType());
    if (at->getNumElements() <= 64) for (u64 i = 0; i < at->getNumElements(); i++) d->f.push_back({i * es, e});
  } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    d->kind = 1; d->size = DL->getTypeAllocSize(t); TyD* e = ty(vt->getElementType()); u64 es = DL->getTypeStoreSize(vt->getElementType());
    for (u64 i = 0; i < vt->getNumElements(); i++) d->f.push_back({i * es, e});
  } else { d->kind = 3; d->w = 80; d->size = DL->getTypeAllocSize(t); }
  return tyCache[t] = d;
}

enum Op : uint16_t { O_BIN, O_FBIN, O_ICMP, O_FCMP, O_FNEG, O_CAST, O_ALLOCA, O_LOAD, O_STORE, O_GEP, O_SELECT, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL,
  O_LPAD, O_RESUME, O_UNREACH, O_EXTRV, O_INSV, O_FREEZE, O_RMW, O_CMPX, O_UNSUP, O_EXTE, O_INSE };
enum Cast { C_TRUNC, C_ZEXT, C_SEXT, C_NOP, C_FTOSI, C_FTOUI, C_SITOF, C_UITOF, C_FCONV };
struct Edge { u32 pc; std::vector<std::pair<int, int>> copies; };
struct Ins { Op op; uint8_t sub; uint16_t w, w2; int dst, a, b, c; u32 x; const Instruction* I; TyD* t; u32 line; };
struct GepX { u64 off; std::vector<std::tuple<int, unsigned, u64>> idx; };
struct DiaX { const BasicBlock* join; u32 joinPc; };                     // both sides of a branch meet again after plain code
struct SwX { std::vector<std::pair<u64, u32>> cases; u32 def; };    // edges
struct Fn;
struct CallX { Fn* callee = nullptr; int bi = -1; int calleeOp = 0; std::vector<int> args; std::vector<unsigned> aw; std::vector<u64> byval; bool invoke = false; u32 normal = 0, unwind = 0; bool merge = false; std::string name; };
struct LpX { bool cleanup; std::vector<std::pair<bool, u64>> clauses; bool filter = false; };
struct AggX { std::vector<unsigned> idx; };
struct Fn {
  Function* F; std::string name, dem; bool decoded = false; unsigned nregs = 0, nargs = 0;
  std::vector<Ins> code; std::vector<Val> consts; std::vector<Edge> edges; std::vector<GepX> geps; std::vector<SwX> sws; std::vector<CallX> calls; std::vector<LpX> lps; std::vector<AggX> aggs; std::vector<DiaX> dias; std::unordered_map<const PHINode*, int> phiReg;
  std::vector<std::pair<int, u64>> byvalArgs; bool mergeFn = false; u64 execs = 0; bool inRepo = false; u64 id = 0; std::string file;
};
static std::map<Function*, Fn*> fnMap; static std::vector<Fn*> fnList;
static std::vector<std::regex> mergeRe;
static std::map<const GlobalVariable*, u64> gvAddr; static std::map<u64, const GlobalVariable*> addrGv;
static const u64 FUNCBIT = 1ull << 38, STACKBIT = 1ull << 39;
static std::vector<std::string> repoPrefix; static bool noScalarMerge = false, noDiamond = false;

static std::string dem(const std::string& s) { return demangle(s); }
static Fn* getFn(Function* F) {
  auto it = fnMap.find(F); if (it != fnMap.end()) return it->second;
  Fn* f = new Fn(); f->F = F; f->name = F->getName().str(); f->dem = dem(f->name); f->id = fnList.size(); fnList.push_back(f);
  for (auto& r : mergeRe) if (std::regex_search(f->dem, r)) f->mergeFn = true;
  if (F->hasFnAttribute("sx-merge")) f->mergeFn = true;
  if (auto* sp = F->getSubprogram()) {
    std::string p = sp->getFilename().str(); if (!p.empty() && p[0] != '/') p = sp->getDirectory().str() + "/" + p; f->file = p;
    for (auto& r : repoPrefix) if (p.compare(0, r.size(), r) == 0) f->inRepo = true;
  }
  return fnMap[F] = f;
}
// a function over plain integers in the code under test: its paths are joined again at its return
static bool scalarFn(Function& F) {
  if (F.isDeclaration() || F.isVarArg() || !F.getReturnType()->isIntegerTy() || F.getReturnType()->getIntegerBitWidth() > 64 || !F.arg_size()) return false;
  for (auto& a : F.args()) if (!a.getType()->isIntegerTy() || a.getType()->getIntegerBitWidth() > 64) return false;
  auto* sp = F.getSubprogram(); if (!sp) return false;
  std::string p = sp->getFilename().str(); if (!p.empty() && p[0] != '/') p = sp->getDirectory().str() + "/" + p;
  for (auto& r : repoPrefix) if (p.compare(0, r.size(), r) == 0) return true;
  return false;
}
static u64 fnAddr(Function* F) { return (FUNCBIT | getFn(F)->id) << 24; }

// ---------------------------------------------------------------- state
struct Frame { Fn* fn; u32 pc, rb, sb; u64 va = 0; };
struct Slot { Obj* o; u32 gen; };
struct Input { const char* name; const Expr* e; unsigned w; };
struct ObsV { const char* name; Val v; };
struct State {
  u64 id; std::vector<Frame> fr; std::vector<Val> regs; std::vector<Slot> stk; RTree heap;
  std::vector<const Expr*> pc; std::unordered_set<u32> known; ModelP model;
  std::vector<Input> inputs; std::vector<ObsV> obs; std::vector<std::pair<u64, u64>> exc; std::vector<u64> caught;
  u64 steps = 0; u32 forks = 0; u32 nuninit = 0;
  State() {}
  State(const State& o): id(0), fr(o.fr), regs(o.regs), stk(o.stk), heap(o.heap), pc(o.pc), known(o.known), model(o.model), inputs(o.inputs), obs(o.obs), exc(o.exc), caught(o.caught), steps(o.steps), forks(o.forks), nuninit(o.nuninit) { for (auto& s : stk) s.o->rc++; }
  ~State() { for (auto& s : stk) s.o->unref(); }
};
static u64 nextState = 0; static u32 nextHeap = 1; static u32 stackGen = 0;
static u64 nStates = 0, nPaths = 0, nInstr = 0, nForks = 0, nAssumeKill = 0, nChecks = 0, nChecksSolver = 0, nMerged = 0, nMem = 0;
static std::map<std::string, u64> reached, unsupported; static std::map<std::string, u64> params; static std::map<std::string, std::string> sparams;
static bool inconclusive = false; static double deadline = 1e18; static u64 maxPathSteps = 80000000ull; static size_t maxMemMB = 6000;
struct Loc { std::string file, fn; u32 line; bool repo; bool hit; };
static std::vector<Loc> locs(1); static std::map<std::tuple<const void*, u32>, u32> locIds;
static u32 locOf(const Instruction& I) {      // source position, attributed to the function it was written in even when inlined
  const DILocation* d = I.getDebugLoc(); if (!d || !d->getLine()) return 0;
  const DISubprogram* sp = d->getScope()->getSubprogram(); auto key = std::make_tuple((const void*)sp, (u32)d->getLine());
  auto it = locIds.find(key); if (it != locIds.end()) return it->second;
  Loc l; l.file = d->getFilename().str(); if (!l.file.empty() && l.file[0] != '/') l.file = d->getDirectory().str() + "/" + l.file;
  l.fn = sp ? dem(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str()) : "?"; l.line = d->getLine(); l.repo = false; l.hit = false;
  for (auto& r : repoPrefix) if (l.file.compare(0, r.size(), r) == 0) l.repo = true;
  locs.push_back(l); return locIds[key] = (u32)locs.size() - 1;
}
static std::vector<State*>* cur = nullptr; static int maxViol = 6; static int sampleMax = 6; static u64 sampleEvery = 1;
static std::map<std::string, u64> reachW;

struct Viol { std::string kind, msg, where; std::vector<std::pair<std::string, u128>> vec; };
static std::vector<Viol> viols; static std::map<std::string, int> violKeys;
struct Sample { std::vector<std::pair<std::string, u128>> vec; std::vector<std::pair<std::string, u128>> obs; };
static std::vector<Sample> samples;

static std::vector<std::pair<std::string, u128>> vecOf(State& s, const Model& m) {
  std::vector<std::pair<std::string, u128>> r; for (auto& i : s.inputs) r.push_back({i.name, evalExpr(i.e, m)}); return r;
}
static std::string lineOf(const Ins& i) { return i.line ? std::to_string(locs[i.line].line) : "?"; }
static std::string whereOf(State& s) {
  std::string w; int n = 0;
  for (int i = (int)s.fr.size() - 1; i >= 0 && n < 14; i--) {
    Frame& f = s.fr[i]; const Ins& in = f.fn->code[f.pc];
    std::string nm = f.fn->dem; if (in.line && locs[in.line].fn != nm) nm = locs[in.line].fn + " (in " + nm + ")"; if (nm.size() > 110) nm = nm.substr(0, 110) + "...";
    if (n) w += " < "; w += nm + ":" + lineOf(in); n++;
  }
  return w;
}
static void report(State& s, const std::string& kind, const std::string& msg, const ModelP& m) {
  std::string where = whereOf(s);
  std::string key = kind + "|" + msg + "|" + (s.fr.size() ? s.fr.back().fn->dem + lineOf(s.fr.back().fn->code[s.fr.back().pc]) : "");
  if (++violKeys[key] > 2) return;
  viols.push_back({kind, msg, where, vecOf(s, *m)});
  if (getenv("SX_VERBOSE")) fprintf(stderr, "VIOL %s: %s at %s\n", kind.c_str(), msg.c_str(), where.c_str());
}

static inline const Expr* X(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline Val N(const Expr* e) { if (e->k == K_CONST && e->w <= 64) return Val((u64)e->c); return Val(e); }
static inline u64 mk(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

// ---------------------------------------------------------------- constraints
static void addPC(State& s, const Expr* c) {
  if (isTrue(c)) return;
  if (c->k == K_AND && c->w == 1) { addPC(s, c->ops[0]); addPC(s, c->ops[1]); return; }
  if (!s.known.insert(c->id).second) return;
  s.pc.push_back(c);
}
static int knownLit(State& s, const Expr* c) { if (s.known.count(c->id)) return 1; if (s.known.count(mkNot(c)->id)) return 0; return -1; }
static std::map<std::string, std::pair<u64, double>> qAt;
static SatRes query(State& s, const Expr* c, ModelP* m) {
  static bool qlog = getenv("SX_QLOC"); double t0 = qlog ? now() : 0;
  SatRes r = solvePC(s.pc, c, s.model, m);
  if (qlog) { auto& q = qAt[whereOf(s).substr(0, 300)]; q.first++; q.second += now() - t0; static const char* fm = getenv("SX_FORKCOND"); if (fm && now() - t0 > 0.004 && whereOf(s).find(fm) != std::string::npos) fprintf(stderr, "query %d %s\n", (int)r, exprStr(c, 9).substr(0, 1500).c_str()); }
  if (r == UNKNOWN) { inconclusive = true; unsupported["solver answered unknown at " + (s.fr.size() ? s.fr.back().fn->dem : std::string("?"))]++; }
  return r;
}
static bool forkLog = getenv("SX_FORKS"); static std::map<std::string, u64> forkAt;
struct Dead {};     // thrown when the current state ended
// a value built with uninitialised bytes: an error if it can differ with them, otherwise they are dropped from it
static const Expr* settleUninit(State& s, const Expr* e, const char* what) {
  const Expr* e0 = replaceUninit(e, 0); const Expr* e1 = replaceUninit(e, 1); if (e0 == e1) return e0;
  const Expr* d = mkNot(mkEq(e0, e1)); if (isFalse(d)) return e0;
  ModelP m; if (evalExpr(d, *s.model)) m = s.model; else { SatRes r = query(s, d, &m); if (r != SAT) return e0; }
  report(s, "uninit", std::string(what) + " depends on an uninitialised value", m); throw Dead();
}
static bool branchOn(State& s, const Expr* c) {
  if (c->hasUninit) c = settleUninit(s, c, "outcome");
  if (c->k == K_CONST) return c->c != 0;
  int k = knownLit(s, c); if (k >= 0) return k;
  bool side = evalExpr(c, *s.model) != 0;
  const Expr* nc = mkNot(c); const Expr* other = side ? nc : c; const Expr* mine = side ? c : nc;
  ModelP m; SatRes r = query(s, other, &m);
  if (r == SAT) {
    if (forkLog) { forkAt[whereOf(s).substr(0, 400)]++; static const char* fm = getenv("SX_FORKCOND"); if (fm && whereOf(s).find(fm) != std::string::npos) fprintf(stderr, "forkcond %s\n", exprStr(c, 7).substr(0, 900).c_str()); }
    State* n = new State(s); n->id = ++nextState; n->model = m; n->forks++; addPC(*n, other); cur->push_back(n); nForks++; nStates++; s.forks++;
    addPC(s, mine);
  } else s.known.insert(mine->id);
  return side;
}
static u64 concretize(State& s, const Val& v, unsigned w) {
  if (!v.e) return v.c;
  u64 x = (u64)evalExpr(v.e, *s.model);
  branchOn(s, mkEq(v.e, mkConst(x, w)));
  return x;
}

// ---------------------------------------------------------------- memory
static Obj* lookup(State& s, u64 id) {
  if (id & STACKBIT) { u32 sl = id & 0xffff, gen = (id >> 16) & 0xfffff; if (sl < s.stk.size() && s.stk[sl].gen == gen) return s.stk[sl].o; return nullptr; }
  if (id & FUNCBIT) return nullptr;
  if (id >= (1u << 25)) return nullptr;
  return s.heap.get((u32)id);
}
static Obj* lookupW(State& s, u64 id) {
  if (id & STACKBIT) { u32 sl = id & 0xffff; Slot& t = s.stk[sl]; if (t.o->rc > 1) { Obj* n = t.o->clone(); t.o->rc--; t.o = n; } return t.o; }
  return s.heap.getW((u32)id);
}
static u64 newHeap(State& s, u64 size, ObjKind k, bool uninit) {
  if (size >= (1u << 24)) { report(s, "alloc", "allocation of " + std::to_string(size) + " bytes", s.model); throw Dead(); }
  u32 id = nextHeap++; if (id >= (1u << 25)) fatal("heap ids exhausted");
  s.heap.set(id, Obj::make((u32)size, k, uninit));
  return (u64)id << 24;
}
static u64 newStack(State& s, u64 size) {
  if (s.stk.size() >= 0xffff || s.fr.size() > 3000) { report(s, "stack", "stack overflow", s.model); throw Dead(); }
  u32 gen = (++stackGen) & 0xfffff; u64 id = STACKBIT | ((u64)gen << 16) | s.stk.size();
  s.stk.push_back({Obj::make((u32)size, OK_STACK, true), gen});
  return id << 24;
}
static const Expr* byteAt(Obj* o, u64 id, u32 off) {
  if (!o->st || o->st[off] == 0) return mkConst(o->d[off], 8);
  if (o->st[off] == 1) return o->sx[off];
  return mkSym("un_" + std::to_string(id) + "_" + std::to_string(off), 8, true);
}
static const char* DBGKIND[] = {"global", "stack", "heap", "heap", "heap", "exception"};
struct Acc { const Expr* guard; u64 id; u32 off; const Expr* offE; };
static void badAccess(State& s, u64 addr, u32 n, bool write) {
  u64 id = addr >> 24; std::string m;
  Obj* o = lookup(s, id);
  if (id == 0 && addr < 4096) m = "null pointer access";
  else if (!o) m = "access through an invalid or freed pointer";
  else m = std::string("out-of-bounds access: offset ") + std::to_string((long)(addr & 0xffffff)) + "+" + std::to_string(n) + " of a " + std::to_string(o->size) + "-byte " + DBGKIND[o->kind] + " object";
  if (getenv("SX_VERBOSE")) fprintf(stderr, "bad addr %llx id %llx\n", (unsigned long long)addr, (unsigned long long)id);
  report(s, write ? "mem-write" : "mem-read", m, s.model);
  throw Dead();
}
static void collectPtr(State& s, const Expr* e, const Expr* guard, std::vector<std::pair<const Expr*, const Expr*>>& out, int depth = 0) {
  if (e->k == K_ITE) {
    int k = knownLit(s, e->ops[0]);
    if (k != 0) collectPtr(s, e->ops[1], k == 1 ? guard : (guard ? mkAnd(guard, e->ops[0]) : e->ops[0]), out, depth + 1);
    if (k != 1) collectPtr(s, e->ops[2], k == 0 ? guard : (guard ? mkAnd(guard, mkNot(e->ops[0])) : mkNot(e->ops[0])), out, depth + 1);
    return;
  }
  if (e->k == K_TAB) {
    auto t = g_tabs[e->aux]; std::map<u64, std::vector<u128>> by;
    for (size_t i = 0; i < t.size(); i++) by[(u64)t[i]];
    for (auto& p : by) { p.second.assign(t.size(), 0); for (size_t i = 0; i < t.size(); i++) if ((u64)t[i] == p.first) p.second[i] = 1; }
    for (auto& p : by) { const Expr* g = mkTab(e->ops[0], p.second, 1); if (isFalse(g)) continue; int k = knownLit(s, g); if (k == 0) continue;
      out.push_back({k == 1 ? guard : (guard ? mkAnd(guard, g) : g), mkConst(p.first, 64)}); }
    return;
  }
  if (e->k == K_ADD && !isConst(e->ops[1])) for (int t = 0; t < 2; t++) {
    const Expr* p = e->ops[t]; const Expr* q = e->ops[1 - t];
    if (p->k == K_ITE && p->leaves && p->leaves <= 64) {
      std::vector<std::pair<const Expr*, const Expr*>> sub; collectPtr(s, p, guard, sub, depth + 1);
      bool ptrs = true; for (auto& x : sub) if (!isConst(x.second) || x.second->c < (1u << 24)) ptrs = false;
      if (ptrs) { for (auto& x : sub) out.push_back({x.first, mkBin(K_ADD, x.second, q)}); return; }
    }
  }
  out.push_back({guard, e});
}
static void resolve(State& s, const Val& p, u32 n, bool write, std::vector<Acc>& out) {
  if (!p.e) {
    Obj* o = lookup(s, p.c >> 24); u64 off = p.c & 0xffffff;
    if (!o || off + n > o->size || (write && o->ro)) badAccess(s, p.c, n, write);
    out.push_back({nullptr, p.c >> 24, (u32)off, nullptr}); return;
  }
  nMem++;
  std::vector<std::pair<const Expr*, const Expr*>> lv; collectPtr(s, p.e, nullptr, lv);
  for (auto& l : lv) {
    const Expr* g = l.first; const Expr* e = l.second;
    if (g && isFalse(g)) continue; if (g && isTrue(g)) g = nullptr;
    if (isConst(e)) {
      u64 a = (u64)e->c; Obj* o = lookup(s, a >> 24); u64 off = a & 0xffffff;
      if (!o || off + n > o->size || (write && o->ro)) {
        if (!g || !branchOn(s, mkNot(g))) badAccess(s, a, n, write);
        continue;
      }
      out.push_back({g, a >> 24, (u32)off, nullptr});
    } else {
      if (g) { if (!branchOn(s, g)) continue; g = nullptr; }
      if (e->hasUninit) e = settleUninit(s, e, "address");
      u64 a = (u64)evalExpr(e, *s.model); u64 id = a >> 24; Obj* o = lookup(s, id);
      if (!o) {
        // a negative offset can borrow from the object number: look for an object named in the expression
        const Expr* k = e; u64 cand = 0;
        if (k->k == K_ADD && isConst(k->ops[1])) cand = (u64)k->ops[1]->c >> 24;
        if (cand && lookup(s, cand)) { id = cand; o = lookup(s, id); } else badAccess(s, a, n, write);
      }
      const Expr* off = mkBin(K_SUB, e, mkConst(id << 24, 64));
      if (o->size < n || (write && o->ro)) badAccess(s, a, n, write);
      if (!branchOn(s, mkBin(K_ULE, off, mkConst(o->size - n, 64)))) {
        // outside this object: another object is legitimate only when the pointer itself varies
        u64 id2 = a >> 24; Obj* o2 = lookup(s, id2); if (id2 == id || !o2 || (a & 0xffffff) + n > o2->size) badAccess(s, a, n, write);
        if (e->k == K_ADD && isConst(e->ops[1])) badAccess(s, a, n, write);
        unsupported["pointer ranging over several objects"]++; inconclusive = true; throw Dead();
      }
      out.push_back({nullptr, id, 0, off});
      return;
    }
  }
  if (out.empty()) throw Dead();
}
static Val loadBytes(State& s, Obj* o, u64 id, u32 off, u32 n, unsigned w) {
  if (o->concrete(off, n)) {
    if (n <= 8) { u64 v = 0; memcpy(&v, o->d + off, n); return Val(v & mk(w)); }
    u128 v = 0; memcpy(&v, o->d + off, n); return Val(mkConst(v, w));
  }
  const Expr* r = nullptr;
  // build from the low end so adjacent extracts join
  for (u32 i = 0; i < n; i++) { const Expr* b = byteAt(o, id, off + i); r = r ? mkConcat(b, r) : b; }
  if (r->w > w) r = mkExtract(r, w - 1, 0);
  return N(r);
}
static void offsetsOf(State& s, const Expr* offE, u32 size, u32 n, std::vector<u32>& ks, const Expr** idxOut, unsigned* tzOut) {
  unsigned tz = trailZeros(offE), hz = highZeros(offE); if (tz > 16) tz = 16;
  u64 step = 1ull << tz; u64 maxo = size - n; if (hz < 64 && hz > 0) { u64 mx = mk(64 - hz); if (mx < maxo) maxo = mx; }
  for (u64 k = 0; k <= maxo; k += step) ks.push_back((u32)k);
  *tzOut = tz; *idxOut = nullptr;
  if (hz + tz < 64 && 64 - hz - tz <= 8) *idxOut = mkExtract(offE, 63 - hz, tz);
}
static Val loadScalar(State& s, const Val& p, u32 n, unsigned w) {
  if (!p.e) {      // fast path
    Obj* o = lookup(s, p.c >> 24); u64 off = p.c & 0xffffff;
    if (!o || off + n > o->size) badAccess(s, p.c, n, false);
    return loadBytes(s, o, p.c >> 24, (u32)off, n, w);
  }
  std::vector<Acc> acc; resolve(s, p, n, false, acc);
  const Expr* r = nullptr;
  for (int i = (int)acc.size() - 1; i >= 0; i--) {
    Obj* o = lookup(s, acc[i].id); const Expr* v;
    if (!acc[i].offE) v = X(loadBytes(s, o, acc[i].id, acc[i].off, n, w), w);
    else {
      std::vector<u32> ks; const Expr* idx; unsigned tz; offsetsOf(s, acc[i].offE, o->size, n, ks, &idx, &tz);
      if (ks.size() > 3000) { u64 k = concretize(s, Val(acc[i].offE), 64); v = X(loadBytes(s, o, acc[i].id, (u32)k, n, w), w); }
      else {
        bool allc = idx && w <= 64; std::vector<u128> t;
        if (allc) { t.assign((size_t)1 << idx->w, 0); for (u32 k : ks) { if (!o->concrete(k, n)) { allc = false; break; } u64 x = 0; memcpy(&x, o->d + k, n); size_t j = k >> tz; if (j < t.size()) t[j] = x & mk(w); } }
        if (allc) { for (size_t j = ks.size(); j < t.size(); j++) t[j] = t[ks.size() - 1]; v = mkTab(idx, t, w); }
        else {
          // skip trailing uninitialised part only when it cannot be reached
          v = nullptr;
          for (int j = (int)ks.size() - 1; j >= 0; j--) { const Expr* x = X(loadBytes(s, o, acc[i].id, ks[j], n, w), w); v = v ? mkIte(mkEq(acc[i].offE, mkConst(ks[j], 64)), x, v) : x; }
        }
      }
    }
    r = r ? (acc[i].guard ? mkIte(acc[i].guard, v, r) : v) : v;
  }
  return N(r);
}
static void storeObj(Obj* o, u32 off, u32 n, const Val& v, unsigned w) {
  if (!v.e) { o->putC(off, &v.c, n > 8 ? 8 : n); if (n > 8) { u64 z = 0; for (u32 i = 8; i < n; i += 8) o->putC(off + i, &z, n - i < 8 ? n - i : 8); } return; }
  const Expr* e = v.e; if (e->w < n * 8) e = mkZExt(e, n * 8);
  for (u32 i = 0; i < n; i++) o->putByte(off + i, mkExtract(e, i * 8 + 7, i * 8));
}
struct StoreRec { u64 id; u32 off, n; };
static std::vector<StoreRec>* slog = nullptr; static bool slogBad = false;
static void storeScalar(State& s, const Val& p, u32 n, const Val& v, unsigned w) {
  std::vector<Acc> acc; resolve(s, p, n, true, acc);
  if (acc.size() == 1 && !acc[0].guard && !acc[0].offE) { if (slog) slog->push_back({acc[0].id, acc[0].off, n}); storeObj(lookupW(s, acc[0].id), acc[0].off, n, v, w); return; }
  slogBad = true;
  const Expr* e = X(v, w); if (e->w < n * 8) e = mkZExt(e, n * 8);
  bool conc = false; u64 ck = 0;
  for (auto& a : acc) if (a.offE) { Obj* o = lookup(s, a.id); unsigned tz = trailZeros(a.offE); if (tz > 16) tz = 16; if ((o->size >> tz) > 3000) { ck = concretize(s, Val(a.offE), 64); conc = true; } }
  for (auto& a : acc) {
    Obj* o = lookupW(s, a.id);
    if (!a.offE) { for (u32 i = 0; i < n; i++) o->putByte(a.off + i, mkIte(a.guard ? a.guard : mkTrue(), mkExtract(e, i * 8 + 7, i * 8), byteAt(o, a.id, a.off + i))); }
    else if (conc) storeObj(o, (u32)ck, n, v, w);
    else {
      std::vector<u32> ks; const Expr* idx; unsigned tz; offsetsOf(s, a.offE, o->size, n, ks, &idx, &tz);
      for (u32 k : ks) { const Expr* c = mkEq(a.offE, mkConst(k, 64)); if (isFalse(c)) continue; int kl = knownLit(s, c); if (kl == 0) continue;
        for (u32 i = 0; i < n; i++) o->putByte(k + i, mkIte(c, mkExtract(e, i * 8 + 7, i * 8), byteAt(o, a.id, k + i))); }
    }
  }
}
static Val loadT(State& s, const Val& p, TyD* t) {
  if (t->kind == 0) return loadScalar(s, p, (u32)t->size, t->w);
  if (t->kind == 1) { std::vector<Val> v; for (auto& f : t->f) v.push_back(loadT(s, p.e ? N(mkBin(K_ADD, p.e, mkConst(f.first, 64))) : Val(p.c + f.first), f.second)); return Val(mkAgg(v)); }
  unsupported["load of unsupported type"]++; inconclusive = true; throw Dead();
}
static void storeT(State& s, const Val& p, const Val& v, TyD* t) {
  if (t->kind == 0) { storeScalar(s, p, (u32)t->size, v, t->w); return; }
  if (t->kind == 1) { auto a = *v.e->agg; for (size_t i = 0; i < t->f.size(); i++) storeT(s, p.e ? N(mkBin(K_ADD, p.e, mkConst(t->f[i].first, 64))) : Val(p.c + t->f[i].first), a[i], t->f[i].second); return; }
  unsupported["store of unsupported type"]++; inconclusive = true; throw Dead();
}

// ---------------------------------------------------------------- constants
static Val constVal(const Constant* c);
static Val undefOf(TyD* t) {
  static int n = 0;
  if (t->kind == 1) { std::vector<Val> v; for (auto& f : t->f) v.push_back(undefOf(f.second)); return Val(mkAgg(v)); }
  if (t->kind != 0) return Val((u64)0);
  return Val(mkSym("undef_" + std::to_string(++n), t->w, true));
}
static Val zeroOf(TyD* t) {
  if (t->kind == 1) { std::vector<Val> v; for (auto& f : t->f) v.push_back(zeroOf(f.second)); return Val(mkAgg(v)); }
  if (t->w > 64) return Val(mkConst(0, t->w)); return Val((u64)0);
}
static u64 addrOfGlobal(const GlobalValue* g) {
  if (auto* F = dyn_cast<Function>(g)) return fnAddr(const_cast<Function*>(F));
  if (auto* A = dyn_cast<GlobalAlias>(g)) { Val v = constVal(A->getAliasee()); return v.c; }
  auto* V = cast<GlobalVariable>(g); auto it = gvAddr.find(V); if (it == gvAddr.end()) fatal("global without address " + V->getName().str()); return it->second;
}
static Val constVal(const Constant* c) {
  TyD* t = ty(c->getType());
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() <= 64) return Val(ci->getZExtValue());
    APInt a = ci->getValue().zextOrTrunc(128); return Val(mkConst(((u128)a.getRawData()[1] << 64) | a.getRawData()[0], ci->getBitWidth()));
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt a = cf->getValueAPF().bitcastToAPInt(); if (a.getBitWidth() > 64) return Val((u64)0); return Val(a.getZExtValue()); }
  if (isa<ConstantPointerNull>(c)) return Val((u64)0);
  if (isa<UndefValue>(c)) return undefOf(t);
  if (isa<ConstantAggregateZero>(c)) return zeroOf(t);
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { std::vector<Val> v; for (unsigned i = 0; i < ca->getNumOperands(); i++) v.push_back(constVal(ca->getOperand(i))); return Val(mkAgg(v)); }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constVal(cd->getElementAsConstant(i))); return Val(mkAgg(v)); }
  if (auto* gv = dyn_cast<GlobalValue>(c)) return Val(addrOfGlobal(gv));
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); auto* go = cast<GEPOperator>(ce); if (!go->accumulateConstantOffset(*DL, off)) fatal("const gep"); return Val(constVal(ce->getOperand(0)).c + off.getSExtValue()); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
      case Instruction::Add: return Val((constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c) & mk(t->w));
      case Instruction::Sub: return Val((constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c) & mk(t->w));
      case Instruction::Trunc: return Val(constVal(ce->getOperand(0)).c & mk(t->w));
      case Instruction::ICmp: { u64 a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c; if (ce->getPredicate() == CmpInst::ICMP_EQ) return Val((u64)(a == b)); if (ce->getPredicate() == CmpInst::ICMP_NE) return Val((u64)(a != b)); break; }
      default: break;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); fatal("constant not supported: " + s);
}
static void initBytes(Obj* o, u64 off, const Constant* c) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;      // objects start zeroed
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(o->d + off, r.data(), r.size()); return; }
  if (auto* cs = dyn_cast<ConstantStruct>(c)) { const StructLayout* sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initBytes(o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { u64 es = DL->getTypeAllocSize(ca->getOperand(0)->getType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initBytes(o, off + i * es, ca->getOperand(i)); return; }
  TyD* t = ty(c->getType()); if (t->kind == 3) return;
  Val v = constVal(c); storeObj(o, (u32)off, (u32)t->size, v, t->w);
}

// ---------------------------------------------------------------- builtins
enum Bi { B_NONE, B_MALLOC, B_NEW, B_NEWA, B_CALLOC, B_REALLOC, B_FREE, B_DEL, B_DELA, B_MEMCPY, B_MEMSET, B_MEMCMP, B_ABORT, B_TERMINATE, B_ASSERT, B_PUREV,
  B_CXAALLOC, B_CXAFREE, B_THROW, B_RETHROW, B_BEGINC, B_ENDC, B_GETEXC, B_ZERO, B_VOID, B_GUARDACQ, B_GUARDREL, B_RAND, B_TIME, B_MATH1, B_POW, B_FABS, B_ROUND, B_SQRT,
  B_EXPECT, B_OVF, B_MINMAX, B_ABS, B_CTLZ, B_CTTZ, B_CTPOP, B_BSWAP, B_FSH, B_OBJSIZE, B_ISCONST, B_TRAP, B_TYPEID, B_SNPRINTF, B_STRTOD, B_FPCLASS, B_FMULADD, B_COPYSIGN, B_FMINMAX, B_ID0,
  S_BV, S_PARAM, S_SPARAM, S_ASSUME, S_CHECK, S_REACH, S_OBS, S_CONC, S_ISSYM, S_KNOWN, S_TRYFALSE, B_FTOL, B_USHLSAT, B_STRTOF, B_EXIT, S_FORKVAL, B_VASTART };
struct BiD { int id; int sub; };
static std::map<std::string, BiD> biTab = {
  {"malloc", {B_MALLOC, 0}}, {"_Znwm", {B_NEW, 0}}, {"_Znam", {B_NEWA, 0}}, {"_ZnwmRKSt9nothrow_t", {B_NEW, 0}}, {"_ZnamRKSt9nothrow_t", {B_NEWA, 0}}, {"_ZnwmSt11align_val_t", {B_NEW, 0}},
  {"calloc", {B_CALLOC, 0}}, {"realloc", {B_REALLOC, 0}}, {"free", {B_FREE, 0}}, {"_ZdlPv", {B_DEL, 0}}, {"_ZdlPvm", {B_DEL, 0}}, {"_ZdaPv", {B_DELA, 0}}, {"_ZdaPvm", {B_DELA, 0}}, {"_ZdlPvRKSt9nothrow_t", {B_DEL, 0}}, {"_ZdlPvSt11align_val_t", {B_DEL, 0}}, {"_ZdlPvmSt11align_val_t", {B_DEL, 0}},
  {"memcpy", {B_MEMCPY, 0}}, {"memmove", {B_MEMCPY, 1}}, {"memset", {B_MEMSET, 0}}, {"memcmp", {B_MEMCMP, 0}}, {"bcmp", {B_MEMCMP, 1}},
  {"abort", {B_ABORT, 0}}, {"exit", {B_EXIT, 0}}, {"_exit", {B_EXIT, 0}}, {"_ZSt9terminatev", {B_TERMINATE, 0}}, {"__cxa_call_unexpected", {B_TERMINATE, 0}}, {"__assert_fail", {B_ASSERT, 0}}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", {B_ASSERT, 0}}, {"__cxa_pure_virtual", {B_PUREV, 0}}, {"__cxa_throw_bad_array_new_length", {B_ABORT, 0}},
  {"__cxa_allocate_exception", {B_CXAALLOC, 0}}, {"__cxa_free_exception", {B_CXAFREE, 0}}, {"__cxa_throw", {B_THROW, 0}}, {"__cxa_rethrow", {B_RETHROW, 0}}, {"__cxa_begin_catch", {B_BEGINC, 0}}, {"__cxa_end_catch", {B_ENDC, 0}}, {"__cxa_get_exception_ptr", {B_GETEXC, 0}},
  {"__cxa_atexit", {B_ZERO, 0}}, {"__cxa_thread_atexit", {B_ZERO, 0}}, {"__cxa_guard_acquire", {B_GUARDACQ, 0}}, {"__cxa_guard_release", {B_GUARDREL, 0}}, {"__cxa_guard_abort", {B_VOID, 0}},
  
  {"tanh", {B_MATH1, 1}}, {"exp", {B_MATH1, 2}}, {"log", {B_MATH1, 3}}, {"log10", {B_MATH1, 4}}, {"log2", {B_MATH1, 5}}, {"sin", {B_MATH1, 6}}, {"cos", {B_MATH1, 7}}, {"tan", {B_MATH1, 8}}, {"atan", {B_MATH1, 9}}, {"tanhf", {B_MATH1, 1}}, {"expf", {B_MATH1, 2}}, {"logf", {B_MATH1, 3}},
  {"pow", {B_POW, 0}}, {"atan2", {B_POW, 1}}, {"fmod", {B_POW, 2}}, {"powf", {B_POW, 0}}, {"fmodf", {B_POW, 2}}, {"hypot", {B_POW, 3}}, {"hypotf", {B_POW, 3}}, {"atan2f", {B_POW, 1}}, {"remainder", {B_POW, 4}}, {"fdim", {B_POW, 5}}, {"fmin", {B_FMINMAX, 1}}, {"fmax", {B_FMINMAX, 0}}, {"fminf", {B_FMINMAX, 1}}, {"fmaxf", {B_FMINMAX, 0}},
  {"cbrt", {B_MATH1, 10}}, {"exp2", {B_MATH1, 11}}, {"expm1", {B_MATH1, 12}}, {"log1p", {B_MATH1, 13}}, {"asin", {B_MATH1, 14}}, {"acos", {B_MATH1, 15}}, {"sinh", {B_MATH1, 16}}, {"cosh", {B_MATH1, 17}}, {"cbrtf", {B_MATH1, 10}}, {"exp2f", {B_MATH1, 11}}, {"log2f", {B_MATH1, 5}}, {"log10f", {B_MATH1, 4}}, {"sinf", {B_MATH1, 6}}, {"cosf", {B_MATH1, 7}}, {"atanf", {B_MATH1, 9}}, {"erf", {B_MATH1, 18}}, {"tgamma", {B_MATH1, 19}}, {"lgamma", {B_MATH1, 20}},
  {"sqrt", {B_SQRT, 0}}, {"sqrtf", {B_SQRT, 0}}, {"fabs", {B_FABS, 0}}, {"fabsf", {B_FABS, 0}}, {"round", {B_ROUND, 0}}, {"floor", {B_ROUND, 1}}, {"ceil", {B_ROUND, 2}}, {"trunc", {B_ROUND, 3}}, {"rint", {B_ROUND, 4}}, {"nearbyint", {B_ROUND, 4}}, {"roundf", {B_ROUND, 0}}, {"floorf", {B_ROUND, 1}}, {"ceilf", {B_ROUND, 2}}, {"truncf", {B_ROUND, 3}},
  {"lround", {B_FTOL, 0}}, {"lroundf", {B_FTOL, 0}}, {"llround", {B_FTOL, 0}}, {"lrint", {B_FTOL, 4}},
  {"snprintf", {B_SNPRINTF, 0}}, {"vsnprintf", {B_SNPRINTF, 1}},  {"strtod", {B_STRTOD, 0}}, {"strtold", {B_STRTOD, 9}}, {"strtof", {B_STRTOD, 1}}, {"strtoull", {B_STRTOD, 2}}, {"strtoll", {B_STRTOD, 3}}, {"strtoul", {B_STRTOD, 2}}, {"strtol", {B_STRTOD, 3}}, {"__isoc23_strtoull", {B_STRTOD, 2}}, {"__isoc23_strtoll", {B_STRTOD, 3}}, {"__isoc23_strtol", {B_STRTOD, 3}}, {"__isoc23_strtoul", {B_STRTOD, 2}},
  {"__sym_bv", {S_BV, 0}}, {"__sym_bvr", {S_BV, 1}}, {"__sym_param", {S_PARAM, 0}}, {"__sym_assume", {S_ASSUME, 0}}, {"__sym_check", {S_CHECK, 0}}, {"__sym_reach", {S_REACH, 0}}, {"__sym_observe", {S_OBS, 0}}, {"__sym_concretize", {S_CONC, 0}}, {"__sym_symbolic", {S_ISSYM, 0}}, {"__sym_known", {S_KNOWN, 0}}, {"__sym_can", {S_TRYFALSE, 0}},
};
static int lookupBi(Function* F, int& sub) {
  std::string n = F->getName().str(); sub = 0;
  if (n.compare(0, 5, "llvm.") == 0) {
    auto st = [&](const char* p) { return n.compare(0, strlen(p), p) == 0; };
    if (st("llvm.memcpy")) return B_MEMCPY; if (st("llvm.memmove")) { sub = 1; return B_MEMCPY; } if (st("llvm.memset")) return B_MEMSET;
    if (st("llvm.lifetime") || st("llvm.dbg") || st("llvm.assume") || st("llvm.experimental.noalias") || st("llvm.invariant") || st("llvm.stackrestore") || st("llvm.prefetch") || st("llvm.donothing")) return B_VOID;
    if (st("llvm.va_start")) return B_VASTART; if (st("llvm.va_end")) return B_VOID; if (st("llvm.va_copy")) { sub = 1; return B_VASTART; }
    if (st("llvm.stacksave")) return B_ZERO;
    if (st("llvm.expect") || st("llvm.launder") || st("llvm.strip") || st("llvm.threadlocal") || st("llvm.ssa.copy") || st("llvm.ptr.annotation")) return B_EXPECT;
    if (st("llvm.uadd.with")) { sub = 0; return B_OVF; } if (st("llvm.usub.with")) { sub = 1; return B_OVF; } if (st("llvm.umul.with")) { sub = 2; return B_OVF; }
    if (st("llvm.sadd.with")) { sub = 3; return B_OVF; } if (st("llvm.ssub.with")) { sub = 4; return B_OVF; } if (st("llvm.smul.with")) { sub = 5; return B_OVF; }
    if (st("llvm.umax")) { sub = 0; return B_MINMAX; } if (st("llvm.umin")) { sub = 1; return B_MINMAX; } if (st("llvm.smax")) { sub = 2; return B_MINMAX; } if (st("llvm.smin")) { sub = 3; return B_MINMAX; }
    if (st("llvm.uadd.sat")) { sub = 4; return B_MINMAX; } if (st("llvm.usub.sat")) { sub = 5; return B_MINMAX; }
    if (st("llvm.is.fpclass")) return B_FPCLASS; if (st("llvm.abs")) return B_ABS; if (st("llvm.ctlz")) return B_CTLZ; if (st("llvm.cttz")) return B_CTTZ; if (st("llvm.ctpop")) return B_CTPOP; if (st("llvm.bswap")) return B_BSWAP;
    if (st("llvm.fshl")) { sub = 0; return B_FSH; } if (st("llvm.fshr")) { sub = 1; return B_FSH; }
    if (st("llvm.objectsize")) return B_OBJSIZE; if (st("llvm.is.constant")) return B_ISCONST; if (st("llvm.trap") || st("llvm.ubsantrap")) return B_TRAP;
    if (st("llvm.eh.typeid.for")) return B_TYPEID; if (st("llvm.fmuladd") || st("llvm.fma.")) return B_FMULADD; if (st("llvm.copysign")) return B_COPYSIGN;
    if (st("llvm.fabs")) return B_FABS; if (st("llvm.sqrt")) return B_SQRT; if (st("llvm.round.")) { sub = 0; return B_ROUND; } if (st("llvm.floor")) { sub = 1; return B_ROUND; } if (st("llvm.ceil")) { sub = 2; return B_ROUND; } if (st("llvm.trunc")) { sub = 3; return B_ROUND; } if (st("llvm.rint") || st("llvm.nearbyint") || st("llvm.roundeven")) { sub = 4; return B_ROUND; }
    if (st("llvm.maxnum")) { sub = 0; return B_FMINMAX; } if (st("llvm.minnum")) { sub = 1; return B_FMINMAX; }
    if (st("llvm.pow.")) { sub = 0; return B_POW; } if (st("llvm.exp.")) { sub = 2; return B_MATH1; } if (st("llvm.exp2.")) { sub = 11; return B_MATH1; } if (st("llvm.log10.")) { sub = 4; return B_MATH1; } if (st("llvm.log2.")) { sub = 5; return B_MATH1; } if (st("llvm.sin.")) { sub = 6; return B_MATH1; } if (st("llvm.cos.")) { sub = 7; return B_MATH1; } if (st("llvm.log.")) { sub = 3; return B_MATH1; }
    if (st("llvm.lround") || st("llvm.llround")) { sub = 0; return B_FTOL; }
    return -1;
  }
  auto it = biTab.find(n); if (it == biTab.end()) return -1; sub = it->second.sub; return it->second.id;
}

// ---------------------------------------------------------------- decoding
// Branches whose two sides meet again after a little plain code (no loops, no allocation): both sides are
// executed up to that point and joined, instead of splitting the path.
static bool plainFn(const Function* F, int depth);
static bool plainIns(const Instruction& I, int depth) {
  if (isa<DbgInfoIntrinsic>(I) || I.isLifetimeStartOrEnd() || isa<BranchInst>(I)) return true;
  if (auto* l = dyn_cast<LoadInst>(&I)) return ty(I.getType())->kind == 0 && !l->isAtomic();
  if (auto* st = dyn_cast<StoreInst>(&I)) return ty(st->getValueOperand()->getType())->kind == 0 && !st->isAtomic();
  if (auto* o = dyn_cast<BinaryOperator>(&I)) return ty(I.getType())->kind == 0 && !o->getType()->isFPOrFPVectorTy();
  if (isa<ICmpInst>(I) || isa<CastInst>(I) || isa<GetElementPtrInst>(I) || isa<SelectInst>(I) || isa<FreezeInst>(I) || isa<PHINode>(I)) return ty(I.getType())->kind == 0;
  if (auto* c = dyn_cast<CallInst>(&I)) { auto* f = dyn_cast<Function>(c->getCalledOperand()); if (!f) return false; auto id = f->getIntrinsicID();
    if (id == Intrinsic::expect || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl) return true;
    return depth > 0 && !f->isDeclaration() && plainFn(f, depth - 1); }
  return false;
}
static bool noReturn(const BasicBlock* B) { return isa<UnreachableInst>(B->getTerminator()); }
static bool plainFn(const Function* F, int depth) {
  static std::map<std::pair<const Function*, int>, bool> memo; auto key = std::make_pair(F, depth); auto it = memo.find(key); if (it != memo.end()) return it->second;
  bool ok = F->size() <= 6; std::set<const BasicBlock*> seen; int n = 0;
  if (ok) for (auto& B : *F) { if (noReturn(&B)) continue; seen.insert(&B); for (auto* x : successors(&B)) if (seen.count(x)) ok = false;
    for (auto& I : B) { if (isa<ReturnInst>(I)) continue; if (++n > 60 || !plainIns(I, depth)) { ok = false; break; } } if (!ok) break; }
  return memo[key] = ok;
}
struct Regions {
  const Function& F; std::map<const BasicBlock*, int> ix; std::vector<const BasicBlock*> bs; std::vector<std::vector<int>> su; std::vector<std::vector<bool>> pd; bool ready = false;
  Regions(const Function& F) : F(F) {}
  void prepare() {
    ready = true; for (auto& B : F) { ix[&B] = bs.size(); bs.push_back(&B); } size_t n = bs.size(); su.resize(n); std::vector<bool> ret(n, false); std::vector<std::vector<int>> pr(n); std::vector<int> wl;
    for (size_t i = 0; i < n; i++) { for (auto* x : successors(bs[i])) pr[ix[x]].push_back(i); if (isa<ReturnInst>(bs[i]->getTerminator())) { ret[i] = true; wl.push_back(i); } }
    while (!wl.empty()) { int i = wl.back(); wl.pop_back(); for (int p : pr[i]) if (!ret[p]) { if (auto* iv = dyn_cast<InvokeInst>(bs[p]->getTerminator())) if (iv->getNormalDest() != bs[i]) continue; ret[p] = true; wl.push_back(p); } }
    for (size_t i = 0; i < n; i++) if (ret[i]) for (auto* x : successors(bs[i])) { if (!ret[ix[x]]) continue; if (auto* iv = dyn_cast<InvokeInst>(bs[i]->getTerminator())) if (iv->getNormalDest() != x) continue; su[i].push_back(ix[x]); }
    pd.assign(n, {}); if (n > 300) return;
    for (size_t i = 0; i < n; i++) { pd[i].assign(n, ret[i] && !su[i].empty()); pd[i][i] = true; }
    for (bool ch = true; ch;) { ch = false; for (int i = (int)n - 1; i >= 0; i--) { if (su[i].empty()) continue; std::vector<bool> v = pd[su[i][0]]; for (size_t k = 1; k < su[i].size(); k++) for (size_t j = 0; j < n; j++) if (!pd[su[i][k]][j]) v[j] = false; v[i] = true; if (v != pd[i]) { pd[i] = v; ch = true; } } }
  }
  const BasicBlock* meet(const BranchInst* b) {
    if (!ready) prepare(); size_t n = bs.size(); int i = ix[b->getParent()]; if (pd[i].empty() || su[i].size() != 2 || su[i][0] == su[i][1]) return nullptr;
    int J = -1; size_t best = 0; for (size_t j = 0; j < n; j++) if ((int)j != i && pd[i][j]) { size_t c = 0; for (size_t k = 0; k < n; k++) c += pd[j][k]; if (J < 0 || c > best) { J = (int)j; best = c; } }
    if (J < 0) return nullptr;
    std::set<int> in; std::vector<int> wl(su[i]); int cnt = 0;
    while (!wl.empty()) { int k = wl.back(); wl.pop_back(); if (k == J || !in.insert(k).second) continue; if (k == i || in.size() > 8) return nullptr;
      for (auto& I : *bs[k]) { if (isa<SwitchInst>(I) || isa<InvokeInst>(I)) return nullptr; if (++cnt > 80 || !plainIns(I, 2)) return nullptr; } for (int x : su[k]) wl.push_back(x); }
    // no loop inside
    std::map<int, int> color; bool loop = false; std::function<void(int)> dfs = [&](int k) { color[k] = 1; for (int x : su[k]) if (in.count(x)) { if (color[x] == 1) loop = true; else if (!color[x]) dfs(x); } color[k] = 2; };
    for (int k : in) if (!color[k]) dfs(k); if (loop) return nullptr;
    for (auto& ph : bs[J]->phis()) if (ty(ph.getType())->kind || ph.getType()->isPointerTy()) return nullptr;
    return bs[J];
  }
};
static void decode(Fn* f) {
  if (f->decoded) return; f->decoded = true;
  Function* F = f->F; std::map<const Value*, int> reg; std::map<const Value*, int> cidx; int nr = 0;
  for (auto& a : F->args()) { if (a.hasByValAttr()) f->byvalArgs.push_back({nr, DL->getTypeAllocSize(a.getParamByValType())}); reg[&a] = nr++; }
  f->nargs = nr;
  for (auto& bb : *F) for (auto& I : bb) if (!I.getType()->isVoidTy()) reg[&I] = nr++;
  int scratch = nr; unsigned maxPhi = 0; (void)scratch; (void)maxPhi;
  f->nregs = nr;
  auto opn = [&](const Value* v) -> int {
    auto it = reg.find(v); if (it != reg.end()) return it->second;
    auto ic = cidx.find(v); if (ic != cidx.end()) return ic->second;
    int k = -1 - (int)f->consts.size();
    if (auto* c = dyn_cast<Constant>(v)) f->consts.push_back(constVal(c)); else f->consts.push_back(Val((u64)0));
    return cidx[v] = k;
  };
  std::map<const BasicBlock*, u32> start; u32 pc = 0;
  for (auto& bb : *F) { start[&bb] = pc; for (auto& I : bb) if (!isa<PHINode>(I) && !(isa<DbgInfoIntrinsic>(I)) && !I.isLifetimeStartOrEnd()) pc++; }
  auto edge = [&](const BasicBlock* from, const BasicBlock* to) -> u32 {
    Edge e; e.pc = start[to];
    for (auto& ph : to->phis()) { int d = reg[&ph]; int s = opn(ph.getIncomingValueForBlock(from)); if (d != s) e.copies.push_back({d, s}); }
    f->edges.push_back(e); return f->edges.size() - 1;
  };
  for (auto& bb : *F) for (auto& ph : bb.phis()) f->phiReg[&ph] = reg[&ph];
  Regions rg(*F);
  auto meet = [&](const BranchInst* b) -> const BasicBlock* { return noDiamond ? nullptr : rg.meet(b); };
  for (auto& bb : *F) for (auto& I : bb) {
    if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I) || I.isLifetimeStartOrEnd()) continue;
    Ins n; memset(&n, 0, sizeof n); n.I = &I; n.dst = I.getType()->isVoidTy() ? -1 : reg[&I]; n.t = ty(I.getType()); n.w = n.t->w; n.line = locOf(I); n.op = O_UNSUP;
    if (auto* b = dyn_cast<BinaryOperator>(&I)) {
      n.a = opn(b->getOperand(0)); n.b = opn(b->getOperand(1));
      static const std::map<unsigned, Kind> ks = {{Instruction::Add, K_ADD}, {Instruction::Sub, K_SUB}, {Instruction::Mul, K_MUL}, {Instruction::UDiv, K_UDIV}, {Instruction::SDiv, K_SDIV}, {Instruction::URem, K_UREM}, {Instruction::SRem, K_SREM}, {Instruction::And, K_AND}, {Instruction::Or, K_OR}, {Instruction::Xor, K_XOR}, {Instruction::Shl, K_SHL}, {Instruction::LShr, K_LSHR}, {Instruction::AShr, K_ASHR}, {Instruction::FAdd, K_FADD}, {Instruction::FSub, K_FSUB}, {Instruction::FMul, K_FMUL}, {Instruction::FDiv, K_FDIV}, {Instruction::FRem, K_FREM}};
      n.sub = ks.at(b->getOpcode()); n.op = b->getType()->isFPOrFPVectorTy() ? O_FBIN : O_BIN; if (n.t->kind != 0) n.op = O_UNSUP;
    } else if (auto* c = dyn_cast<ICmpInst>(&I)) { n.op = O_ICMP; n.sub = c->getPredicate(); n.a = opn(c->getOperand(0)); n.b = opn(c->getOperand(1)); TyD* t = ty(c->getOperand(0)->getType()); n.w = t->w; if (t->kind) n.op = O_UNSUP; }
    else if (auto* c = dyn_cast<FCmpInst>(&I)) { n.op = O_FCMP; n.sub = c->getPredicate(); n.a = opn(c->getOperand(0)); n.b = opn(c->getOperand(1)); TyD* t = ty(c->getOperand(0)->getType()); n.w = t->w; if (t->kind) n.op = O_UNSUP; }
    else if (auto* u = dyn_cast<UnaryOperator>(&I)) { n.op = O_FNEG; n.a = opn(u->getOperand(0)); if (n.t->kind) n.op = O_UNSUP; }
    else if (auto* c = dyn_cast<CastInst>(&I)) {
      n.a = opn(c->getOperand(0)); TyD* st = ty(c->getSrcTy()); n.w2 = st->w; n.op = O_CAST;
      switch (c->getOpcode()) {
        case Instruction::Trunc: n.sub = C_TRUNC; break; case Instruction::ZExt: n.sub = C_ZEXT; break; case Instruction::SExt: n.sub = C_SEXT; break;
        case Instruction::FPToSI: n.sub = C_FTOSI; break; case Instruction::FPToUI: n.sub = C_FTOUI; break; case Instruction::SIToFP: n.sub = C_SITOF; break; case Instruction::UIToFP: n.sub = C_UITOF; break;
        case Instruction::FPExt: case Instruction::FPTrunc: n.sub = C_FCONV; break;
        case Instruction::PtrToInt: n.sub = n.w < 64 ? C_TRUNC : C_NOP; break; case Instruction::IntToPtr: n.sub = n.w2 < 64 ? C_ZEXT : C_NOP; break;
        default: n.sub = C_NOP; if (n.t->kind || st->kind) n.op = O_UNSUP;
      }
      if (n.t->kind == 3 || st->kind == 3) n.op = O_UNSUP;
      if (n.t->kind == 1 || st->kind == 1) n.op = O_UNSUP;
    } else if (auto* a = dyn_cast<AllocaInst>(&I)) { n.op = O_ALLOCA; n.x = (u32)DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue(); n.a = opn(a->getArraySize()); }
    else if (auto* l = dyn_cast<LoadInst>(&I)) { n.op = O_LOAD; n.a = opn(l->getPointerOperand()); }
    else if (auto* s = dyn_cast<StoreInst>(&I)) { n.op = O_STORE; n.a = opn(s->getPointerOperand()); n.b = opn(s->getValueOperand()); n.t = ty(s->getValueOperand()->getType()); n.w = n.t->w; }
    else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
      n.op = O_GEP; n.a = opn(g->getPointerOperand()); GepX x; x.off = 0;
      for (gep_type_iterator gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
        Value* iv = gi.getOperand();
        if (StructType* st = gi.getStructTypeOrNull()) x.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(iv)->getZExtValue());
        else { u64 sc = DL->getTypeAllocSize(gi.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(iv)) x.off += ci->getSExtValue() * sc; else x.idx.push_back({opn(iv), ty(iv->getType())->w, sc}); }
      }
      n.x = f->geps.size(); f->geps.push_back(x); if (n.t->kind) n.op = O_UNSUP;
    } else if (auto* s = dyn_cast<SelectInst>(&I)) { n.op = O_SELECT; n.c = opn(s->getCondition()); n.a = opn(s->getTrueValue()); n.b = opn(s->getFalseValue()); if (ty(s->getCondition()->getType())->kind) n.op = O_UNSUP; }
    else if (auto* b = dyn_cast<BranchInst>(&I)) { if (b->isUnconditional()) { n.op = O_BR; n.x = edge(&bb, b->getSuccessor(0)); } else { n.op = O_CBR; n.c = opn(b->getCondition()); n.x = edge(&bb, b->getSuccessor(0)); n.b = edge(&bb, b->getSuccessor(1)); n.a = 0; if (const BasicBlock* j = meet(b)) { f->dias.push_back({j, start[j]}); n.a = (int)f->dias.size(); } } }
    else if (auto* s = dyn_cast<SwitchInst>(&I)) { n.op = O_SWITCH; n.a = opn(s->getCondition()); n.w = ty(s->getCondition()->getType())->w; SwX x; x.def = edge(&bb, s->getDefaultDest()); std::map<BasicBlock*, u32> es; for (auto& cs : s->cases()) { auto* d = cs.getCaseSuccessor(); if (!es.count(d)) es[d] = edge(&bb, d); x.cases.push_back({cs.getCaseValue()->getZExtValue(), es[d]}); } n.x = f->sws.size(); f->sws.push_back(x); }
    else if (auto* r = dyn_cast<ReturnInst>(&I)) { n.op = O_RET; n.b = r->getReturnValue() ? 1 : 0; if (n.b) n.a = opn(r->getReturnValue()); }
    else if (auto* cb = dyn_cast<CallBase>(&I)) {
      CallX x; n.op = O_CALL;
      if (cb->isInlineAsm()) { auto* ia = cast<InlineAsm>(cb->getCalledOperand()); if (ia->getAsmString().empty()) x.bi = B_VOID; else n.op = O_UNSUP; }
      else if (Function* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases())) {
        int sub; int bi = lookupBi(cf, sub); x.name = cf->getName().str();
        if (bi >= 0) { x.bi = bi; n.sub = sub; } else if (cf->isDeclaration()) { x.bi = -2; } else { x.callee = getFn(cf); x.merge = x.callee->mergeFn; }
      } else x.calleeOp = opn(cb->getCalledOperand());
      for (unsigned i = 0; i < cb->arg_size(); i++) { if (cb->getArgOperand(i)->getType()->isMetadataTy()) { x.args.push_back(opn(ConstantInt::get(Type::getInt32Ty(*C), 0))); x.aw.push_back(32); continue; } x.args.push_back(opn(cb->getArgOperand(i))); x.aw.push_back(ty(cb->getArgOperand(i)->getType())->w); }
      if (auto* iv = dyn_cast<InvokeInst>(cb)) { x.invoke = true; x.normal = edge(&bb, iv->getNormalDest()); x.unwind = edge(&bb, iv->getUnwindDest()); }
      n.x = f->calls.size(); f->calls.push_back(x);
    } else if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
      n.op = O_LPAD; LpX x; x.cleanup = lp->isCleanup();
      for (unsigned i = 0; i < lp->getNumClauses(); i++) { if (lp->isCatch(i)) x.clauses.push_back({true, constVal(lp->getClause(i)).c}); else x.filter = true; }
      n.x = f->lps.size(); f->lps.push_back(x);
    } else if (isa<ResumeInst>(&I)) { n.op = O_RESUME; n.a = opn(I.getOperand(0)); }
    else if (isa<UnreachableInst>(&I)) n.op = O_UNREACH;
    else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { n.op = O_EXTRV; n.a = opn(ev->getAggregateOperand()); AggX x; x.idx.assign(ev->idx_begin(), ev->idx_end()); n.x = f->aggs.size(); f->aggs.push_back(x); }
    else if (auto* iv = dyn_cast<InsertValueInst>(&I)) { n.op = O_INSV; n.a = opn(iv->getAggregateOperand()); n.b = opn(iv->getInsertedValueOperand()); AggX x; x.idx.assign(iv->idx_begin(), iv->idx_end()); n.x = f->aggs.size(); f->aggs.push_back(x); }
    else if (isa<FreezeInst>(&I)) { n.op = O_FREEZE; n.a = opn(I.getOperand(0)); }
    else if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) { n.op = O_RMW; n.a = opn(rm->getPointerOperand()); n.b = opn(rm->getValOperand()); n.sub = rm->getOperation(); }
    else if (isa<FenceInst>(&I)) { n.op = O_FREEZE; n.dst = -1; n.a = 0; if (!nr) n.a = opn(ConstantInt::get(Type::getInt32Ty(*C), 0)); }
    else if (isa<ExtractElementInst>(&I) && isa<ConstantInt>(I.getOperand(1))) { n.op = O_EXTRV; n.a = opn(I.getOperand(0)); AggX x; x.idx.push_back(cast<ConstantInt>(I.getOperand(1))->getZExtValue()); n.x = f->aggs.size(); f->aggs.push_back(x); }
    else if (isa<InsertElementInst>(&I) && isa<ConstantInt>(I.getOperand(2))) { n.op = O_INSV; n.a = opn(I.getOperand(0)); n.b = opn(I.getOperand(1)); AggX x; x.idx.push_back(cast<ConstantInt>(I.getOperand(2))->getZExtValue()); n.x = f->aggs.size(); f->aggs.push_back(x); }
    f->code.push_back(n);
  }
}

// ---------------------------------------------------------------- exceptions
static std::map<std::string, std::string> extBase = { {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"} };
static std::string tiName(u64 ti) { auto it = addrGv.find(ti); return it == addrGv.end() ? "?" : it->second->getName().str(); }
static bool tiMatch(u64 t, u64 want) {
  if (want == 0 || t == want) return true;
  auto it = addrGv.find(t); if (it == addrGv.end()) return false;
  const GlobalVariable* g = it->second;
  if (g->getName() == tiName(want)) return true;
  if (!g->hasInitializer()) { auto e = extBase.find(g->getName().str()); if (e == extBase.end()) return false;
    while (e != extBase.end()) { if (e->second == tiName(want)) return true; e = extBase.find(e->second); } return false; }
  auto* cs = dyn_cast<ConstantStruct>(g->getInitializer()); if (!cs) return false;
  if (cs->getNumOperands() == 3) return tiMatch(constVal(cs->getOperand(2)).c, want);
  for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) if (tiMatch(constVal(cs->getOperand(i)).c, want)) return true;
  return false;
}
static u64 selOf(u64 ti) { static std::map<u64, u64> ids; if (!ids.count(ti)) { u64 n = ids.size() + 1; ids[ti] = n; } return ids[ti]; }

static Val& reg(State& s, Frame& f, int i) { return s.regs[f.rb + i]; }
static inline const Val& opv(State& s, Frame& f, int i) { return i >= 0 ? s.regs[f.rb + i] : f.fn->consts[-1 - i]; }

static void popFrame(State& s) {
  Frame& f = s.fr.back();
  while (s.stk.size() > f.sb) { s.stk.back().o->unref(); s.stk.pop_back(); }
  s.regs.resize(f.rb); s.fr.pop_back();
}
static void takeEdge(State& s, Frame& f, u32 ei) {
  Edge& e = f.fn->edges[ei];
  if (e.copies.size() == 1) { reg(s, f, e.copies[0].first) = opv(s, f, e.copies[0].second); }
  else if (!e.copies.empty()) { Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (e.copies.size() > 64) { big.resize(e.copies.size()); t = big.data(); }
    for (size_t i = 0; i < e.copies.size(); i++) t[i] = opv(s, f, e.copies[i].second);
    for (size_t i = 0; i < e.copies.size(); i++) reg(s, f, e.copies[i].first) = t[i]; }
  f.pc = e.pc;
}
// unwind from the current frame (its current instruction raised); pops frames until a landing pad takes the exception
static void unwind(State& s, u64 obj, u64 ti, bool first) {
  if (first) {   // phase one: is there a handler at all?
    bool found = false;
    for (int i = (int)s.fr.size() - 1; i >= 0 && !found; i--) {
      Frame& f = s.fr[i]; const Ins& in = f.fn->code[f.pc]; if (in.op != O_CALL) continue; CallX& x = f.fn->calls[in.x]; if (!x.invoke) continue;
      Ins& lp = f.fn->code[f.fn->edges[x.unwind].pc]; if (lp.op != O_LPAD) continue; LpX& l = f.fn->lps[lp.x];
      for (auto& c : l.clauses) if (tiMatch(ti, c.second)) found = true; if (l.filter) found = true;
    }
    if (!found) {
      std::string what = dem(tiName(ti)); 
      report(s, "uncaught", "uncaught exception " + what, s.model); throw Dead();
    }
  }
  while (true) {
    if (s.fr.empty()) { throw Dead(); }
    Frame& f = s.fr.back(); const Ins& in = f.fn->code[f.pc];
    if (in.op == O_CALL && f.fn->calls[in.x].invoke) {
      CallX& x = f.fn->calls[in.x]; u32 lpc = f.fn->edges[x.unwind].pc; Ins& lp = f.fn->code[lpc];
      if (lp.op == O_LPAD) {
        LpX& l = f.fn->lps[lp.x]; bool hit = false; u64 sel = 0;
        for (auto& c : l.clauses) if (tiMatch(ti, c.second)) { hit = true; sel = selOf(c.second); break; }
        if (l.filter && !hit) { report(s, "terminate", "exception leaves a function that promises not to throw", s.model); throw Dead(); }
        if (hit || l.cleanup) { takeEdge(s, f, x.unwind); std::vector<Val> v{Val(obj), Val(sel)}; reg(s, f, lp.dst) = Val(mkAgg(v)); f.pc = lpc + 1; return; }
      }
    }
    popFrame(s);
  }
}

// ---------------------------------------------------------------- values
static Val binop(State& s, Kind k, const Val& a, const Val& b, unsigned w) {
  if (!a.e && !b.e && w <= 64) {
    u64 x = a.c, y = b.c;
    switch (k) {
      case K_ADD: return Val((x + y) & mk(w)); case K_SUB: return Val((x - y) & mk(w)); case K_MUL: return Val((x * y) & mk(w));
      case K_AND: return Val(x & y); case K_OR: return Val(x | y); case K_XOR: return Val(x ^ y);
      case K_SHL: return Val(y >= w ? 0 : (x << y) & mk(w)); case K_LSHR: return Val(y >= w ? 0 : x >> y);
      case K_ASHR: { int64_t sx = (int64_t)(x << (64 - w)) >> (64 - w); return Val((u64)(sx >> (y >= w ? w - 1 : y)) & mk(w)); }
      default: break;
    }
  }
  if (k == K_UDIV || k == K_SDIV || k == K_UREM || k == K_SREM) {
    if (!b.e) { if (b.c == 0) { report(s, "div0", "division by zero", s.model); throw Dead(); } }
    else if (b.e->k != K_CONST || b.e->c == 0) { if (branchOn(s, mkEq(b.e, mkConst(0, w)))) { report(s, "div0", "division by zero", s.model); throw Dead(); } }
    if ((k == K_SDIV || k == K_SREM) && !a.e && !b.e && w <= 64) {
      int64_t x = (int64_t)(a.c << (64 - w)) >> (64 - w), y = (int64_t)(b.c << (64 - w)) >> (64 - w);
      if (y == -1 && (u64)a.c == (1ull << (w - 1))) { report(s, "div0", "signed division overflow", s.model); throw Dead(); }
      return Val((u64)(k == K_SDIV ? (y == -1 ? -x : x / y) : (y == -1 ? 0 : x % y)) & mk(w));
    }
    if (!a.e && !b.e && w <= 64) return Val(k == K_UDIV ? a.c / b.c : a.c % b.c);
  }
  return N(mkBin(k, X(a, w), X(b, w)));
}
static Val icmp(unsigned p, const Val& a, const Val& b, unsigned w) {
  if (!a.e && !b.e) {
    u64 x = a.c, y = b.c; int64_t sx = (int64_t)(x << (64 - w)) >> (64 - w), sy = (int64_t)(y << (64 - w)) >> (64 - w);
    switch (p) { case CmpInst::ICMP_EQ: return Val((u64)(x == y)); case CmpInst::ICMP_NE: return Val((u64)(x != y)); case CmpInst::ICMP_ULT: return Val((u64)(x < y)); case CmpInst::ICMP_ULE: return Val((u64)(x <= y)); case CmpInst::ICMP_UGT: return Val((u64)(x > y)); case CmpInst::ICMP_UGE: return Val((u64)(x >= y));
      case CmpInst::ICMP_SLT: return Val((u64)(sx < sy)); case CmpInst::ICMP_SLE: return Val((u64)(sx <= sy)); case CmpInst::ICMP_SGT: return Val((u64)(sx > sy)); default: return Val((u64)(sx >= sy)); }
  }
  const Expr *x = X(a, w), *y = X(b, w), *r;
  switch (p) { case CmpInst::ICMP_EQ: r = mkEq(x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkEq(x, y)); break; case CmpInst::ICMP_ULT: r = mkBin(K_ULT, x, y); break; case CmpInst::ICMP_ULE: r = mkBin(K_ULE, x, y); break; case CmpInst::ICMP_UGT: r = mkBin(K_ULT, y, x); break; case CmpInst::ICMP_UGE: r = mkBin(K_ULE, y, x); break;
    case CmpInst::ICMP_SLT: r = mkBin(K_SLT, x, y); break; case CmpInst::ICMP_SLE: r = mkBin(K_SLE, x, y); break; case CmpInst::ICMP_SGT: r = mkBin(K_SLT, y, x); break; default: r = mkBin(K_SLE, y, x); }
  return N(r);
}
static Val fcmp(unsigned p, const Val& a, const Val& b, unsigned w) {
  const Expr *x = X(a, w), *y = X(b, w);
  auto eq = [&] { return mkBin(K_FEQ, x, y); }; auto lt = [&] { return mkBin(K_FLT, x, y); }; auto gt = [&] { return mkBin(K_FLT, y, x); }; auto le = [&] { return mkBin(K_FLE, x, y); }; auto ge = [&] { return mkBin(K_FLE, y, x); };
  auto uno = [&] { return mkOr(mkF1(K_FNAN, x, 1), mkF1(K_FNAN, y, 1)); };
  const Expr* r;
  switch (p) {
    case CmpInst::FCMP_FALSE: r = mkFalse(); break; case CmpInst::FCMP_OEQ: r = eq(); break; case CmpInst::FCMP_OGT: r = gt(); break; case CmpInst::FCMP_OGE: r = ge(); break; case CmpInst::FCMP_OLT: r = lt(); break; case CmpInst::FCMP_OLE: r = le(); break;
    case CmpInst::FCMP_ONE: r = mkOr(lt(), gt()); break; case CmpInst::FCMP_ORD: r = mkNot(uno()); break; case CmpInst::FCMP_UNO: r = uno(); break; case CmpInst::FCMP_UEQ: r = mkOr(uno(), eq()); break;
    case CmpInst::FCMP_UGT: r = mkNot(le()); break; case CmpInst::FCMP_UGE: r = mkNot(lt()); break; case CmpInst::FCMP_ULT: r = mkNot(ge()); break; case CmpInst::FCMP_ULE: r = mkNot(gt()); break; case CmpInst::FCMP_UNE: r = mkNot(eq()); break;
    default: r = mkTrue();
  }
  return N(r);
}
static Val castv(const Ins& n, const Val& a) {
  unsigned w = n.w, w2 = n.w2;
  switch (n.sub) {
    case C_NOP: return a;
    case C_TRUNC: if (!a.e) return Val(a.c & mk(w)); return N(mkExtract(a.e, w - 1, 0));
    case C_ZEXT: if (!a.e && w <= 64) return a; return N(mkZExt(X(a, w2), w));
    case C_SEXT: if (!a.e && w <= 64) return Val((u64)((int64_t)(a.c << (64 - w2)) >> (64 - w2)) & mk(w)); return N(mkSExt(X(a, w2), w));
    case C_FTOSI: return N(mkF1(K_FTOSI, X(a, w2), w)); case C_FTOUI: return N(mkF1(K_FTOUI, X(a, w2), w));
    case C_SITOF: return N(mkF1(K_SITOF, X(a, w2), w)); case C_UITOF: return N(mkF1(K_UITOF, X(a, w2), w));
    case C_FCONV: return N(mkF1(K_FCONV, X(a, w2), w));
  }
  fatal("cast");
}

// concrete C string at an address
// a symbolic number that depends on few input bits: worth one execution per value
static bool fewValues(const Val& v) {
  if (!v.e || g_abstractFP || v.e->hasUninit) return false; unsigned bits = 0;
  for (u32 x : exprVars(v.e)) { const SymInfo& i = g_syms[x]; unsigned b = 0; u128 m = i.max & maskW(i.w); while (m) { b++; m >>= 1; } bits += b; if (bits > 7) return false; }
  return true;
}
static std::string cstr(State& s, u64 a) { std::string r; for (;;) { Val v = loadScalar(s, Val(a + r.size()), 1, 8); u64 c = concretize(s, v, 8); if (!c) return r; r += (char)c; if (r.size() > 10000) return r; } }
static const char* internStr(const std::string& s) { static std::set<std::string> t; return t.insert(s).first->c_str(); }
static void setRet(State& s, Frame& f, const Ins& n, const Val& v) { if (n.dst >= 0) reg(s, f, n.dst) = v; }

static const Expr* absVar(const std::string& n, unsigned w) { return mkSym(n, w, false); }
static bool finishSample(State& s);

// executes a builtin; returns true when control already moved (unwinding)
static bool builtin(State& s, Frame& f, const Ins& n, CallX& x) {
  auto A = [&](int i) -> const Val& { return opv(s, f, x.args[i]); };
  switch (x.bi) {
    case B_VOID: case B_CXAFREE: return false;
    case B_ZERO: setRet(s, f, n, Val((u64)0)); return false;
    case B_EXPECT: setRet(s, f, n, A(0)); return false;
    case B_MALLOC: case B_NEW: case B_NEWA: case B_CXAALLOC: {
      if (A(0).e) {   // a symbolic size: only sane sizes are explored, one by one
        const Expr* small = mkBin(K_ULT, A(0).e, mkConst(1u << 16, 64));
        if (!branchOn(s, small)) { report(s, "alloc", "allocation of an absurd size", s.model); throw Dead(); }
      }
      u64 sz = concretize(s, A(0), 64);
      setRet(s, f, n, Val(newHeap(s, sz, x.bi == B_NEW ? OK_NEW : x.bi == B_NEWA ? OK_NEWA : x.bi == B_CXAALLOC ? OK_EXC : OK_MALLOC, true))); return false; }
    case B_CALLOC: { u64 sz = concretize(s, A(0), 64) * concretize(s, A(1), 64); setRet(s, f, n, Val(newHeap(s, sz, OK_MALLOC, false))); return false; }
    case B_REALLOC: {
      u64 p = concretize(s, A(0), 64), sz = concretize(s, A(1), 64); u64 q = newHeap(s, sz, OK_MALLOC, true);
      if (p) { Obj* o = lookup(s, p >> 24); Obj* d = lookupW(s, q >> 24); u32 m = std::min<u64>(o->size, sz); for (u32 i = 0; i < m; i++) { if (o->st && o->st[i] == 2) continue; d->putByte(i, byteAt(o, p >> 24, i)); } s.heap.set((u32)(p >> 24), nullptr); }
      setRet(s, f, n, Val(q)); return false; }
    case B_FREE: case B_DEL: case B_DELA: {
      u64 p = concretize(s, A(0), 64); if (!p) return false;
      u64 id = p >> 24; Obj* o = lookup(s, id); ObjKind want = x.bi == B_FREE ? OK_MALLOC : x.bi == B_DEL ? OK_NEW : OK_NEWA;
      if (!o || (id & STACKBIT) || (p & 0xffffff) || o->kind != want) { report(s, "free", !o ? "free of an invalid or already freed pointer" : "mismatched or invalid free", s.model); throw Dead(); }
      s.heap.set((u32)id, nullptr); return false; }
    case B_MEMCPY: {
      u64 len = concretize(s, A(2), 64); if (n.dst >= 0) {}
      if (len == 0) { setRet(s, f, n, A(0)); return false; }
      u64 d = concretize(s, A(0), 64), p = concretize(s, A(1), 64);
      Obj* so = lookup(s, p >> 24); u64 so_ = p & 0xffffff; if (!so || so_ + len > so->size) badAccess(s, p, (u32)len, false);
      Obj* dobj = lookup(s, d >> 24); u64 do_ = d & 0xffffff; if (!dobj || do_ + len > dobj->size || dobj->ro) badAccess(s, d, (u32)len, true);
      if (so->concrete((u32)so_, (u32)len)) { std::vector<uint8_t> tmp(so->d + so_, so->d + so_ + len); dobj = lookupW(s, d >> 24); dobj->putC((u32)do_, tmp.data(), (u32)len); }
      else {
        std::vector<uint8_t> st(so->st + so_, so->st + so_ + len), by(so->d + so_, so->d + so_ + len); std::vector<const Expr*> sx(len, nullptr); if (so->sx) for (u64 i = 0; i < len; i++) sx[i] = so->sx[so_ + i];
        dobj = lookupW(s, d >> 24);
        for (u64 i = 0; i < len; i++) { if (st[i] == 0) dobj->putC((u32)(do_ + i), &by[i], 1); else if (st[i] == 1) dobj->putByte((u32)(do_ + i), sx[i]); else dobj->putUninit((u32)(do_ + i), 1); }
      }
      setRet(s, f, n, Val(d)); return false; }
    case B_MEMSET: {
      u64 len = concretize(s, A(2), 64); if (len == 0) { setRet(s, f, n, A(0)); return false; } u64 d = concretize(s, A(0), 64);
      Obj* o = lookup(s, d >> 24); u64 off = d & 0xffffff; if (!o || off + len > o->size || o->ro) badAccess(s, d, (u32)std::min<u64>(len, 1u << 30), true);
      o = lookupW(s, d >> 24); Val v = A(1);
      if (!v.e) { memset(o->d + off, (int)(v.c & 0xff), len); if (o->st) memset(o->st + off, 0, len); } else { const Expr* b = v.e->w > 8 ? mkExtract(v.e, 7, 0) : v.e; for (u64 i = 0; i < len; i++) o->putByte((u32)(off + i), b); }
      setRet(s, f, n, Val(d)); return false; }
    case B_MEMCMP: {
      u64 len = concretize(s, A(2), 64); if (len == 0) { setRet(s, f, n, Val((u64)0)); return false; }
      u64 p = concretize(s, A(0), 64), q = concretize(s, A(1), 64);
      Obj* a = lookup(s, p >> 24); if (!a || (p & 0xffffff) + len > a->size) badAccess(s, p, (u32)len, false);
      Obj* b = lookup(s, q >> 24); if (!b || (q & 0xffffff) + len > b->size) badAccess(s, q, (u32)len, false);
      u32 po = p & 0xffffff, qo = q & 0xffffff;
      if (a->concrete(po, (u32)len) && b->concrete(qo, (u32)len)) { int r = memcmp(a->d + po, b->d + qo, len); setRet(s, f, n, Val((u64)(u32)(r < 0 ? -1 : r > 0 ? 1 : 0))); return false; }
      const Expr* r = mkConst(0, 32);
      for (int64_t i = (int64_t)len - 1; i >= 0; i--) { const Expr *ea = byteAt(a, p >> 24, po + (u32)i), *eb = byteAt(b, q >> 24, qo + (u32)i); r = mkIte(mkEq(ea, eb), r, n.sub ? mkConst(1, 32) : mkIte(mkBin(K_ULT, ea, eb), mkConst(0xffffffffu, 32), mkConst(1, 32))); }
      setRet(s, f, n, N(r)); return false; }
    case B_ABORT: report(s, "abort", "abort() called", s.model); throw Dead();
    case B_EXIT: report(s, "abort", "exit() called", s.model); throw Dead();
    case B_TRAP: report(s, "abort", "trap", s.model); throw Dead();
    case B_TERMINATE: report(s, "terminate", "std::terminate called", s.model); throw Dead();
    case B_ASSERT: report(s, "abort", "assertion failed in library code", s.model); throw Dead();
    case B_PUREV: report(s, "abort", "pure virtual call", s.model); throw Dead();
    case B_THROW: { u64 obj = A(0).c, ti = A(1).c; s.exc.push_back({obj, ti}); unwind(s, obj, ti, true); return true; }
    case B_RETHROW: {
      if (s.caught.empty()) { report(s, "terminate", "rethrow without exception", s.model); throw Dead(); }
      u64 obj = s.caught.back(); u64 ti = 0; for (auto& e : s.exc) if (e.first == obj) ti = e.second; unwind(s, obj, ti, true); return true; }
    case B_BEGINC: { u64 obj = A(0).c; s.caught.push_back(obj); setRet(s, f, n, Val(obj)); return false; }
    case B_ENDC: if (!s.caught.empty()) s.caught.pop_back(); return false;
    case B_GETEXC: setRet(s, f, n, A(0)); return false;
    case B_GUARDACQ: { Val g = loadScalar(s, A(0), 1, 8); setRet(s, f, n, Val((u64)(g.e || g.c ? 0 : 1))); return false; }
    case B_GUARDREL: storeScalar(s, A(0), 1, Val((u64)1), 8); return false;
    case B_RAND: { const char* nm = "rand"; const Expr* e = mkSym("i" + std::to_string(s.inputs.size()) + "_rand", 31); s.inputs.push_back({nm, e, 31}); setRet(s, f, n, N(mkZExt(e, n.w))); return false; }
    case B_TIME: {
      const Expr* e = mkSym("i" + std::to_string(s.inputs.size()) + "_time", 31); s.inputs.push_back({"time", e, 31}); Val v = N(mkZExt(e, 64));
      Val p = A(0); if (p.e || p.c) storeScalar(s, p, 8, v, 64); setRet(s, f, n, v); return false; }
    case B_MATH1: {
      const Val& a = A(0); unsigned w = n.w;
      auto ev = [&](u64 bits) -> u64 { double d; float ff; if (w == 64) memcpy(&d, &bits, 8); else { u32 b = (u32)bits; memcpy(&ff, &b, 4); d = ff; }
        switch (n.sub) { case 1: d = std::tanh(d); break; case 2: d = std::exp(d); break; case 3: d = std::log(d); break; case 4: d = std::log10(d); break; case 5: d = std::log2(d); break; case 6: d = std::sin(d); break; case 7: d = std::cos(d); break; case 8: d = std::tan(d); break; case 10: d = std::cbrt(d); break; case 11: d = std::exp2(d); break; case 12: d = std::expm1(d); break; case 13: d = std::log1p(d); break; case 14: d = std::asin(d); break; case 15: d = std::acos(d); break; case 16: d = std::sinh(d); break; case 17: d = std::cosh(d); break; case 18: d = std::erf(d); break; case 19: d = std::tgamma(d); break; case 20: d = std::lgamma(d); break; default: d = std::atan(d); }
        u64 r = 0; if (w == 64) memcpy(&r, &d, 8); else { ff = (float)d; u32 b; memcpy(&b, &ff, 4); r = b; } return r; };
      if (!a.e) { setRet(s, f, n, Val(ev(a.c))); return false; }
      if (fewValues(a)) { setRet(s, f, n, Val(ev(concretize(s, a, w)))); return false; }
      setRet(s, f, n, Val(absVar("math" + std::to_string(n.sub) + "_" + std::to_string(a.e->id), w))); return false; }
    case B_POW: {
      Val a = A(0), b = A(1); unsigned w = n.w; if (fewValues(a)) a = Val(concretize(s, a, w)); if (fewValues(b)) b = Val(concretize(s, b, w));
      if (!a.e && !b.e) { double p, q; float fp; if (w == 64) { memcpy(&p, &a.c, 8); memcpy(&q, &b.c, 8); } else { u32 t = (u32)a.c; memcpy(&fp, &t, 4); p = fp; t = (u32)b.c; memcpy(&fp, &t, 4); q = fp; }
        double r = n.sub == 0 ? std::pow(p, q) : n.sub == 1 ? std::atan2(p, q) : n.sub == 2 ? std::fmod(p, q) : n.sub == 4 ? std::remainder(p, q) : n.sub == 5 ? std::fdim(p, q) : std::hypot(p, q); u64 o = 0; if (w == 64) memcpy(&o, &r, 8); else { fp = (float)r; u32 t; memcpy(&t, &fp, 4); o = t; } setRet(s, f, n, Val(o)); return false; }
      setRet(s, f, n, Val(absVar("math2" + std::to_string(n.sub) + "_" + std::to_string(X(a, w)->id) + "_" + std::to_string(X(b, w)->id), w))); return false; }
    case B_SQRT: setRet(s, f, n, N(mkF1(K_FSQRT, X(A(0), n.w), n.w))); return false;
    case B_ROUND: setRet(s, f, n, N(mkF1(K_FROUND, X(A(0), n.w), n.w, n.sub))); return false;
    case B_FTOL: setRet(s, f, n, N(mkF1(K_FTOSI, mkF1(K_FROUND, X(A(0), x.aw[0]), x.aw[0], n.sub), n.w))); return false;
    case B_FABS: setRet(s, f, n, N(mkBin(K_AND, X(A(0), n.w), mkConst(mk(n.w - 1), n.w)))); return false;
    case B_COPYSIGN: setRet(s, f, n, N(mkBin(K_OR, mkBin(K_AND, X(A(0), n.w), mkConst(mk(n.w - 1), n.w)), mkBin(K_AND, X(A(1), n.w), mkConst(1ull << (n.w - 1), n.w))))); return false;
    case B_FMULADD: setRet(s, f, n, N(mkBin(K_FADD, mkBin(K_FMUL, X(A(0), n.w), X(A(1), n.w)), X(A(2), n.w)))); return false;
    case B_FMINMAX: { const Expr *a = X(A(0), n.w), *b = X(A(1), n.w); const Expr* lt = n.sub ? mkBin(K_FLT, a, b) : mkBin(K_FLT, b, a); setRet(s, f, n, N(mkIte(mkOr(lt, mkF1(K_FNAN, b, 1)), a, b))); return false; }
    case B_OVF: {
      unsigned w = x.aw[0]; const Expr *a = X(A(0), w), *b = X(A(1), w); Kind k = n.sub % 3 == 0 ? K_ADD : n.sub % 3 == 1 ? K_SUB : K_MUL; bool sg = n.sub >= 3; unsigned W = n.sub % 3 == 2 ? 2 * w : w + 1;
      const Expr* r = mkBin(k, a, b); const Expr *ea = sg ? mkSExt(a, W) : mkZExt(a, W), *eb = sg ? mkSExt(b, W) : mkZExt(b, W); const Expr* full = mkBin(k, ea, eb);
      const Expr* o = mkNot(mkEq(full, sg ? mkSExt(r, W) : mkZExt(r, W))); std::vector<Val> v{N(r), N(o)}; setRet(s, f, n, Val(mkAgg(v))); return false; }
    case B_MINMAX: { unsigned w = n.w; const Expr *a = X(A(0), w), *b = X(A(1), w); const Expr* r;
      switch (n.sub) { case 0: r = mkIte(mkBin(K_ULT, a, b), b, a); break; case 1: r = mkIte(mkBin(K_ULT, a, b), a, b); break; case 2: r = mkIte(mkBin(K_SLT, a, b), b, a); break; case 3: r = mkIte(mkBin(K_SLT, a, b), a, b); break; case 4: { const Expr* t = mkBin(K_ADD, a, b); r = mkIte(mkBin(K_ULT, t, a), mkConst(maskW(w), w), t); break; } default: r = mkIte(mkBin(K_ULT, a, b), mkConst(0, w), mkBin(K_SUB, a, b)); }
      setRet(s, f, n, N(r)); return false; }
    case B_ABS: { const Expr* a = X(A(0), n.w); setRet(s, f, n, N(mkIte(mkBin(K_SLT, a, mkConst(0, n.w)), mkBin(K_SUB, mkConst(0, n.w), a), a))); return false; }
    case B_FPCLASS: { unsigned w = x.aw[0], ms = w == 64 ? 52 : 23; const Expr* a = X(A(0), w); u64 k = A(1).c;
      const Expr *neg = mkExtract(a, w - 1, w - 1), *ex = mkExtract(a, w - 2, ms), *mt = mkExtract(a, ms - 1, 0), *quiet = mkExtract(a, ms - 1, ms - 1), *top = mkEq(ex, mkConst(maskW(w - 1 - ms), w - 1 - ms)), *low = mkEq(ex, mkConst(0, w - 1 - ms)), *mz = mkEq(mt, mkConst(0, ms)), *pos = mkNot(neg), *nmz = mkNot(mz);
      const Expr *norm = mkAnd(mkNot(top), mkNot(low)), *inf = mkAnd(top, mz), *nan = mkAnd(top, nmz), *zero = mkAnd(low, mz), *sub = mkAnd(low, nmz);
      const Expr* cl[10] = {mkAnd(nan, mkNot(quiet)), mkAnd(nan, quiet), mkAnd(inf, neg), mkAnd(norm, neg), mkAnd(sub, neg), mkAnd(zero, neg), mkAnd(zero, pos), mkAnd(sub, pos), mkAnd(norm, pos), mkAnd(inf, pos)};
      const Expr* r = mkFalse(); for (int i = 0; i < 10; i++) if (k >> i & 1) r = mkOr(r, cl[i]); setRet(s, f, n, N(r)); return false; }
    case B_CTLZ: { const Expr* a = X(A(0), n.w); const Expr* r = mkConst(n.w, n.w); for (unsigned i = 0; i < n.w; i++) r = mkIte(mkExtract(a, i, i), mkConst(n.w - 1 - i, n.w), r); setRet(s, f, n, N(r)); return false; }
    case B_CTTZ: { const Expr* a = X(A(0), n.w); const Expr* r = mkConst(n.w, n.w); for (int i = n.w - 1; i >= 0; i--) r = mkIte(mkExtract(a, i, i), mkConst(i, n.w), r); setRet(s, f, n, N(r)); return false; }
    case B_CTPOP: { const Expr* a = X(A(0), n.w); const Expr* r = mkConst(0, n.w); for (unsigned i = 0; i < n.w; i++) r = mkBin(K_ADD, r, mkZExt(mkExtract(a, i, i), n.w)); setRet(s, f, n, N(r)); return false; }
    case B_BSWAP: { const Expr* a = X(A(0), n.w); const Expr* r = nullptr; for (unsigned i = 0; i < n.w; i += 8) { const Expr* b = mkExtract(a, i + 7, i); r = r ? mkConcat(r, b) : b; } setRet(s, f, n, N(r)); return false; }
    case B_FSH: { unsigned w = n.w; Val sh = A(2); if (sh.e) { sh = Val(concretize(s, sh, w)); } unsigned k = sh.c % w; const Expr *a = X(A(0), w), *b = X(A(1), w);
      const Expr* r = k == 0 ? (n.sub ? b : a) : n.sub == 0 ? mkBin(K_OR, mkBin(K_SHL, a, mkConst(k, w)), mkBin(K_LSHR, b, mkConst(w - k, w))) : mkBin(K_OR, mkBin(K_SHL, a, mkConst(w - k, w)), mkBin(K_LSHR, b, mkConst(k, w)));
      setRet(s, f, n, N(r)); return false; }
    case B_OBJSIZE: setRet(s, f, n, Val(A(1).c ? 0 : mk(n.w))); return false;
    case B_ISCONST: setRet(s, f, n, Val((u64)0)); return false;
    case B_TYPEID: setRet(s, f, n, Val(selOf(A(0).c))); return false;
    case B_VASTART: {
      if (n.sub) { for (int i = 0; i < 24; i += 8) storeScalar(s, Val(concretize(s, A(0), 64) + i), 8, loadScalar(s, Val(concretize(s, A(1), 64) + i), 8, 64), 64); return false; }
      u64 p = concretize(s, A(0), 64); storeScalar(s, Val(p), 8, Val(((u64)304 << 32) | 48), 64); storeScalar(s, Val(p + 8), 8, Val(f.va), 64); storeScalar(s, Val(p + 16), 8, Val((u64)0), 64); return false; }
    case B_SNPRINTF: {
      u64 buf = concretize(s, A(0), 64), sz = concretize(s, A(1), 64); std::string fmt = cstr(s, concretize(s, A(2), 64)); std::vector<u64> av; for (size_t i = 3; i < x.args.size(); i++) av.push_back(concretize(s, A(i), x.aw[i] ? x.aw[i] : 64));
      std::vector<char> big; std::string out; size_t ai = 0; auto bad = [&]() { unsupported["snprintf format " + fmt]++; inconclusive = true; throw Dead(); };
      u64 vaObj = 0; if (n.sub) { vaObj = loadScalar(s, Val(av.empty() ? 0 : av[0] + 8), 8, 64).c; av.clear(); }
      auto next = [&](unsigned w) -> u64 { if (n.sub) { Val v = loadScalar(s, Val(vaObj + 8 * ai++), 8, 64); return concretize(s, v, 64); } if (ai >= av.size()) bad(); return av[ai++]; };
      for (size_t i = 0; i < fmt.size(); i++) {
        if (fmt[i] != '%') { out += fmt[i]; continue; } if (fmt[i + 1] == '%') { out += '%'; i++; continue; }
        std::string sp = "%"; i++; while (i < fmt.size() && strchr("-+ #0", fmt[i])) sp += fmt[i++]; auto num = [&]() { if (i < fmt.size() && fmt[i] == '*') { sp += std::to_string((int)next(32)); i++; } else while (i < fmt.size() && isdigit(fmt[i])) sp += fmt[i++]; }; num(); if (i < fmt.size() && fmt[i] == '.') { sp += fmt[i++]; num(); }
        int L = 0; while (i < fmt.size() && strchr("hlzjtL", fmt[i])) { L += fmt[i] == 'h' ? -1 : fmt[i] == 'l' ? 1 : 2; i++; } if (i >= fmt.size()) bad(); char c = fmt[i], tmp[600];
        if (strchr("di", c)) { long long v = (long long)next(64); v = L >= 1 ? v : L == 0 ? (int)v : L == -1 ? (short)v : (signed char)v; snprintf(tmp, sizeof tmp, (sp + "ll" + c).c_str(), v); out += tmp; }
        else if (strchr("uxXo", c)) { unsigned long long v = next(64); v = L >= 1 ? v : L == 0 ? (unsigned)v : L == -1 ? (unsigned short)v : (unsigned char)v; snprintf(tmp, sizeof tmp, (sp + "ll" + c).c_str(), v); out += tmp; }
        else if (c == 'c') { char ch = (char)next(32); std::string one(1, ch); snprintf(tmp, sizeof tmp, (sp + "s").c_str(), one.c_str()); if (!ch) bad(); out += tmp; }
        else if (c == 'p') { snprintf(tmp, sizeof tmp, (sp + "p").c_str(), (void*)next(64)); out += tmp; }
        else if (c == 's') { std::string t = cstr(s, next(64)); std::vector<char> w(t.size() + 700); snprintf(w.data(), w.size(), (sp + "s").c_str(), t.c_str()); out += w.data(); }
        else if (strchr("fFgGeEaA", c) && L < 2) { u64 bits = next(64); double d; memcpy(&d, &bits, 8); snprintf(tmp, sizeof tmp, (sp + c).c_str(), d); out += tmp; }
        else bad();
      }
      int r = (int)out.size(); big.assign(out.begin(), out.end()); big.push_back(0); char* tmp = big.data();
      if (sz) { u64 m = std::min<u64>(r, sz - 1); Obj* o = lookup(s, buf >> 24); if (!o || (buf & 0xffffff) + m + 1 > o->size) badAccess(s, buf, (u32)m + 1, true); o = lookupW(s, buf >> 24); tmp[m] = 0; o->putC(buf & 0xffffff, tmp, (u32)m + 1); }
      setRet(s, f, n, Val((u64)(u32)r)); return false; }
    case B_STRTOD: {
      if (n.sub == 9) { unsupported["strtold"]++; inconclusive = true; throw Dead(); }
      std::string t = cstr(s, concretize(s, A(0), 64)); u64 ep = concretize(s, A(1), 64); char* e = nullptr; u64 v = 0; bool er = false; errno = 0;
      if (n.sub == 0) { double d = strtod(t.c_str(), &e); memcpy(&v, &d, 8); } else if (n.sub == 1) { float d = strtof(t.c_str(), &e); u32 b; memcpy(&b, &d, 4); v = b; }
      else if (n.sub == 2) v = strtoull(t.c_str(), &e, (int)concretize(s, A(2), 32)); else v = (u64)strtoll(t.c_str(), &e, (int)concretize(s, A(2), 32));
      er = errno == ERANGE;
      if (ep) storeScalar(s, Val(ep), 8, Val(concretize(s, A(0), 64) + (e - t.c_str())), 64);
      if (er) { for (auto& g : gvAddr) if (g.first->getName() == "__rt_errno") storeScalar(s, Val(g.second), 4, Val((u64)ERANGE), 32); }
      setRet(s, f, n, Val(v & mk(n.w))); return false; }
    case S_BV: {
      std::string nm = cstr(s, concretize(s, A(0), 64)); unsigned w = (unsigned)concretize(s, A(1), 32);
      u64 mx = n.sub ? concretize(s, A(2), 64) : ~0ull;
      const Expr* e = mx == 0 ? mkConst(0, w) : mkSym("i" + std::to_string(s.inputs.size()) + "_" + nm, w, false, mx == ~0ull ? ~(u128)0 : (u128)mx); s.inputs.push_back({internStr(nm), e, w}); setRet(s, f, n, N(mkZExt(e, 64))); return false; }
    case S_PARAM: { std::string nm = cstr(s, concretize(s, A(0), 64)); auto it = params.find(nm); if (it == params.end()) { setRet(s, f, n, A(1)); } else setRet(s, f, n, Val(it->second)); return false; }
    case S_ASSUME: {
      Val c = A(0); if (!c.e) { if (c.c & 1) return false; nAssumeKill++; throw Dead(); }
      const Expr* e = c.e->w == 1 ? c.e : mkNot(mkEq(c.e, mkConst(0, c.e->w))); if (e->hasUninit) e = settleUninit(s, e, "assumed condition");
      if (evalExpr(e, *s.model)) { addPC(s, e); return false; }
      ModelP m; SatRes r = query(s, e, &m); if (r != SAT) { nAssumeKill++; throw Dead(); } s.model = m; addPC(s, e); return false; }
    case S_CHECK: {
      Val c = A(0); std::string msg = cstr(s, concretize(s, A(1), 64)); nChecks++; reached["check: " + msg]++;
      if (!c.e) { if (c.c) return false; report(s, "check", msg, s.model); throw Dead(); }
      const Expr* e = c.e->w == 1 ? c.e : mkNot(mkEq(c.e, mkConst(0, c.e->w))); if (e->hasUninit) e = settleUninit(s, e, "asserted condition");
      if (e->k == K_CONST) { if (e->c) return false; report(s, "check", msg, s.model); throw Dead(); }
      nChecksSolver++;
      if (knownLit(s, e) == 1) return false;
      ModelP m; SatRes r = query(s, mkNot(e), &m);
      if (r == SAT) { report(s, "check", msg, m); if (query(s, e, &m) != SAT) throw Dead(); s.model = m; addPC(s, e); }
      else s.known.insert(e->id);
      return false; }
    case S_REACH: reached[cstr(s, concretize(s, A(0), 64))]++; return false;
    case S_OBS: { std::string nm = cstr(s, concretize(s, A(0), 64)); s.obs.push_back({internStr(nm), A(1)}); return false; }
    case S_CONC: { u64 v = concretize(s, A(0), 64); setRet(s, f, n, Val(v)); return false; }
    case S_ISSYM: setRet(s, f, n, Val((u64)1)); return false;
    case S_KNOWN: setRet(s, f, n, Val((u64)(A(0).e ? 0 : 1))); return false;
    case S_TRYFALSE: { Val c = A(0); if (!c.e) { setRet(s, f, n, Val(c.c & 1)); return false; } ModelP m; setRet(s, f, n, Val((u64)(query(s, mkNot(mkEq(c.e, mkConst(0, c.e->w))), &m) == SAT))); return false; }
  }
  unsupported["builtin " + x.name]++; inconclusive = true; throw Dead();
}

// ---------------------------------------------------------------- interpreter
enum RunRes { R_DONE, R_PARK, R_DEAD };
static void runMerge(State*& s, size_t depth);
static u64 budgetCheck = 0;
static Val aggGet(const Val& v, const std::vector<unsigned>& idx) { Val x = v; for (unsigned i : idx) x = (*x.e->agg)[i]; return x; }
static Val aggSet(const Val& v, const std::vector<unsigned>& idx, size_t k, const Val& nv) {
  if (k == idx.size()) return nv; std::vector<Val> a = *v.e->agg; a[idx[k]] = aggSet(a[idx[k]], idx, k + 1, nv); return Val(mkAgg(a));
}
static bool timeUp = false;
static bool outOfBudget() {
  if (timeUp) return true;
  if (now() > deadline) { timeUp = true; unsupported["time budget exhausted"]++; inconclusive = true; return true; }
  FILE* fp = fopen("/proc/self/statm", "r"); if (fp) { long a, b = 0; if (fscanf(fp, "%ld %ld", &a, &b) != 2) b = 0; fclose(fp); if ((size_t)b * 4096 / 1048576 > maxMemMB) { timeUp = true; unsupported["memory budget exhausted"]++; inconclusive = true; return true; } }
  return false;
}
static void pushFrame(State& s, Fn* fn, const std::vector<Val>& args) {
  decode(fn); fn->execs++;
  Frame nf; nf.fn = fn; nf.pc = 0; nf.rb = s.regs.size(); nf.sb = s.stk.size();
  s.regs.resize(nf.rb + fn->nregs);
  for (size_t i = 0; i < fn->nargs && i < args.size(); i++) s.regs[nf.rb + i] = args[i];
  if (args.size() > fn->nargs && fn->F->isVarArg()) { nf.va = newHeap(s, 8 * (args.size() - fn->nargs), OK_MALLOC, true); for (size_t i = fn->nargs; i < args.size(); i++) storeScalar(s, Val(nf.va + 8 * (i - fn->nargs)), 8, args[i].e ? Val(mkZExt(args[i].e, 64)) : args[i], 64); }
  s.fr.push_back(nf);
}

// joins the two sides of a branch over plain code; 0: not possible, the branch is taken the ordinary way
static bool finishSample(State& s);
static u32 stopPc = ~0u; static size_t stopDepth = 0; static u64 nDiamonds = 0;
static RunRes run(State*& sp, size_t depth);
static int diamond(State*& sp, const Expr* c, const Ins& n) {
  State* s = sp; if (c->hasUninit || c->k == K_CONST || knownLit(*s, c) >= 0) return 0;
  bool side = evalExpr(c, *s->model) != 0; const Expr* nc = mkNot(c); ModelP m;
  SatRes r = query(*s, side ? nc : c, &m); if (r == UNKNOWN) return 0;
  if (r == UNSAT) { s->known.insert((side ? c : nc)->id); return 0; }
  const DiaX& d = s->fr.back().fn->dias[n.a - 1]; size_t dep = s->fr.size(), L = s->pc.size();
  State* o = new State(*s); o->id = ++nextState; o->model = m; nStates++; addPC(*s, side ? c : nc); addPC(*o, side ? nc : c);
  State* tr = side ? s : o; State* fa = side ? o : s;
  takeEdge(*tr, tr->fr.back(), n.x); takeEdge(*fa, fa->fr.back(), (u32)n.b);
  std::vector<State*>* saved = cur; std::vector<State*> extra; cur = &extra; std::vector<StoreRec> log; std::vector<StoreRec>* slog0 = slog; bool bad0 = slogBad; u32 pc0 = stopPc; size_t dep0 = stopDepth; slog = &log; slogBad = false;
  stopPc = d.joinPc; stopDepth = dep;
  State* a = s; State* b = o; RunRes ra = run(a, 0), rb = run(b, 0);
  bool bad = slogBad; stopPc = pc0; stopDepth = dep0; slog = slog0; slogBad = bad0 || bad; cur = saved; if (slog) slog->insert(slog->end(), log.begin(), log.end());
  if (ra == R_DONE) { finishSample(*a); ra = R_DEAD; } if (rb == R_DONE) { finishSample(*b); rb = R_DEAD; }
  bool ok = ra == R_PARK && rb == R_PARK && extra.empty() && !bad && a->fr.size() == dep && b->fr.size() == dep && a->stk.size() == b->stk.size() && a->fr.back().pc == d.joinPc && b->fr.back().pc == d.joinPc && a->exc.size() == b->exc.size() && a->inputs.size() == b->inputs.size() && a->obs.size() == b->obs.size() && a->pc.size() + b->pc.size() <= 2 * L + 64;
  if (ok) for (auto& t : log) { Obj *x = lookup(*a, t.id), *y = lookup(*b, t.id); if (!x && !y) continue; if (!x || !y || x->size != y->size) { ok = false; break; }
    auto un = [&](Obj* z) { if (z->st) for (u32 i = 0; i < t.n; i++) if (z->st[t.off + i] == 2) return true; return false; }; if (un(x) != un(y)) { ok = false; break; } }
  if (!ok) {       // go on separately
    nForks++; if (ra == R_DEAD) delete a; if (rb == R_DEAD) delete b;
    std::vector<State*> live; if (ra == R_PARK) live.push_back(a); if (rb == R_PARK) live.push_back(b); for (State* e : extra) live.push_back(e);
    if (live.empty()) { sp = nullptr; return 1; }
    sp = live[0]; for (size_t i = 1; i < live.size(); i++) cur->push_back(live[i]); return 1;
  }
  // a holds when its own condition does
  const Expr* ca = side ? c : nc; nDiamonds++;
  std::set<std::tuple<u64, u32, u32>> done; std::vector<std::pair<StoreRec, const Expr*>> w;
  for (auto& t : log) if (done.insert({t.id, t.off, t.n}).second) {
    Obj *x = lookup(*a, t.id), *y = lookup(*b, t.id); if (x == y || !x || !y) continue; bool u = false; if (x->st) for (u32 i = 0; i < t.n; i++) u |= x->st[t.off + i] == 2; if (u) continue;
    const Expr* vx = X(loadBytes(*a, x, t.id, t.off, t.n, t.n * 8), t.n * 8); const Expr* vy = X(loadBytes(*b, y, t.id, t.off, t.n, t.n * 8), t.n * 8);
    if (vx != vy) w.push_back({t, mkIte(ca, vx, vy)});
  }
  for (auto& t : w) storeObj(lookupW(*a, t.first.id), t.first.off, t.first.n, N(t.second), t.first.n * 8);
  Fn* fn = a->fr.back().fn; u32 rb0 = a->fr.back().rb;
  for (auto& ph : d.join->phis()) {
    int k = fn->phiReg.at(&ph); Val &x = a->regs[rb0 + k], &y = b->regs[rb0 + k]; if (x.c == y.c && x.e == y.e) continue;
    unsigned wd = ty(ph.getType())->w; x = N(mkIte(ca, X(x, wd), X(y, wd)));
  }
  a->pc.resize(L); a->known.clear(); for (auto q : a->pc) a->known.insert(q->id);
  if (b->steps > a->steps) a->steps = b->steps; nStates--; delete b; sp = a; return 1;
}
static RunRes run(State*& sp, size_t depth) {
  State* s = sp; if (depth && s->fr.size() <= depth) return R_PARK;
  try {
    while (true) {
      Frame& f = s->fr.back(); const Ins& n = f.fn->code[f.pc];
      if (stopPc != ~0u && (s->fr.size() < stopDepth || (f.pc == stopPc && s->fr.size() == stopDepth))) return R_PARK;
      nInstr++; if (++s->steps > maxPathSteps) { report(*s, "hang", "no end within the instruction budget of one path", s->model); throw Dead(); }
      if ((nInstr & 0xfffff) == 0 && outOfBudget()) { throw Dead(); }
      locs[n.line].hit = true;
      switch (n.op) {
        case O_BIN: { Val r = binop(*s, (Kind)n.sub, opv(*s, f, n.a), opv(*s, f, n.b), n.w); reg(*s, f, n.dst) = r; f.pc++; break; }
        case O_FBIN: { Val r = N(mkBin((Kind)n.sub, X(opv(*s, f, n.a), n.w), X(opv(*s, f, n.b), n.w))); reg(*s, f, n.dst) = r; f.pc++; break; }
        case O_ICMP: reg(*s, f, n.dst) = icmp(n.sub, opv(*s, f, n.a), opv(*s, f, n.b), n.w); f.pc++; break;
        case O_FCMP: reg(*s, f, n.dst) = fcmp(n.sub, opv(*s, f, n.a), opv(*s, f, n.b), n.w); f.pc++; break;
        case O_FNEG: reg(*s, f, n.dst) = N(mkBin(K_XOR, X(opv(*s, f, n.a), n.w), mkConst((u128)1 << (n.w - 1), n.w))); f.pc++; break;
        case O_CAST: reg(*s, f, n.dst) = castv(n, opv(*s, f, n.a)); f.pc++; break;
        case O_FREEZE: if (n.dst >= 0) reg(*s, f, n.dst) = opv(*s, f, n.a); f.pc++; break;
        case O_ALLOCA: { u64 cnt = concretize(*s, opv(*s, f, n.a), 64); u64 a = newStack(*s, n.x * cnt); reg(*s, f, n.dst) = Val(a); f.pc++; break; }
        case O_LOAD: { Val v = loadT(*s, opv(*s, f, n.a), n.t); reg(*s, f, n.dst) = v; f.pc++; break; }
        case O_STORE: { storeT(*s, opv(*s, f, n.a), opv(*s, f, n.b), n.t); f.pc++; break; }
        case O_GEP: {
          const GepX& x = f.fn->geps[n.x]; Val p = opv(*s, f, n.a); bool sym = p.e; u64 c = x.off + (p.e ? 0 : p.c);
          for (auto& t : x.idx) { const Val& v = opv(*s, f, std::get<0>(t)); unsigned w = std::get<1>(t); if (v.e) sym = true; else c += (u64)((int64_t)(v.c << (64 - w)) >> (64 - w)) * std::get<2>(t); }
          if (!sym) { reg(*s, f, n.dst) = Val(c); f.pc++; break; }
          const Expr* e = p.e ? p.e : nullptr;
          for (auto& t : x.idx) { const Val& v = opv(*s, f, std::get<0>(t)); if (!v.e) continue; const Expr* i = mkSExt(v.e, 64); i = mkBin(K_MUL, i, mkConst(std::get<2>(t), 64)); e = e ? mkBin(K_ADD, e, i) : i; }
          reg(*s, f, n.dst) = N(mkBin(K_ADD, e, mkConst(c, 64))); f.pc++; break; }
        case O_SELECT: {
          const Val& c = opv(*s, f, n.c); Val r;
          if (!c.e) r = opv(*s, f, c.c ? n.a : n.b);
          else { const Val &a = opv(*s, f, n.a), &b = opv(*s, f, n.b); int kl = knownLit(*s, c.e); if (kl >= 0) r = kl ? a : b; else if (n.t->kind == 1) r = branchOn(*s, c.e) ? a : b; else r = N(mkIte(c.e, X(a, n.w), X(b, n.w))); }
          reg(*s, f, n.dst) = r; f.pc++; break; }
        case O_BR: takeEdge(*s, f, n.x); break;
        case O_CBR: { const Val& c = opv(*s, f, n.c); if (c.e && n.a) { sp = s; int r = diamond(sp, c.e, n); if (r) { s = sp; if (!s) return R_DEAD; if (depth && s->fr.size() <= depth) return R_PARK; break; } }
          bool t = c.e ? branchOn(*s, c.e) : (c.c != 0); takeEdge(*s, f, t ? n.x : (u32)n.b); break; }
        case O_SWITCH: {
          const Val& v = opv(*s, f, n.a); const SwX& x = f.fn->sws[n.x]; u32 e = x.def;
          if (!v.e) { for (auto& c : x.cases) if (c.first == v.c) { e = c.second; break; } takeEdge(*s, f, e); break; }
          std::map<u32, const Expr*> byE; for (auto& c : x.cases) { const Expr* q = mkEq(v.e, mkConst(c.first, n.w)); auto it = byE.find(c.second); if (it == byE.end()) byE[c.second] = q; else it->second = mkOr(it->second, q); }
          // try the side the model takes first
          u64 mv = (u64)evalExpr(v.e, *s->model); for (auto& c : x.cases) if (c.first == mv) { e = c.second; break; }
          if (e != x.def) { branchOn(*s, byE[e]); takeEdge(*s, f, e); }
          else { const Expr* any = mkFalse(); for (auto& p : byE) if (p.first != x.def) any = mkOr(any, p.second); if (!branchOn(*s, any)) takeEdge(*s, f, e); else fatal("switch"); }
          break; }
        case O_RET: {
          Val r; bool has = n.b; if (has) r = opv(*s, f, n.a);
          popFrame(*s);
          if (s->fr.empty()) return R_DONE;
          Frame& g = s->fr.back(); const Ins& ci = g.fn->code[g.pc]; CallX& cx = g.fn->calls[ci.x];
          if (has && ci.dst >= 0) reg(*s, g, ci.dst) = r;
          if (cx.invoke) takeEdge(*s, g, cx.normal); else g.pc++;
          if (s->fr.size() == depth) return R_PARK;
          break; }
        case O_CALL: {
          CallX& x = f.fn->calls[n.x];
          if (x.bi >= 0) { bool moved = builtin(*s, f, n, x); if (!moved) { Frame& g = s->fr.back(); if (x.invoke) takeEdge(*s, g, x.normal); else g.pc++; } else if (s->fr.size() <= depth && depth) return R_PARK; break; }
          Fn* callee = x.callee;
          if (x.bi == -2) { unsupported["external function " + dem(x.name)]++; inconclusive = true; if (getenv("SX_VERBOSE")) fprintf(stderr, "external %s at %s\n", x.name.c_str(), whereOf(*s).c_str()); throw Dead(); }
          if (!callee) {
            u64 a = concretize(*s, opv(*s, f, x.calleeOp), 64); u64 id = a >> 24;
            if (!(id & FUNCBIT) || (id & ~FUNCBIT) >= fnList.size()) { report(*s, "mem-read", "call through an invalid function pointer", s->model); throw Dead(); }
            callee = fnList[id & ~FUNCBIT];
            if (callee->F->isDeclaration()) { int sub; int bi = lookupBi(callee->F, sub); if (bi >= 0) { CallX y = x; y.bi = bi; Ins m = n; m.sub = sub; bool moved = builtin(*s, f, m, y); if (!moved) { Frame& g = s->fr.back(); if (x.invoke) takeEdge(*s, g, x.normal); else g.pc++; } break; } unsupported["external function " + callee->dem]++; inconclusive = true; throw Dead(); }
          }
          std::vector<Val> args; args.reserve(x.args.size()); for (int a : x.args) args.push_back(opv(*s, f, a));
          size_t d0 = s->fr.size();
          pushFrame(*s, callee, args);
          for (auto& bv : callee->byvalArgs) {
            u64 src = concretize(*s, args[bv.first], 64); u64 dst = newStack(*s, bv.second); Obj* so = lookup(*s, src >> 24); if (!so || (src & 0xffffff) + bv.second > so->size) badAccess(*s, src, (u32)bv.second, false);
            Obj* d = lookupW(*s, dst >> 24); for (u32 i = 0; i < bv.second; i++) { u32 o = (src & 0xffffff) + i; if (so->st && so->st[o] == 2) continue; d->putByte(i, byteAt(so, src >> 24, o)); }
            s->regs[s->fr.back().rb + bv.first] = Val(dst);
          }
          if (callee->mergeFn) { sp = s; runMerge(sp, d0); s = sp; if (!s) return R_DEAD; if (depth && s->fr.size() <= depth) return R_PARK; }
          break; }
        case O_RESUME: { Val v = opv(*s, f, n.a); u64 obj = (*v.e->agg)[0].c; u64 ti = 0; for (auto& e : s->exc) if (e.first == obj) ti = e.second; f.pc = f.pc; unwind(*s, obj, ti, false); if (depth && s->fr.size() <= depth) return R_PARK; break; }
        case O_UNREACH: report(*s, "unreachable", "control reached a point the compiler assumes unreachable", s->model); throw Dead();
        case O_EXTRV: reg(*s, f, n.dst) = aggGet(opv(*s, f, n.a), f.fn->aggs[n.x].idx); f.pc++; break;
        case O_INSV: reg(*s, f, n.dst) = aggSet(opv(*s, f, n.a), f.fn->aggs[n.x].idx, 0, opv(*s, f, n.b)); f.pc++; break;
        case O_RMW: {
          Val p = opv(*s, f, n.a), v = opv(*s, f, n.b), o = loadScalar(*s, p, (u32)n.t->size, n.w); Val r;
          switch (n.sub) { case AtomicRMWInst::Add: r = binop(*s, K_ADD, o, v, n.w); break; case AtomicRMWInst::Sub: r = binop(*s, K_SUB, o, v, n.w); break; case AtomicRMWInst::Xchg: r = v; break; default: unsupported["atomicrmw"]++; inconclusive = true; throw Dead(); }
          storeScalar(*s, p, (u32)n.t->size, r, n.w); reg(*s, f, n.dst) = o; f.pc++; break; }
        default: { std::string t; raw_string_ostream os(t); n.I->print(os); unsupported["instruction " + t]++; inconclusive = true; if (getenv("SX_VERBOSE")) fprintf(stderr, "unsupported %s in %s\n", t.c_str(), f.fn->dem.c_str()); throw Dead(); }
      }
    }
  } catch (Dead&) { return R_DEAD; }
}

// explore everything below one call and join the results into as few states as possible
static void runMerge(State*& sp, size_t depth) {
  std::vector<State*> work{sp}, parked, odd; std::vector<State*>* saved = cur; cur = &work;
  size_t L = sp->pc.size(); size_t nin = sp->inputs.size(); bool killed = false; RTree h0 = sp->heap;
  while (!work.empty()) {
    State* s = work.back(); work.pop_back();
    if (timeUp || (int)viols.size() >= maxViol) { delete s; killed = true; continue; }
    RunRes r = run(s, depth);
    if (r == R_PARK) { if (s->fr.size() == depth) parked.push_back(s); else odd.push_back(s); }
    else { if (r == R_DEAD) killed = true; delete s; }
  }
  cur = saved;
  // group by identical control position and memory
  std::vector<State*> result;
  std::stable_sort(parked.begin(), parked.end(), [](State* a, State* b) { return a->pc.size() < b->pc.size(); });
  while (!parked.empty()) {
    State* a = parked[0]; std::vector<State*> grp{a}, rest;
    for (size_t i = 1; i < parked.size(); i++) {
      State* b = parked[i]; bool ok = a->fr.back().pc == b->fr.back().pc && a->heap.root == b->heap.root && a->stk.size() == b->stk.size() && a->regs.size() == b->regs.size() && a->inputs.size() == b->inputs.size() && a->exc.size() == b->exc.size() && a->caught.size() == b->caught.size() && a->obs.size() == b->obs.size();
      if (ok) for (size_t k = 0; k < a->stk.size() && ok; k++) if (a->stk[k].o != b->stk[k].o) ok = false;
      if (ok) for (size_t k = 0; k < a->regs.size() && ok; k++) { const Val &u = a->regs[k], &v = b->regs[k]; if (u.c == v.c && u.e == v.e) continue; if ((u.e && u.e->k == K_AGG) || (v.e && v.e->k == K_AGG)) ok = false; }
      (ok ? grp : rest).push_back(b);
    }
    parked.swap(rest);
    if (grp.size() == 1) { result.push_back(a); continue; }
    nMerged += grp.size() - 1;
    // reduced suffix conditions
    std::vector<const Expr*> cond; std::set<u32> seen;
    const Expr* any = mkFalse();
    for (State* g : grp) {
      const Expr* c = mkTrue(); const Expr* full = mkTrue();
      for (size_t k = L; k < g->pc.size(); k++) { full = mkAnd(full, g->pc[k]); if (seen.count(mkNot(g->pc[k])->id)) continue; c = mkAnd(c, g->pc[k]); }
      cond.push_back(c); seen.insert(c->id); any = mkOr(any, full);
    }
    int width = 64;
    const Ins* ci = nullptr; (void)ci; (void)width;
    // find register widths from expressions or from the instruction that defines them
    State* base = grp.back();
    Fn* fn = base->fr.back().fn; u32 rb = base->fr.back().rb;
    std::map<u32, unsigned> wOf; for (auto& in : fn->code) if (in.dst >= 0) wOf[rb + in.dst] = in.t->w; { unsigned i = 0; for (auto& ar : fn->F->args()) wOf[rb + i++] = ty(ar.getType())->w; }
    for (auto& bb : *fn->F) for (auto& I : bb) (void)I;
    State* m = grp.back();
    for (size_t k = 0; k < m->regs.size(); k++) {
      bool diff = false; for (State* g : grp) if (g->regs[k].c != m->regs[k].c || g->regs[k].e != m->regs[k].e) diff = true;
      if (!diff) continue;
      unsigned w = 0; for (State* g : grp) if (g->regs[k].e) w = g->regs[k].e->w; if (!w) { auto it = wOf.find((u32)k); w = it == wOf.end() ? 64 : it->second; }
      const Expr* r = X(m->regs[k], w);
      for (int i = (int)grp.size() - 2; i >= 0; i--) r = mkIte(cond[i], X(grp[i]->regs[k], w), r);
      m->regs[k] = N(r);
    }
    m->pc.resize(L); m->known.clear(); for (auto c : m->pc) m->known.insert(c->id);
    if (killed || !odd.empty() || !parked.empty() || !result.empty()) addPC(*m, any);
    for (State* g : grp) { if (g->steps > m->steps) m->steps = g->steps; if (g != m) { nStates--; delete g; } }
    (void)nin;
    result.push_back(m);
  }
  for (State* o : odd) result.push_back(o);
  if (result.empty()) { sp = nullptr; return; }
  sp = result[0]; for (size_t i = 1; i < result.size(); i++) cur->push_back(result[i]);
}

static u64 rngState = 1;
static u64 rng() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }
static bool finishSample(State& s) {
  nPaths++;
  Sample sm; bool un = false; for (auto& o : s.obs) if (o.v.e && o.v.e->hasUninit) un = true;
  if (un) return true;
  size_t slot;
  if (samples.size() < (size_t)sampleMax) { samples.emplace_back(); slot = samples.size() - 1; }
  else { u64 r = rng() % nPaths; if (r >= (u64)sampleMax) return true; slot = r; }
  ModelP md = s.model;
  if (!s.inputs.empty()) for (int t = 0; t < 12; t++) {      // prefer a random vector of this path over the solver's first one
    auto m = std::make_shared<Model>(*s.model); m->epoch = Model().epoch;
    for (auto& i : s.inputs) if (i.e->k == K_SYM && (t < 4 || rng() % 4 == 0)) { u128 r = ((u128)rng()) & maskW(i.e->w); if (r > g_syms[i.e->aux].max) r %= g_syms[i.e->aux].max + 1; m->vals[i.e->aux] = r; }
    bool ok = true; for (auto c : s.pc) if (!evalExpr(c, *m)) { ok = false; break; }
    if (ok) { md = m; break; }
  }
  sm.vec = vecOf(s, *md); for (auto& o : s.obs) sm.obs.push_back({o.name, o.v.e ? evalExpr(o.v.e, *md) : o.v.c});
  samples[slot] = sm; return true;
}

static std::string esc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static std::string u128s(u128 v) { if (!v) return "0"; std::string s; while (v) { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } return s; }

int main(int argc, char** argv) {
  struct rlimit rl = {1ull << 30, 1ull << 30}; setrlimit(RLIMIT_STACK, &rl);
  if (!getenv("SX_REEXEC")) { setenv("SX_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
  std::string entry, out, dumpll; std::vector<std::string> mods;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto val = [&](const char* p) -> const char* { size_t n = strlen(p); return a.compare(0, n, p) == 0 ? a.c_str() + n : nullptr; }; const char* v;
    if ((v = val("--entry="))) entry = v; else if ((v = val("--out="))) out = v; else if ((v = val("--merge="))) mergeRe.push_back(std::regex(v));
    else if ((v = val("--time="))) deadline = now() + atof(v), g_deadline = deadline; else if ((v = val("--mem="))) maxMemMB = atol(v); else if ((v = val("--steps="))) maxPathSteps = strtoull(v, 0, 10); else if ((v = val("--qtimeout="))) g_timeoutMs = atoi(v) * 1000;
    else if ((v = val("--param="))) { std::string t = v; size_t e = t.find('='); params[t.substr(0, e)] = (u64)strtoll(t.c_str() + e + 1, 0, 0); }
    else if ((v = val("--repo="))) repoPrefix.push_back(v); else if ((v = val("--maxviol="))) maxViol = atoi(v); else if ((v = val("--samples="))) sampleMax = atoi(v); else if ((v = val("--seed="))) rngState = strtoull(v, 0, 10) * 2654435761u + 88172645463325252ull;
    else if (a == "--no-scalar-merge") noScalarMerge = true; else if (a == "--no-diamond") noDiamond = true;
    else if (a == "--abstract-fp") g_abstractFP = true; else if ((v = val("--dump="))) dumpll = v; else mods.push_back(a);
  }
  C = new LLVMContext(); SMDiagnostic err; std::unique_ptr<Module> mod;
  for (auto& p : mods) { auto m = parseIRFile(p, err, *C); if (!m) { err.print("exec", errs()); return 3; } if (!mod) mod = std::move(m); else if (Linker::linkModules(*mod, std::move(m))) return 3; }
  M = mod.get(); DL = &M->getDataLayout();
  for (auto& F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone); std::string d = dem(F.getName().str()); bool mg = false; for (auto& r : mergeRe) if (std::regex_search(d, r)) mg = true;
    if (!noScalarMerge && scalarFn(F)) { mg = true; F.addFnAttr("sx-merge"); }
    F.removeFnAttr(Attribute::NoInline); if (mg) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
  }
  double tprep = now();
  {
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    MPM.addPass(InternalizePass([&](const GlobalValue& g) { return g.getName() == entry || g.getName() == "__rt_errno"; }));
    MPM.addPass(GlobalDCEPass());
    if (!getenv("SX_NOOPT")) {
      FunctionPassManager FPM; FPM.addPass(SROAPass(SROAOptions::ModifyCFG)); FPM.addPass(EarlyCSEPass()); FPM.addPass(SimplifyCFGPass());
      MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
      InlineParams ip = getInlineParams(60); MPM.addPass(ModuleInlinerWrapperPass(ip));
      MPM.addPass(GlobalDCEPass());
      FunctionPassManager FP2; FP2.addPass(SROAPass(SROAOptions::ModifyCFG)); FP2.addPass(EarlyCSEPass()); FP2.addPass(SimplifyCFGPass());
      MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FP2)));
    }
    MPM.run(*M, MAM);
  }
  if (!dumpll.empty()) { std::error_code ec; raw_fd_ostream os(dumpll, ec); M->print(os, nullptr); }
  // globals
  State* st = new State(); st->id = ++nextState; st->model = std::make_shared<Model>(); nStates = 1;
  for (auto& F : *M) getFn(&F);
  for (auto& g : M->globals()) { u32 id = nextHeap++; gvAddr[&g] = (u64)id << 24; addrGv[(u64)id << 24] = &g; }
  for (auto& g : M->globals()) {
    u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 0; if (!g.hasInitializer() && sz < 256) sz = 256;
    Obj* o = Obj::make((u32)sz, OK_GLOBAL, false); if (g.hasInitializer()) initBytes(o, 0, g.getInitializer()); o->ro = g.isConstant() && g.hasInitializer(); st->heap.set((u32)(gvAddr[&g] >> 24), o);
  }
  std::vector<State*> work; cur = &work;
  // static constructors, concretely
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<u64, Function*>> cs; for (unsigned i = 0; i < ca->getNumOperands(); i++) { auto* s = cast<ConstantStruct>(ca->getOperand(i)); cs.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), cast<Function>(s->getOperand(1)->stripPointerCasts())}); }
    std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& c : cs) { pushFrame(*st, getFn(c.second), {}); RunRes r = run(st, 0); if (r != R_DONE || !work.empty()) { fprintf(stderr, "static constructor %s did not finish\n", c.second->getName().str().c_str()); for (auto& u : unsupported) fprintf(stderr, "  %s\n", u.first.c_str()); for (auto& v : viols) fprintf(stderr, "  %s %s %s\n", v.kind.c_str(), v.msg.c_str(), v.where.c_str()); return 3; } }
  }
  u64 instr0 = nInstr; for (auto& l : locs) l.hit = false; for (auto* f : fnList) f->execs = 0;
  Function* E = M->getFunction(entry); if (!E) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  st->steps = 0; pushFrame(*st, getFn(E), {});
  double t0 = now(); tprep = t0 - tprep;
  work.push_back(st); double lastP = now();
  while (!work.empty()) {
    State* s = work.back(); work.pop_back();
    if (timeUp || (int)viols.size() >= maxViol) { delete s; continue; }
    if (outOfBudget()) { delete s; continue; }
    RunRes r = run(s, 0);
    if (r == R_DONE) finishSample(*s);
    if (s) delete s;
    if (getenv("SX_VERBOSE") && now() - lastP > 5) { lastP = now(); fprintf(stderr, "[%.0fs] paths %llu work %zu instr %lluM queries %llu z3 %llu %.1fs\n", now() - t0, (unsigned long long)nPaths, work.size(), (unsigned long long)nInstr / 1000000, (unsigned long long)g_ss.queries, (unsigned long long)g_ss.z3calls, g_ss.time); }
  }
  double el = now() - t0;
  if (getenv("SX_QLOC")) { std::vector<std::pair<double, std::string>> v; for (auto& q : qAt) v.push_back({q.second.second, std::to_string(q.second.first) + " " + q.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 15; i++) fprintf(stderr, "%.2fs %s\n", v[i].first, v[i].second.c_str()); }
  for (auto& f : forkAt) fprintf(stderr, "fork %llu %s\n", (unsigned long long)f.second, f.first.c_str());
  FILE* o = out.empty() ? stdout : fopen(out.c_str(), "w"); if (!o) return 3;
  fprintf(o, "{\n\"joined_branches\":%llu,\"entry\":\"%s\",\"time\":%.2f,\"prep\":%.2f,\"states\":%llu,\"paths\":%llu,\"forks\":%llu,\"merged\":%llu,\"instructions\":%llu,\"assume_killed\":%llu,\"checks\":%llu,\"checks_symbolic\":%llu,\"symbolic_addresses\":%llu,\n", (unsigned long long)nDiamonds, esc(entry).c_str(), el, tprep, (unsigned long long)nStates, (unsigned long long)nPaths, (unsigned long long)nForks, (unsigned long long)nMerged, (unsigned long long)(nInstr - instr0), (unsigned long long)nAssumeKill, (unsigned long long)nChecks, (unsigned long long)nChecksSolver, (unsigned long long)nMem);
  fprintf(o, "\"queries\":%llu,\"solver_calls\":%llu,\"fp_calls\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_time\":%.3f,\"inconclusive\":%s,\n", (unsigned long long)g_ss.queries, (unsigned long long)g_ss.z3calls, (unsigned long long)g_ss.fpcalls, (unsigned long long)g_ss.cacheHits, (unsigned long long)g_ss.modelHits, (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat, (unsigned long long)g_ss.unknown, g_ss.time, inconclusive ? "true" : "false");
  auto mp = [&](const char* k, std::map<std::string, u64>& m) { fprintf(o, "\"%s\":{", k); bool f1 = true; for (auto& p : m) { fprintf(o, "%s\"%s\":%llu", f1 ? "" : ",", esc(p.first).c_str(), (unsigned long long)p.second); f1 = false; } fprintf(o, "},\n"); };
  mp("unsupported", unsupported); mp("reached", reached);
  { std::set<std::string> fs; std::map<std::string, std::set<u32>> byf; for (size_t i = 1; i < locs.size(); i++) if (locs[i].hit && locs[i].repo) { fs.insert(locs[i].fn); byf[locs[i].file].insert(locs[i].line); }
    fprintf(o, "\"functions\":["); bool f1 = true; for (auto& f : fs) { fprintf(o, "%s\"%s\"", f1 ? "" : ",", esc(f).c_str()); f1 = false; } fprintf(o, "],\n");
    fprintf(o, "\"lines\":{"); f1 = true; for (auto& p : byf) { fprintf(o, "%s\"%s\":[", f1 ? "" : ",", esc(p.first).c_str()); bool g1 = true; for (u32 l : p.second) { fprintf(o, "%s%u", g1 ? "" : ",", l); g1 = false; } fprintf(o, "]"); f1 = false; } fprintf(o, "},\n"); }
  auto vecp = [&](std::vector<std::pair<std::string, u128>>& v) { fprintf(o, "["); for (size_t i = 0; i < v.size(); i++) fprintf(o, "%s[\"%s\",\"%s\"]", i ? "," : "", esc(v[i].first).c_str(), u128s(v[i].second).c_str()); fprintf(o, "]"); };
  fprintf(o, "\"violations\":["); for (size_t i = 0; i < viols.size(); i++) { fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"vector\":", i ? ",\n" : "", esc(viols[i].kind).c_str(), esc(viols[i].msg).c_str(), esc(viols[i].where).c_str()); vecp(viols[i].vec); fprintf(o, "}"); } fprintf(o, "],\n");
  fprintf(o, "\"samples\":["); for (size_t i = 0; i < samples.size(); i++) { fprintf(o, "%s{\"vector\":", i ? ",\n" : ""); vecp(samples[i].vec); fprintf(o, ",\"obs\":"); vecp(samples[i].obs); fprintf(o, "}"); } fprintf(o, "]\n}\n");
  fclose(o);
  fflush(stdout);
  _exit(0);
}
