// symx: a path-exploring symbolic executor for LLVM 18 bitcode, deciding path
// feasibility and assertions with Z3.  See /verif/DESIGN.md.
#include <algorithm>
#include <fnmatch.h>
#include <chrono>
#include <thread>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <fnmatch.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_set>

#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <z3.h>

#include "expr.h"
#include "dumpscan.h"

using namespace llvm;
static ExprCtx X;

// ------------------------------------------------------------------ options
struct Rule { std::string glob; std::string kind; std::vector<uint64_t> v; };
static std::string optBc, optEntry, optOut;
static std::map<std::string, int64_t> params;
static std::vector<Rule> rules;
static double timeLimit = 600, pathTime = 60;
static unsigned solverTimeoutMs = 20000;
static uint64_t stopViolations = 60;
static std::set<std::string> knownLabels;
// assertions the job is about: patterns, '!' excludes; the others are not decided
static std::vector<std::string> labelPats;
static bool noChecks = false;
static bool about(const std::string& l) {
  if (noChecks) return false;
  static std::map<std::string, bool> memo;
  auto it = memo.find(l);
  if (it != memo.end()) return it->second;
  bool any = false, hit = false, out = false;
  for (auto& p : labelPats) {
    if (p[0] == '!') { if (!fnmatch(p.c_str() + 1, l.c_str(), 0)) out = true; }
    else { any = true; if (!fnmatch(p.c_str(), l.c_str(), 0)) hit = true; }
  }
  return memo[l] = !out && (!any || hit);
}
static uint64_t maxPaths = ~0ull, maxInst = ~0ull, maxPathInst = 20000000;
static uint64_t maxAlloc = 64u << 20;
static bool traceErr = false;
static std::string scopePrefix = "h265nal";

static std::chrono::steady_clock::time_point t0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

// ------------------------------------------------------------------ stats
static uint64_t nInst, nPaths, nPruned, nErrPaths, nQueries, nSat, nUnsat, nUnknown, nCacheHit, nChecks, nChecksTrivial, nForks, nUnsupportedPaths;
static double solverTime;
static std::map<std::string, uint64_t> covers, pruned, unsupported;
static bool incomplete = false;
static std::set<std::string> incompleteWhy;
static void markIncomplete(const std::string& w) { incomplete = true; incompleteWhy.insert(w); }

// ------------------------------------------------------------------ values
struct Val { E e = nullptr; const std::vector<Val>* agg = nullptr; };

struct Obj {
  uint64_t base = 0, size = 0;
  bool ro = false;
  char kind = 'h';  // h heap, s stack, g global, a array-new
  std::string name;
  std::vector<uint8_t> c;
  std::vector<E> s;          // empty when fully concrete
  std::vector<uint8_t> un;   // uninitialised marks (empty: all initialised)
};
typedef std::shared_ptr<Obj> ObjP;

struct Opnd { int slot = -1; Val c; };
struct Inst;
struct BBInfo;
struct FnInfo;
struct Phi { int dst; std::vector<std::pair<int, Opnd>> in; };
struct Inst {
  unsigned op = 0;
  const Instruction* I = nullptr;
  int dst = -1;
  unsigned w = 0;       // result / access width in bits
  unsigned bytes = 0;   // access size
  bool isPtr = false, isFP = false, isAgg = false;
  std::vector<Opnd> ops;
  // gep
  int64_t goff = 0;
  std::vector<std::pair<int, int64_t>> gidx;  // operand index, scale
  // branch
  int bb1 = -1, bb2 = -1;
  std::vector<std::pair<uint64_t, int>> cases;
  unsigned pred = 0;
  const Function* callee = nullptr;
  std::vector<unsigned> idxs;
  Type* ty = nullptr;
  int handler = -1;
};
struct BBInfo { std::vector<Phi> phis; std::vector<Inst> insts; bool visited = false; const BasicBlock* bb; };
struct FnInfo { const Function* F; std::vector<BBInfo> bbs; int nslots = 0; bool inScope = false; std::string dem; bool entered = false; };

struct Frame {
  FnInfo* fn; int bb = 0, prev = -1; unsigned ip = 0;
  std::vector<Val> regs;
  std::vector<uint64_t> allocas;
  std::vector<Val> varargs;
  int retSlot = -1; int normalBB = -1;
};
struct Input { std::string name; E e; };
struct LogEnt { std::string fmt; std::vector<E> args; std::vector<std::string> strs; };

struct DumpSlot { std::string norm, head; std::vector<E> args; };
struct State {
  std::vector<std::shared_ptr<DumpSlot>> slots;
  std::map<std::string, size_t> cursor;
  std::vector<Frame> st;
  std::map<uint64_t, ObjP> mem;
  uint64_t nextAddr = 0x10000000;
  std::vector<E> pc;
  std::vector<uint32_t> known;             // ids of conditions known to hold
  std::shared_ptr<std::vector<uint64_t>> model;
  std::shared_ptr<std::vector<uint8_t>> bound;
  std::vector<Input> inputs;
  uint32_t nsym = 0;
  std::vector<LogEnt> log;
  uint64_t ninst = 0;
  uint64_t depth = 0;
  std::map<std::string,uint64_t> notes;
  std::string pre;  // in front of the names of inputs
  // effort spent while a budget is open
  bool effort = false;
  uint64_t effUnits = 0, effHeapUnit = 0, effHeap = 0, effBlocks = 0;
};
// effort allowed: a fixed amount and so much for each unit of input
static uint64_t effHeapBase = 16384, effBlockBase = 10000, effBlockUnit = 600;
static bool effTrace;
static double effPeakHeap, effPeakBlocks;

static std::map<uint64_t, ObjP> roMem;
static const DataLayout* DL;
static Module* M;
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::unordered_map<uint64_t, const Function*> fnByAddr;
static std::unordered_map<const Function*, FnInfo*> fns;
static std::vector<State*> work;
static uint64_t sxFileAddr;

struct PathEnd { std::string why; };     // path stops (pruned / finished / error)
struct Unsupported { std::string what; };

// ------------------------------------------------------------------ Z3
static Z3_context z3c;
static Z3_solver z3s;
static std::unordered_map<E, Z3_ast> z3memo;
static Z3_ast zb(Z3_ast b) {  // bool -> bv1
  Z3_sort s1 = Z3_mk_bv_sort(z3c, 1);
  return Z3_mk_ite(z3c, b, Z3_mk_unsigned_int64(z3c, 1, s1), Z3_mk_unsigned_int64(z3c, 0, s1));
}
static Z3_ast tr(E e);
static std::unordered_map<E, Z3_ast> z3bmemo;
static Z3_ast trb(E e) {  // width-1 expr -> Bool
  auto it = z3bmemo.find(e);
  if (it != z3bmemo.end()) return it->second;
  Z3_ast r;
  switch (e->k) {
    case K_CONST: r = e->v ? Z3_mk_true(z3c) : Z3_mk_false(z3c); break;
    case K_EQ:
      if (e->a->w == 1) r = Z3_mk_iff(z3c, trb(e->a), trb(e->b));
      else r = Z3_mk_eq(z3c, tr(e->a), tr(e->b));
      break;
    case K_ULT: r = Z3_mk_bvult(z3c, tr(e->a), tr(e->b)); break;
    case K_ULE: r = Z3_mk_bvule(z3c, tr(e->a), tr(e->b)); break;
    case K_SLT: r = Z3_mk_bvslt(z3c, tr(e->a), tr(e->b)); break;
    case K_SLE: r = Z3_mk_bvsle(z3c, tr(e->a), tr(e->b)); break;
    case K_AND: { Z3_ast v[2] = {trb(e->a), trb(e->b)}; r = Z3_mk_and(z3c, 2, v); break; }
    case K_OR: { Z3_ast v[2] = {trb(e->a), trb(e->b)}; r = Z3_mk_or(z3c, 2, v); break; }
    case K_XOR: if (X.ic(e->b, 1)) r = Z3_mk_not(z3c, trb(e->a)); else r = Z3_mk_xor(z3c, trb(e->a), trb(e->b)); break;
    case K_ITE: r = Z3_mk_ite(z3c, trb(e->a), trb(e->b), trb(e->c)); break;
    case K_UMULO: r = Z3_mk_not(z3c, Z3_mk_bvmul_no_overflow(z3c, tr(e->a), tr(e->b), false)); break;
    case K_SMULO: { Z3_ast v[2] = {Z3_mk_not(z3c, Z3_mk_bvmul_no_overflow(z3c, tr(e->a), tr(e->b), true)), Z3_mk_not(z3c, Z3_mk_bvmul_no_underflow(z3c, tr(e->a), tr(e->b)))}; r = Z3_mk_or(z3c, 2, v); break; }
    default: { Z3_sort s1 = Z3_mk_bv_sort(z3c, 1); r = Z3_mk_eq(z3c, tr(e), Z3_mk_unsigned_int64(z3c, 1, s1)); }
  }
  Z3_inc_ref(z3c, r);
  z3bmemo[e] = r;
  return r;
}
static Z3_ast tr(E e) {
  auto it = z3memo.find(e);
  if (it != z3memo.end()) return it->second;
  Z3_ast r = nullptr;
  if (e->fp) throw Unsupported{"floating point term reached the solver"};
  switch (e->k) {
    case K_CONST: r = Z3_mk_unsigned_int64(z3c, e->v, Z3_mk_bv_sort(z3c, e->w)); break;
    case K_SYM: r = Z3_mk_const(z3c, Z3_mk_int_symbol(z3c, (int)e->v), Z3_mk_bv_sort(z3c, e->w)); break;
    case K_CONCAT: r = Z3_mk_concat(z3c, tr(e->a), tr(e->b)); break;
    case K_EXTRACT: r = Z3_mk_extract(z3c, (unsigned)e->v + e->w - 1, (unsigned)e->v, tr(e->a)); break;
    case K_ZEXT: r = Z3_mk_zero_ext(z3c, e->w - e->a->w, tr(e->a)); break;
    case K_SEXT: r = Z3_mk_sign_ext(z3c, e->w - e->a->w, tr(e->a)); break;
    case K_ADD: r = Z3_mk_bvadd(z3c, tr(e->a), tr(e->b)); break;
    case K_SUB: r = Z3_mk_bvsub(z3c, tr(e->a), tr(e->b)); break;
    case K_MUL: r = Z3_mk_bvmul(z3c, tr(e->a), tr(e->b)); break;
    case K_UDIV: r = Z3_mk_bvudiv(z3c, tr(e->a), tr(e->b)); break;
    case K_SDIV: r = Z3_mk_bvsdiv(z3c, tr(e->a), tr(e->b)); break;
    case K_UREM: r = Z3_mk_bvurem(z3c, tr(e->a), tr(e->b)); break;
    case K_SREM: r = Z3_mk_bvsrem(z3c, tr(e->a), tr(e->b)); break;
    case K_SHL: r = Z3_mk_bvshl(z3c, tr(e->a), tr(e->b)); break;
    case K_LSHR: r = Z3_mk_bvlshr(z3c, tr(e->a), tr(e->b)); break;
    case K_ASHR: r = Z3_mk_bvashr(z3c, tr(e->a), tr(e->b)); break;
    case K_AND: if (e->w == 1) r = zb(trb(e)); else r = Z3_mk_bvand(z3c, tr(e->a), tr(e->b)); break;
    case K_OR: if (e->w == 1) r = zb(trb(e)); else r = Z3_mk_bvor(z3c, tr(e->a), tr(e->b)); break;
    case K_XOR: if (e->w == 1) r = zb(trb(e)); else r = Z3_mk_bvxor(z3c, tr(e->a), tr(e->b)); break;
    case K_ITE: r = Z3_mk_ite(z3c, trb(e->a), tr(e->b), tr(e->c)); break;
    case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: case K_UMULO: case K_SMULO: r = zb(trb(e)); break;
    default: throw Unsupported{"expr kind in solver"};
  }
  Z3_inc_ref(z3c, r);
  z3memo[e] = r;
  return r;
}

enum Res { SAT, UNSAT, UNKNOWN };
struct CacheEnt { Res r; std::vector<std::pair<uint32_t, uint64_t>> m; };
struct VH { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = v.size(); for (uint32_t x : v) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); } return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VH> qcache;

static void slice(const State& s, E cond, std::vector<E>& out, std::vector<uint32_t>& syms) {
  static std::vector<uint8_t> mark;
  mark.assign(X.syminfo.size(), 0);
  syms = *cond->syms;
  for (uint32_t x : syms) mark[x] = 1;
  std::vector<uint8_t> used(s.pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < s.pc.size(); i++) {
      if (used[i]) continue;
      bool hit = false;
      for (uint32_t x : *s.pc[i]->syms) if (mark[x]) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1;
      out.push_back(s.pc[i]);
      for (uint32_t x : *s.pc[i]->syms) if (!mark[x]) { mark[x] = 1; syms.push_back(x); ch = true; }
    }
  }
}

static Res query(const State& s, E cond, std::vector<std::pair<uint32_t, uint64_t>>* m) {
  std::vector<E> cs; std::vector<uint32_t> syms;
  slice(s, cond, cs, syms);
  std::vector<uint32_t> key; key.reserve(cs.size() + 1);
  for (E e : cs) key.push_back(e->id);
  std::sort(key.begin(), key.end());
  key.push_back(cond->id);
  auto it = qcache.find(key);
  if (it != qcache.end()) { nCacheHit++; if (m) *m = it->second.m; return it->second.r; }
  nQueries++;
  auto q0 = std::chrono::steady_clock::now();
  Z3_solver_push(z3c, z3s);
  for (E e : cs) Z3_solver_assert(z3c, z3s, trb(e));
  Z3_solver_assert(z3c, z3s, trb(cond));
  static const char* slowq = getenv("SYMX_SLOW");
  auto c0 = std::chrono::steady_clock::now();
  Z3_lbool r = Z3_solver_check(z3c, z3s);
  if (slowq) { double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - c0).count(); if (dt > atof(slowq)) fprintf(stderr, "SLOW %.3f %d\n%s\n", dt, (int)r, Z3_solver_to_string(z3c, z3s)); }
  CacheEnt ce;
  if (r == Z3_L_TRUE) {
    nSat++;
    ce.r = SAT;
    Z3_model mod = Z3_solver_get_model(z3c, z3s);
    Z3_model_inc_ref(z3c, mod);
    for (uint32_t x : syms) {
      E se = X.mk(K_SYM, X.syminfo[x].w, x);
      Z3_ast v; uint64_t u = 0;
      if (Z3_model_eval(z3c, mod, tr(se), true, &v)) { Z3_inc_ref(z3c, v); Z3_get_numeral_uint64(z3c, v, &u); Z3_dec_ref(z3c, v); }
      ce.m.push_back({x, u});
    }
    Z3_model_dec_ref(z3c, mod);
  } else if (r == Z3_L_FALSE) { ce.r = UNSAT; nUnsat++; }
  else { ce.r = UNKNOWN; nUnknown++; markIncomplete("solver returned unknown"); }
  Z3_solver_pop(z3c, z3s, 1);
  solverTime += std::chrono::duration<double>(std::chrono::steady_clock::now() - q0).count();
  if (m) *m = ce.m;
  Res rr = ce.r;
  if (qcache.size() > 400000) qcache.clear();
  qcache.emplace(std::move(key), std::move(ce));
  return rr;
}

static uint64_t evalm(const State& s, E e) {
  if (e->k == K_CONST) return e->v;
  std::unordered_map<E, uint64_t> memo;
  auto get = [&](uint32_t id) -> uint64_t { return id < s.model->size() ? (*s.model)[id] : 0; };
  return X.eval(e, get, memo);
}
static void setModel(State& s, const std::vector<std::pair<uint32_t, uint64_t>>& m) {
  auto nm = std::make_shared<std::vector<uint64_t>>(*s.model);
  for (auto& p : m) { if (nm->size() <= p.first) nm->resize(p.first + 1, 0); (*nm)[p.first] = p.second; }
  s.model = nm;
}
static void bindSym(State& s, uint32_t id) {
  auto nb = std::make_shared<std::vector<uint8_t>>(*s.bound);
  if (nb->size() <= id) nb->resize(id + 1, 0);
  (*nb)[id] = 1;
  s.bound = nb;
}
static void addPC(State& s, E c) {
  if (X.ic(c)) return;
  if (c->k == K_AND && c->w == 1) { addPC(s, c->a); addPC(s, c->b); return; }
  for (E p : s.pc) if (p == c) return;
  s.pc.push_back(c);
  if (c->k == K_SYM) bindSym(s, (uint32_t)c->v);
  else if (X.isNot(c) && c->a->k == K_SYM) bindSym(s, (uint32_t)c->a->v);
  else if (c->k == K_EQ && c->a->k == K_SYM && X.ic(c->b)) bindSym(s, (uint32_t)c->a->v);
  else if (c->k == K_EQ && c->b->k == K_SYM && X.ic(c->a)) bindSym(s, (uint32_t)c->b->v);
}
static bool impliedFast(const State& s, E c) {  // c holds under the model
  for (E p : s.pc) if (p == c) return true;
  for (uint32_t k : s.known) if (k == c->id) return true;
  bool all = true;
  for (uint32_t x : *c->syms) if (x >= s.bound->size() || !(*s.bound)[x]) { all = false; break; }
  return all;
}
static void pushState(State* n) { nForks++; work.push_back(n); }

// decide a condition in the current state, forking if both ways are feasible.
static bool branch(State& s, E cond) {
  if (X.ic(cond)) return cond->v;
  bool mv = evalm(s, cond) != 0;
  E taken = mv ? cond : X.Not(cond), other = X.Not(taken);
  if (impliedFast(s, taken)) return mv;
  std::vector<std::pair<uint32_t, uint64_t>> m;
  Res r = query(s, other, &m);
  if (r == SAT) {
    State* o = new State(s);
    setModel(*o, m);
    addPC(*o, other);
    pushState(o);
    addPC(s, taken);
  } else if (r == UNSAT) s.known.push_back(taken->id);
  else addPC(s, taken);
  return mv;
}
// does cond possibly hold?
static Res mayHold(State& s, E cond, std::vector<std::pair<uint32_t, uint64_t>>* m) {
  if (X.ic(cond)) { return cond->v ? SAT : UNSAT; }
  if (evalm(s, cond)) { if (m) m->clear(); return SAT; }
  E n = X.Not(cond);
  if (impliedFast(s, n)) return UNSAT;
  Res r = query(s, cond, m);
  if (r == UNSAT) s.known.push_back(n->id);
  return r;
}

// pick a concrete value, forking over the alternatives
static uint64_t concretize(State& s, E e, unsigned limit, const char* what) {
  if (X.ic(e)) return e->v;
  uint64_t v = evalm(s, e);
  (void)limit; (void)what;
  branch(s, X.Eq(e, X.C(v, e->w)));
  return v;
}

// ------------------------------------------------------------------ reports
struct Violation { std::string label, kind, msg, where; std::vector<std::string> stack; std::vector<std::pair<std::string, uint64_t>> inputs; };
static std::vector<Violation> violations;
static std::map<std::string, int> vioCount;

static std::string locOf(const Instruction* I) {
  if (!I) return "";
  if (const DILocation* L = I->getDebugLoc()) {
    std::string f = L->getFilename().str();
    size_t p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1);
    return f + ":" + std::to_string(L->getLine());
  }
  return "";
}
static std::string shortFn(const std::string& d) {
  std::string r = d; size_t p = r.find('('); if (p != std::string::npos) r = r.substr(0, p);
  return r;
}
static const Inst* curInst(const Frame& f) { auto& b = f.fn->bbs[f.bb]; return f.ip < b.insts.size() ? &b.insts[f.ip] : nullptr; }
static void report(State& s, const std::string& kind, std::string label, const std::string& msg, const std::vector<std::pair<uint32_t, uint64_t>>* m) {
  Violation v; v.kind = kind; v.msg = msg;
  std::string scopeFn;
  for (int i = (int)s.st.size() - 1; i >= 0; i--) {
    const Inst* in = curInst(s.st[i]);
    std::string d = s.st[i].fn->dem;
    std::string l = in ? locOf(in->I) : "";
    v.stack.push_back(shortFn(d) + " " + l);
    if (scopeFn.empty() && d.find(scopePrefix) != std::string::npos && d.find("std::") != 0 && d.find(scopePrefix) < d.find('(')) { scopeFn = shortFn(d); v.where = l; }
  }
  if (scopeFn.empty()) scopeFn = s.st.empty() ? "?" : shortFn(s.st.back().fn->dem);
  if (kind == "error") label = label + "@" + scopeFn;
  v.label = label;
  int& n = vioCount[label];
  n++;
  if (n > 4) return;
  State t = s;
  if (m && !m->empty()) setModel(t, *m);
  for (auto& in : s.inputs) v.inputs.push_back({in.name, evalm(t, in.e)});
  violations.push_back(v);
}
[[noreturn]] static void fatalErr(State& s, const std::string& label, const std::string& msg) {
  report(s, "error", label, msg, nullptr);
  nErrPaths++;
  throw PathEnd{"error"};
}

// ------------------------------------------------------------------ memory
static ObjP newObj(State& s, uint64_t size, char kind, const std::string& name, bool init) {
  ObjP o = std::make_shared<Obj>();
  o->size = size; o->kind = kind; o->name = name;
  o->base = s.nextAddr;
  s.nextAddr += ((size + 15) & ~15ull) + 64;
  o->c.assign(size, 0);
  if (!init) o->un.assign(size, 1);
  s.mem[o->base] = o;
  return o;
}
static Obj* findObj(State& s, uint64_t a, bool* ro = nullptr) {
  auto it = s.mem.upper_bound(a);
  if (it != s.mem.begin()) { --it; if (a < it->second->base + std::max<uint64_t>(it->second->size, 1)) { if (ro) *ro = false; return it->second.get(); } }
  it = roMem.upper_bound(a);
  if (it != roMem.begin()) { --it; if (a < it->second->base + std::max<uint64_t>(it->second->size, 1)) { if (ro) *ro = true; return it->second.get(); } }
  return nullptr;
}
static Obj* writable(State& s, Obj* o) {
  auto it = s.mem.find(o->base);
  if (it == s.mem.end()) return o;
  if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
  return it->second.get();
}
static std::string addrKind(State& s, uint64_t a) {
  if (a < 65536) return "null-dereference";
  // look for an object just below
  auto it = s.mem.upper_bound(a);
  if (it != s.mem.begin()) { --it; if (a < it->second->base + it->second->size + 64) return "out-of-bounds"; }
  return "invalid-pointer";
}
static E freshSym(State& s, const std::string& name, unsigned w) {
  static std::map<std::pair<uint32_t, std::pair<std::string, unsigned>>, E> intern;
  auto key = std::make_pair(s.nsym, std::make_pair(name, w));
  auto it = intern.find(key);
  E e;
  if (it != intern.end()) e = it->second;
  else { e = X.sym(name + "#" + std::to_string(s.nsym), w); intern[key] = e; }
  s.nsym++;
  return e;
}
static E readByte(State& s, Obj* o, uint64_t off) {
  if (!o->un.empty() && o->un[off]) {
    // uninitialised byte: any value, but the same one on every later read
    o = writable(s, o);
    E e = freshSym(s, "uninit", 8);
    s.notes["uninit-read"]++;
    if (o->s.empty()) o->s.assign(o->size, nullptr);
    o->s[off] = e; o->un[off] = 0;
    return e;
  }
  if (!o->s.empty() && o->s[off]) return o->s[off];
  return X.C(o->c[off], 8);
}
static E readObj(State& s, Obj* o, uint64_t off, unsigned bytes) {
  bool conc = o->s.empty() && o->un.empty();
  if (!conc) {
    conc = true;
    for (unsigned i = 0; i < bytes && conc; i++) if ((!o->un.empty() && o->un[off + i]) || (!o->s.empty() && o->s[off + i])) conc = false;
  }
  if (conc) { uint64_t v = 0; for (unsigned i = 0; i < bytes; i++) v |= (uint64_t)o->c[off + i] << (8 * i); return X.C(v, bytes * 8); }
  E r = nullptr;
  for (unsigned i = 0; i < bytes; i++) {
    uint64_t base = o->base;
    E b = readByte(s, o, off + i);
    auto it = s.mem.find(base); if (it != s.mem.end()) o = it->second.get();
    r = r ? X.Concat(b, r) : b;
  }
  return r;
}
static void writeObj(State& s, Obj* o, uint64_t off, E v, unsigned bytes) {
  o = writable(s, o);
  for (unsigned i = 0; i < bytes; i++) {
    E b = bytes == 1 && v->w == 8 ? v : X.Extract(v, i * 8, 8);
    if (!o->un.empty()) o->un[off + i] = 0;
    if (X.ic(b)) { o->c[off + i] = (uint8_t)b->v; if (!o->s.empty()) o->s[off + i] = nullptr; }
    else { if (o->s.empty()) o->s.assign(o->size, nullptr); o->s[off + i] = b; }
  }
}
// Resolve an access. Returns the object; off is concrete or (symbolic) an expr.
static Obj* resolve(State& s, E addr, unsigned bytes, bool write, E* offOut) {
  if (X.ic(addr)) {
    bool ro; Obj* o = findObj(s, addr->v, &ro);
    if (!o || addr->v + bytes > o->base + o->size) fatalErr(s, o ? "out-of-bounds" : addrKind(s, addr->v), std::string(write ? "write" : "read") + " of " + std::to_string(bytes) + " bytes");
    if (write && (ro || o->ro)) fatalErr(s, "write-to-constant", "");
    *offOut = X.C(addr->v - o->base, 64);
    return o;
  }
  // symbolic: base object from a constant addend if there is one
  uint64_t hint = evalm(s, addr);
  Obj* o = nullptr; bool ro = false;
  if (addr->k == K_ADD && X.ic(addr->b)) o = findObj(s, addr->b->v, &ro);
  if (!o && addr->k == K_ADD && X.ic(addr->b)) {
    // container-style base slightly before the object (negative index offsets)
    auto it = s.mem.upper_bound(addr->b->v); if (it != s.mem.end() && it->second->base - addr->b->v < 4096) { o = it->second.get(); ro = false; }
    if (!o) { auto it2 = roMem.upper_bound(addr->b->v); if (it2 != roMem.end() && it2->second->base - addr->b->v < 4096) { o = it2->second.get(); ro = true; } }
  }
  if (!o) o = findObj(s, hint, &ro);
  if (!o) { // fix the pointer value in this state and report
    bool eq = branch(s, X.Eq(addr, X.C(hint, 64))); (void)eq;
    fatalErr(s, addrKind(s, hint), "symbolic pointer");
  }
  E off = X.Sub(addr, X.C(o->base, 64));
  E inb = o->size >= bytes ? X.Ule(off, X.C(o->size - bytes, 64)) : X.F();
  if (!branch(s, inb)) fatalErr(s, "out-of-bounds", std::string("index outside object ") + o->name + " size " + std::to_string(o->size));
  if (write && (ro || o->ro)) fatalErr(s, "write-to-constant", "");
  *offOut = off;
  return o;
}
static E loadMem(State& s, E addr, unsigned bytes) {
  E off; Obj* o = resolve(s, addr, bytes, false, &off);
  if (X.ic(off)) return readObj(s, o, off->v, bytes);
  // ITE over feasible offsets
  uint64_t z = X.zeros(off);
  unsigned tz = ~z ? __builtin_ctzll(~z) : 0; if (tz > 6) tz = 6;
  uint64_t step = 1ull << tz;
  uint64_t n = (o->size - bytes) / step + 1;
  if (n > 8192) { uint64_t v = concretize(s, off, 64, "load offset"); return readObj(s, o, v, bytes); }
  E r = nullptr;
  uint64_t base = o->base;
  for (uint64_t k = n; k-- > 0;) {
    auto it = s.mem.find(base); if (it != s.mem.end()) o = it->second.get();
    E v = readObj(s, o, k * step, bytes);
    r = r ? X.Ite(X.Eq(off, X.C(k * step, 64)), v, r) : v;
  }
  return r;
}
static void storeMem(State& s, E addr, E v, unsigned bytes) {
  E off; Obj* o = resolve(s, addr, bytes, true, &off);
  if (X.ic(off)) { writeObj(s, o, off->v, v, bytes); return; }
  uint64_t z = X.zeros(off);
  unsigned tz = ~z ? __builtin_ctzll(~z) : 0; if (tz > 6) tz = 6;
  uint64_t step = 1ull << tz;
  uint64_t n = (o->size - bytes) / step + 1;
  if (n > 512 || step < bytes) { uint64_t x = concretize(s, off, 64, "store offset"); writeObj(s, o, x, v, bytes); return; }
  uint64_t base = o->base;
  for (uint64_t k = 0; k < n; k++) {
    o = s.mem.find(base)->second.get();
    E old = readObj(s, o, k * step, bytes);
    o = s.mem.find(base)->second.get();
    writeObj(s, o, k * step, X.Ite(X.Eq(off, X.C(k * step, 64)), v, old), bytes);
  }
}
static std::string cstr(State& s, uint64_t a) {
  std::string r;
  Obj* o = findObj(s, a);
  if (!o) return "<bad string>";
  for (uint64_t i = a - o->base; i < o->size; i++) { if (!o->s.empty() && o->s[i]) { r += '?'; continue; } if (!o->c[i]) break; r += (char)o->c[i]; }
  return r;
}

// ------------------------------------------------------------------ constants
static Val constVal(const Constant* c);
static unsigned bitw(Type* t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  return 0;
}
static uint64_t gvAddr(const GlobalValue* g) {
  auto it = gaddr.find(g);
  if (it == gaddr.end()) {
    if (auto* ga = dyn_cast<GlobalAlias>(g)) { Val v = constVal(ga->getAliasee()); return v.e->v; }
    throw Unsupported{"global " + g->getName().str()};
  }
  return it->second;
}
static Val mkAgg(std::vector<Val> v) { Val r; r.agg = new std::vector<Val>(std::move(v)); return r; }
static Val zeroVal(Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { std::vector<Val> v; for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(zeroVal(st->getElementType(i))); return mkAgg(v); }
  if (auto* at = dyn_cast<ArrayType>(t)) { std::vector<Val> v; for (unsigned i = 0; i < at->getNumElements(); i++) v.push_back(zeroVal(at->getElementType())); return mkAgg(v); }
  unsigned w = bitw(t);
  if (!w || w > 64) throw Unsupported{"zero of wide type"};
  Val r; r.e = X.C(0, w); return r;
}
static Val constVal(const Constant* c) {
  Val r;
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) throw Unsupported{"wide integer"}; r.e = X.C(ci->getZExtValue(), ci->getBitWidth()); return r; }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt b = cf->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() > 64) throw Unsupported{"wide fp"}; r.e = X.C(b.getZExtValue(), b.getBitWidth()); return r; }
  if (isa<ConstantPointerNull>(c)) { r.e = X.C(0, 64); return r; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroVal(c->getType());
  if (auto* gv = dyn_cast<GlobalValue>(c)) { r.e = X.C(gvAddr(gv), 64); return r; }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { std::vector<Val> v; for (unsigned i = 0; i < ca->getNumOperands(); i++) v.push_back(constVal(cast<Constant>(ca->getOperand(i)))); return mkAgg(v); }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constVal(cd->getElementAsConstant(i))); return mkAgg(v); }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (auto* gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (!gep->accumulateConstantOffset(*DL, off)) throw Unsupported{"const gep"};
      Val b = constVal(cast<Constant>(gep->getPointerOperand()));
      r.e = X.Add(b.e, X.C(off.getZExtValue(), 64)); return r;
    }
    switch (ce->getOpcode()) {
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
        Val b = constVal(ce->getOperand(0)); unsigned w = bitw(ce->getType());
        r.e = w <= b.e->w ? X.Trunc(b.e, w) : X.ZExt(b.e, w); return r; }
      case Instruction::Trunc: { Val b = constVal(ce->getOperand(0)); r.e = X.Trunc(b.e, bitw(ce->getType())); return r; }
      case Instruction::Add: r.e = X.Add(constVal(ce->getOperand(0)).e, constVal(ce->getOperand(1)).e); return r;
      case Instruction::Sub: r.e = X.Sub(constVal(ce->getOperand(0)).e, constVal(ce->getOperand(1)).e); return r;
      default: break;
    }
    throw Unsupported{std::string("constant expr ") + ce->getOpcodeName()};
  }
  throw Unsupported{"constant kind"};
}
static void initConst(Obj* o, uint64_t off, const Constant* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* st = dyn_cast<StructType>(t)) {
    const StructLayout* L = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) initConst(o, off + L->getElementOffset(i), c->getAggregateElement(i));
    return;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) initConst(o, off + i * es, c->getAggregateElement(i));
    return;
  }
  Val v = constVal(c);
  unsigned bytes = (unsigned)DL->getTypeStoreSize(t);
  uint64_t x = v.e->v;
  for (unsigned i = 0; i < bytes; i++) o->c[off + i] = (uint8_t)(i < 8 ? x >> (8 * i) : 0);
}

// ------------------------------------------------------------------ decode
typedef void (*Handler)(State&, const Inst&, std::vector<Val>&, Val*);
static std::unordered_map<std::string, int> handlerIdx;
static std::vector<std::function<void(State&, const Inst&, std::vector<Val>&, Val&)>> handlers;

static FnInfo* getFn(const Function* F) {
  auto it = fns.find(F);
  if (it != fns.end()) return it->second;
  FnInfo* fi = new FnInfo();
  fi->F = F;
  fi->dem = demangle(F->getName().str());
  std::unordered_map<const Value*, int> slots;
  for (auto& a : F->args()) slots[&a] = fi->nslots++;
  std::unordered_map<const BasicBlock*, int> bbi;
  int nb = 0;
  for (auto& b : *F) { bbi[&b] = nb++; for (auto& i : b) if (!i.getType()->isVoidTy()) slots[&i] = fi->nslots++; }
  auto op = [&](const Value* v) {
    Opnd o;
    auto s = slots.find(v);
    if (s != slots.end()) { o.slot = s->second; return o; }
    if (auto* c = dyn_cast<Constant>(v)) { try { o.c = constVal(c); } catch (Unsupported&) { o.c.e = nullptr; } return o; }
    return o;  // metadata, blocks: unused
  };
  fi->bbs.resize(nb);
  for (auto& b : *F) {
    BBInfo& bi = fi->bbs[bbi[&b]];
    bi.bb = &b;
    for (auto& i : b) {
      if (auto* p = dyn_cast<PHINode>(&i)) {
        Phi ph; ph.dst = slots[p];
        for (unsigned k = 0; k < p->getNumIncomingValues(); k++) ph.in.push_back({bbi[p->getIncomingBlock(k)], op(p->getIncomingValue(k))});
        bi.phis.push_back(ph);
        continue;
      }
      if (isa<DbgInfoIntrinsic>(&i)) continue;
      Inst in; in.I = &i; in.op = i.getOpcode();
      if (!i.getType()->isVoidTy()) { in.dst = slots[&i]; in.w = bitw(i.getType()); in.isAgg = i.getType()->isAggregateType(); in.isPtr = i.getType()->isPointerTy(); in.isFP = i.getType()->isFloatingPointTy(); }
      in.ty = i.getType();
      if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
        in.ops.push_back(op(g->getPointerOperand()));
        for (gep_type_iterator gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          const Value* idx = gi.getOperand();
          if (StructType* st = gi.getStructTypeOrNull()) { in.goff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
          int64_t sc = (int64_t)gi.getSequentialElementStride(*DL).getFixedValue();
          if (auto* ci = dyn_cast<ConstantInt>(idx)) { in.goff += ci->getSExtValue() * sc; continue; }
          in.gidx.push_back({(int)in.ops.size(), sc});
          in.ops.push_back(op(idx));
        }
      } else if (auto* br = dyn_cast<BranchInst>(&i)) {
        if (br->isConditional()) { in.ops.push_back(op(br->getCondition())); in.bb1 = bbi[br->getSuccessor(0)]; in.bb2 = bbi[br->getSuccessor(1)]; }
        else in.bb1 = bbi[br->getSuccessor(0)];
      } else if (auto* sw = dyn_cast<SwitchInst>(&i)) {
        in.ops.push_back(op(sw->getCondition()));
        in.bb1 = bbi[sw->getDefaultDest()];
        for (auto& cs : sw->cases()) in.cases.push_back({cs.getCaseValue()->getZExtValue(), bbi[cs.getCaseSuccessor()]});
      } else if (auto* cb = dyn_cast<CallBase>(&i)) {
        for (auto& a : cb->args()) in.ops.push_back(op(a.get()));
        const Value* cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
        if (auto* f = dyn_cast<Function>(cv)) {
          in.callee = f;
          if (f->isDeclaration() || f->isIntrinsic()) {
            std::string n = f->getName().str();
            auto h = handlerIdx.find(n);
            if (h == handlerIdx.end() && f->isIntrinsic()) { std::string bn = Intrinsic::getBaseName(f->getIntrinsicID()).str(); h = handlerIdx.find(bn); }
            if (h != handlerIdx.end()) in.handler = h->second;
          } else {
            auto h = handlerIdx.find("!" + f->getName().str());
            if (h != handlerIdx.end()) in.handler = h->second;
          }
        } else in.ops.push_back(op(cv)), in.idxs.push_back(1);  // indirect: last operand
        if (auto* iv = dyn_cast<InvokeInst>(&i)) in.bb1 = bbi[iv->getNormalDest()];
      } else {
        for (auto& o : i.operands()) in.ops.push_back(op(o.get()));
        if (auto* l = dyn_cast<LoadInst>(&i)) { in.bytes = (unsigned)DL->getTypeStoreSize(l->getType()); }
        if (auto* st = dyn_cast<StoreInst>(&i)) { in.ty = st->getValueOperand()->getType(); in.w = bitw(in.ty); in.bytes = (unsigned)DL->getTypeStoreSize(in.ty); in.isAgg = in.ty->isAggregateType(); }
        if (auto* c = dyn_cast<CmpInst>(&i)) in.pred = c->getPredicate();
        if (auto* al = dyn_cast<AllocaInst>(&i)) { in.bytes = (unsigned)DL->getTypeAllocSize(al->getAllocatedType()); }
        if (auto* ev = dyn_cast<ExtractValueInst>(&i)) in.idxs.assign(ev->idx_begin(), ev->idx_end());
        if (auto* iv = dyn_cast<InsertValueInst>(&i)) in.idxs.assign(iv->idx_begin(), iv->idx_end());
        if (auto* rm = dyn_cast<AtomicRMWInst>(&i)) { in.pred = rm->getOperation(); in.bytes = (unsigned)DL->getTypeStoreSize(rm->getType()); }
        if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&i)) in.bytes = (unsigned)DL->getTypeStoreSize(cx->getCompareOperand()->getType());
      }
      bi.insts.push_back(std::move(in));
    }
  }
  fi->inScope = fi->dem.find(scopePrefix + "::") != std::string::npos && fi->dem.find("std::") != 0;
  fns[F] = fi;
  return fi;
}

static inline Val getOp(State& s, const Opnd& o) {
  if (o.slot >= 0) return s.st.back().regs[o.slot];
  if (!o.c.e && !o.c.agg) throw Unsupported{"operand constant"};
  return o.c;
}
static void effortSteps(State& s) {
  if (s.effBlocks > effBlockBase + effBlockUnit * s.effUnits) fatalErr(s, "effort", "more steps than the size of the input justifies");
}
static void effortBulk(State& s, uint64_t n) { if (s.effort) { s.effBlocks += n / 8; effortSteps(s); } }
static void jump(State& s, int bb) {
  Frame& f = s.st.back();
  BBInfo& b = f.fn->bbs[bb];
  int prev = f.bb;
  if (!b.phis.empty()) {
    std::vector<Val> vs; vs.reserve(b.phis.size());
    for (auto& p : b.phis) { bool ok = false; for (auto& in : p.in) if (in.first == prev) { vs.push_back(getOp(s, in.second)); ok = true; break; } if (!ok) throw Unsupported{"phi"}; }
    for (size_t i = 0; i < b.phis.size(); i++) f.regs[b.phis[i].dst] = vs[i];
  }
  f.prev = prev; f.bb = bb; f.ip = 0; b.visited = true;
  if (s.effort) { ++s.effBlocks; effortSteps(s); }
}
static void pushFrame(State& s, const Function* F, const std::vector<Val>& args, int retSlot, int normalBB) {
  FnInfo* fi = getFn(F);
  if (s.st.size() > 400) fatalErr(s, "stack-overflow", "");
  Frame f; f.fn = fi; f.regs.resize(fi->nslots); f.retSlot = retSlot; f.normalBB = normalBB;
  size_t na = F->arg_size();
  for (size_t i = 0; i < na && i < args.size(); i++) f.regs[i] = args[i];
  fi->bbs[0].visited = true; fi->entered = true;
  s.st.push_back(std::move(f));
}
static Val loadVal(State& s, E addr, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) {
    std::vector<Val> v; const StructLayout* L = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(loadVal(s, X.Add(addr, X.C(L->getElementOffset(i), 64)), st->getElementType(i)));
    return mkAgg(v);
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    std::vector<Val> v; uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) v.push_back(loadVal(s, X.Add(addr, X.C(i * es, 64)), at->getElementType()));
    return mkAgg(v);
  }
  unsigned w = bitw(t); if (!w || w > 64) throw Unsupported{"load of wide or vector type"};
  unsigned bytes = (unsigned)DL->getTypeStoreSize(t);
  E e = loadMem(s, addr, bytes);
  if (e->w != w) e = X.Trunc(e, w);
  Val r; r.e = e;
  return r;
}
static void storeVal(State& s, E addr, const Val& v, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { const StructLayout* L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeVal(s, X.Add(addr, X.C(L->getElementOffset(i), 64)), (*v.agg)[i], st->getElementType(i)); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) storeVal(s, X.Add(addr, X.C(i * es, 64)), (*v.agg)[i], at->getElementType()); return; }
  unsigned w = bitw(t); if (!w || w > 64) throw Unsupported{"store of wide or vector type"};
  unsigned bytes = (unsigned)DL->getTypeStoreSize(t);
  E e = v.e; if (!e) throw Unsupported{"store of missing value"};
  if (e->w < bytes * 8) e = X.ZExt(e, bytes * 8);
  storeMem(s, addr, e, bytes);
}

// Turn an FP-derived quantity g(fp term) into an exact bit-vector expression.
static void leaves(E e, std::vector<E>& out, bool& mono) {
  if (e->k == K_F_UI2F || e->k == K_F_SI2F) { if (std::find(out.begin(), out.end(), e->a) == out.end()) out.push_back(e->a); if (e->k == K_F_SI2F) mono = mono && true; return; }
  if (e->k == K_F_UN && (e->v == F_NEG || e->v == F_FABS)) mono = false;
  if (e->k == K_ITE) mono = false;
  if (e->a) leaves(e->a, out, mono);
  if (e->b) leaves(e->b, out, mono);
  if (e->c) leaves(e->c, out, mono);
}
static uint64_t satU(double d, unsigned w, bool sgn) {
  if (d != d) return 0;
  if (sgn) { double lim = ldexp(1.0, w - 1); if (d >= lim) return maskw(w - 1); if (d < -lim) return 1ull << (w - 1); return (uint64_t)(int64_t)d & maskw(w); }
  double lim = ldexp(1.0, w); if (d >= lim) return maskw(w); if (d <= -1) return (uint64_t)(int64_t)(d < -9.2e18 ? -9.2e18 : d) & maskw(w);
  return (uint64_t)d;
}
static E fpPiecewise(State& s, E fp, unsigned w, const std::function<uint64_t(double)>& g) {
  std::vector<E> lv; bool mono = true;
  leaves(fp, lv, mono);
  if (lv.empty()) throw Unsupported{"fp term without integer leaf"};
  if (lv.size() == 1 && lv[0]->w <= 64) {
    E x = lv[0];
    auto f = [&](uint64_t v) -> uint64_t {
      std::unordered_map<E, uint64_t> memo; memo[x] = v;
      auto get = [&](uint32_t) -> uint64_t { return 0; };
      uint64_t r = X.eval(fp, get, memo);
      return g(ExprCtx::fval(X.C(r, fp->w)));
    };
    // range of x under the path condition: find max by bisection with the solver
    uint64_t lo = 0, hi = maskw(x->w);
    // upper bound
    { uint64_t a = evalm(s, x), b = hi;
      while (a < b) { uint64_t m = a + (b - a) / 2; if (mayHold(s, X.Ult(X.C(m, x->w), x), nullptr) != UNSAT) a = m + 1; else b = m; }
      hi = a; }
    { uint64_t a = 0, b = evalm(s, x);
      while (a < b) { uint64_t m = a + (b - a) / 2; if (mayHold(s, X.Ule(x, X.C(m, x->w)), nullptr) != UNSAT) b = m; else a = m + 1; }
      lo = a; }
    // pieces (monotone): repeated bisection for the end of each constant run
    std::vector<std::pair<uint64_t, uint64_t>> pieces;  // (last x, value)
    uint64_t cur = lo; bool ok = mono || hi - lo <= 4096;
    while (ok) {
      uint64_t v = f(cur), a = cur, b = hi;
      if (!mono) { while (a < hi && f(a + 1) == v) a++; }
      else while (a < b) { uint64_t m = a + (b - a) / 2 + 1; if (f(m) == v) a = m; else b = m - 1; }
      pieces.push_back({a, v});
      if (a >= hi) break;
      cur = a + 1;
      if (pieces.size() > 300) ok = false;
    }
    if (ok) {
      E r = X.C(pieces.back().second, w);
      for (size_t i = pieces.size() - 1; i-- > 0;) r = X.Ite(X.Ule(x, X.C(pieces[i].first, x->w)), X.C(pieces[i].second, w), r);
      s.notes["fp-piecewise"]++;
      return r;
    }
  }
  // fall back: enumerate the leaves
  std::unordered_map<E, uint64_t> memo;
  for (E x : lv) memo[x] = concretize(s, x, 64, "fp leaf");
  auto get = [&](uint32_t) -> uint64_t { return 0; };
  uint64_t r = X.eval(fp, get, memo);
  return X.C(g(ExprCtx::fval(X.C(r, fp->w))), w);
}
static E fpToInt(State& s, E fp, unsigned w, bool sgn) {
  if (X.ic(fp)) return X.C(satU(ExprCtx::fval(fp), w, sgn), w);
  // exact rules
  if ((fp->k == K_F_UI2F || fp->k == K_F_SI2F) && (fp->w == 64 ? fp->a->w <= 53 : fp->a->w <= 24)) {
    E a = fp->a; return a->w >= w ? X.Trunc(a, w) : (fp->k == K_F_SI2F ? X.SExt(a, w) : X.ZExt(a, w));
  }
  // ceil/floor/trunc(double(a) / double(b)), a and b at most 32 bits: exact (see DESIGN.md)
  E q = fp; int mode = F_TRUNC;
  if (fp->k == K_F_UN && (fp->v == F_CEIL || fp->v == F_FLOOR || fp->v == F_TRUNC)) { q = fp->a; mode = (int)fp->v; }
  if (q->k == K_F_BIN && q->v == F_DIV && q->w == 64) {
    auto asInt = [&](E f, E& out) -> bool {
      if (X.ic(f)) { double d = ExprCtx::fval(f); if (d >= 0 && d < 4294967296.0 && d == floor(d)) { out = X.C((uint64_t)d, 64); return true; } return false; }
      if (f->k == K_F_UI2F && f->a->w <= 32) { out = X.ZExt(f->a, 64); return true; }
      if (f->k == K_F_SI2F && f->a->w <= 32) {
        if (branch(s, X.Slt(f->a, X.C(0, f->a->w)))) return false;
        out = X.ZExt(f->a, 64); return true; }
      if (f->k == K_F_UI2F && f->a->k == K_ZEXT && f->a->a->w <= 32) { out = X.ZExt(f->a, 64); return true; }
      return false; };
    E a, b;
    if (asInt(q->a, a) && asInt(q->b, b)) {
      if (branch(s, X.Eq(b, X.C(0, 64)))) fatalErr(s, "float-division-by-zero", "");
      E r = mode == F_CEIL ? X.UDiv(X.Add(a, X.Sub(b, X.C(1, 64))), b) : X.UDiv(a, b);
      return w <= 64 ? X.Trunc(r, w) : X.ZExt(r, w);
    }
  }
  return fpPiecewise(s, fp, w, [&](double d) { return satU(d, w, sgn); });
}
static bool fcmpEval(unsigned pred, double a, double b) {
  bool un = a != a || b != b;
  switch (pred) {
    case CmpInst::FCMP_OEQ: return !un && a == b; case CmpInst::FCMP_OGT: return !un && a > b; case CmpInst::FCMP_OGE: return !un && a >= b;
    case CmpInst::FCMP_OLT: return !un && a < b; case CmpInst::FCMP_OLE: return !un && a <= b; case CmpInst::FCMP_ONE: return !un && a != b;
    case CmpInst::FCMP_ORD: return !un; case CmpInst::FCMP_UNO: return un; case CmpInst::FCMP_UEQ: return un || a == b; case CmpInst::FCMP_UGT: return un || a > b;
    case CmpInst::FCMP_UGE: return un || a >= b; case CmpInst::FCMP_ULT: return un || a < b; case CmpInst::FCMP_ULE: return un || a <= b; case CmpInst::FCMP_UNE: return un || a != b;
    case CmpInst::FCMP_TRUE: return true; default: return false; }
}

static void doFree(State& s, uint64_t a) {
  if (a == 0) return;
  auto it = s.mem.find(a);
  if (it == s.mem.end() || it->second->kind != 'h') fatalErr(s, "bad-free", "");
  s.mem.erase(it);
}

// A few completed paths are kept with a concrete assignment, so that the run
// can be repeated natively and the engine's verdict compared with the real code.
struct Sample { std::vector<std::pair<std::string, uint64_t>> inputs; };
static std::vector<Sample> samples;
static unsigned optSamples = 0;
static uint64_t sampleSeen, rng = 0x9e3779b97f4a7c15ull;
static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
static void takeSample(State& s) {
  if (!optSamples) return;
  sampleSeen++;
  size_t slot;
  if (samples.size() < optSamples) { slot = samples.size(); samples.emplace_back(); }
  else { uint64_t k = rnd() % sampleSeen; if (k >= optSamples) return; slot = k; }
  State t; t.model = std::make_shared<std::vector<uint64_t>>(*s.model); t.bound = s.bound;
  auto ok = [&]() { for (E c : s.pc) if (!evalm(t, c)) return false; return true; };
  if (ok()) {
    // move the free values away from the solver's defaults where the path allows
    int budget = 200;
    for (auto& in : s.inputs) {
      if (X.ic(in.e) || budget-- <= 0) continue;
      E b = in.e; while (b->k == K_ZEXT || b->k == K_SEXT) b = b->a;
      if (b->k != K_SYM) continue;
      uint32_t id = (uint32_t)b->v;
      if (t.model->size() <= id) t.model->resize(id + 1, 0);
      uint64_t old = (*t.model)[id];
      (*t.model)[id] = rnd() & maskw(b->w);
      if (!ok()) { (*t.model)[id] = rnd() & maskw(b->w) & 15; if (!ok()) (*t.model)[id] = old; }
    }
  }
  samples[slot].inputs.clear();
  for (auto& in : s.inputs) samples[slot].inputs.push_back({in.name, evalm(t, in.e)});
}
static void finishPath(State& s) { nPaths++; takeSample(s); throw PathEnd{"done"}; }

// one instruction
static void step(State& s) {
  Frame& f = s.st.back();
  BBInfo& bb = f.fn->bbs[f.bb];
  const Inst& in = bb.insts[f.ip];
  nInst++; s.ninst++;
  if (s.ninst > maxPathInst) fatalErr(s, "non-termination", "path exceeded the instruction limit");
  auto setd = [&](E e) { Val v; v.e = e; s.st.back().regs[in.dst] = v; };
  switch (in.op) {
    case Instruction::Ret: {
      Val rv; bool has = !in.ops.empty();
      if (has) rv = getOp(s, in.ops[0]);
      for (uint64_t a : f.allocas) s.mem.erase(a);
      int rs = f.retSlot, nb = f.normalBB;
      s.st.pop_back();
      if (s.st.empty()) finishPath(s);
      if (has && rs >= 0) s.st.back().regs[rs] = rv;
      if (nb >= 0) jump(s, nb); else s.st.back().ip++;
      return;
    }
    case Instruction::Br:
      if (in.ops.empty()) jump(s, in.bb1);
      else { E c = getOp(s, in.ops[0]).e; bool b = branch(s, c); jump(s, b ? in.bb1 : in.bb2); }
      return;
    case Instruction::Switch: {
      E c = getOp(s, in.ops[0]).e;
      if (X.ic(c)) { for (auto& k : in.cases) if (k.first == c->v) { jump(s, k.second); return; } jump(s, in.bb1); return; }
      // group the cases by destination so that equal targets do not fork
      std::vector<std::pair<int, E>> groups;
      for (auto& k : in.cases) {
        E e = X.Eq(c, X.C(k.first, c->w));
        bool f2 = false;
        for (auto& g : groups) if (g.first == k.second) { g.second = X.Or(g.second, e); f2 = true; break; }
        if (!f2) groups.push_back({k.second, e});
      }
      for (auto& g : groups) if (g.first != in.bb1) { if (branch(s, g.second)) { jump(s, g.first); return; } }
      jump(s, in.bb1);
      return;
    }
    case Instruction::Unreachable: fatalErr(s, "unreachable", "execution reached undefined behaviour");
    case Instruction::Alloca: {
      uint64_t n = 1; E ne = getOp(s, in.ops[0]).e; if (X.ic(ne)) n = ne->v; else throw Unsupported{"symbolic alloca"};
      ObjP o = newObj(s, (uint64_t)in.bytes * n, 's', "alloca", false);
      s.st.back().allocas.push_back(o->base);
      setd(X.C(o->base, 64));
      break;
    }
    case Instruction::Load: {
      E a = getOp(s, in.ops[0]).e;
      Val v = loadVal(s, a, in.ty);
      if (in.isPtr && !X.ic(v.e)) { uint64_t c = concretize(s, v.e, 64, "pointer"); v.e = X.C(c, 64); }
      s.st.back().regs[in.dst] = v;
      break;
    }
    case Instruction::Store: {
      Val v = getOp(s, in.ops[0]); E a = getOp(s, in.ops[1]).e;
      storeVal(s, a, v, in.ty);
      break;
    }
    case Instruction::GetElementPtr: {
      E r = getOp(s, in.ops[0]).e;
      r = X.Add(r, X.C((uint64_t)in.goff, 64));
      for (auto& g : in.gidx) {
        E i = getOp(s, in.ops[g.first]).e;
        i = i->w < 64 ? X.SExt(i, 64) : X.Trunc(i, 64);
        r = X.Add(r, X.Mul(i, X.C((uint64_t)g.second, 64)));
      }
      setd(r);
      break;
    }
    case Instruction::ICmp: {
      E a = getOp(s, in.ops[0]).e, b = getOp(s, in.ops[1]).e, r;
      switch (in.pred) {
        case CmpInst::ICMP_EQ: r = X.Eq(a, b); break;
        case CmpInst::ICMP_NE: r = X.Not(X.Eq(a, b)); break;
        case CmpInst::ICMP_ULT: r = X.Ult(a, b); break;
        case CmpInst::ICMP_ULE: r = X.Ule(a, b); break;
        case CmpInst::ICMP_UGT: r = X.Ult(b, a); break;
        case CmpInst::ICMP_UGE: r = X.Ule(b, a); break;
        case CmpInst::ICMP_SLT: r = X.Slt(a, b); break;
        case CmpInst::ICMP_SLE: r = X.Sle(a, b); break;
        case CmpInst::ICMP_SGT: r = X.Slt(b, a); break;
        default: r = X.Sle(b, a); break;
      }
      setd(r);
      break;
    }
    case Instruction::FCmp: {
      E a = getOp(s, in.ops[0]).e, b = getOp(s, in.ops[1]).e;
      if (X.ic(a) && X.ic(b)) { setd(X.C(fcmpEval(in.pred, ExprCtx::fval(a), ExprCtx::fval(b)), 1)); break; }
      unsigned pred = in.pred;
      if (X.ic(b)) { double bv = ExprCtx::fval(b); setd(fpPiecewise(s, a, 1, [=](double d) { return (uint64_t)fcmpEval(pred, d, bv); })); break; }
      if (X.ic(a)) { double av = ExprCtx::fval(a); setd(fpPiecewise(s, b, 1, [=](double d) { return (uint64_t)fcmpEval(pred, av, d); })); break; }
      throw Unsupported{"fcmp of two symbolic values"};
    }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
    case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      E a = getOp(s, in.ops[0]).e, b = getOp(s, in.ops[1]).e, r = nullptr;
      if (!a || !b || in.w == 0 || in.w > 64) throw Unsupported{"wide or vector arithmetic"};
      switch (in.op) {
        case Instruction::Add: r = X.Add(a, b); break;
        case Instruction::Sub: r = X.Sub(a, b); break;
        case Instruction::Mul: r = X.Mul(a, b); break;
        case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
          if (branch(s, X.Eq(b, X.C(0, b->w)))) fatalErr(s, "division-by-zero", "");
          r = in.op == Instruction::UDiv ? X.UDiv(a, b) : in.op == Instruction::SDiv ? X.SDiv(a, b) : in.op == Instruction::URem ? X.URem(a, b) : X.SRem(a, b);
          break;
        case Instruction::And: r = X.And(a, b); break;
        case Instruction::Or: r = X.Or(a, b); break;
        case Instruction::Xor: r = X.Xor(a, b); break;
        case Instruction::Shl: r = X.Shl(a, b); break;
        case Instruction::LShr: r = X.LShr(a, b); break;
        case Instruction::AShr: r = X.AShr(a, b); break;
      }
      setd(r);
      break;
    }
    case Instruction::Trunc: setd(X.Trunc(getOp(s, in.ops[0]).e, in.w)); break;
    case Instruction::ZExt: setd(X.ZExt(getOp(s, in.ops[0]).e, in.w)); break;
    case Instruction::SExt: setd(X.SExt(getOp(s, in.ops[0]).e, in.w)); break;
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
      E a = getOp(s, in.ops[0]).e; setd(a->w >= in.w ? X.Trunc(a, in.w) : X.ZExt(a, in.w)); break; }
    case Instruction::BitCast: { Val v = getOp(s, in.ops[0]); s.st.back().regs[in.dst] = v; break; }
    case Instruction::Freeze: s.st.back().regs[in.dst] = getOp(s, in.ops[0]); break;
    case Instruction::Select: {
      E c = getOp(s, in.ops[0]).e; Val a = getOp(s, in.ops[1]), b = getOp(s, in.ops[2]);
      if (X.ic(c)) { s.st.back().regs[in.dst] = c->v ? a : b; break; }
      if (in.isPtr || in.isAgg || !a.e || !b.e) {
        if (a.e && a.e == b.e) { s.st.back().regs[in.dst] = a; break; }
        bool t = branch(s, c); s.st.back().regs[in.dst] = t ? a : b; break; }
      setd(X.Ite(c, a.e, b.e));
      break;
    }
    case Instruction::ExtractValue: {
      Val v = getOp(s, in.ops[0]);
      for (unsigned i : in.idxs) { if (!v.agg) throw Unsupported{"extractvalue"}; v = (*v.agg)[i]; }
      s.st.back().regs[in.dst] = v;
      break;
    }
    case Instruction::InsertValue: {
      Val v = getOp(s, in.ops[0]), x = getOp(s, in.ops[1]);
      std::function<Val(const Val&, size_t)> ins = [&](const Val& b, size_t d) -> Val {
        if (d == in.idxs.size()) return x;
        if (!b.agg) throw Unsupported{"insertvalue"};
        std::vector<Val> n = *b.agg; n[in.idxs[d]] = ins(n[in.idxs[d]], d + 1); return mkAgg(n); };
      s.st.back().regs[in.dst] = ins(v, 0);
      break;
    }
    case Instruction::UIToFP: setd(X.I2F(getOp(s, in.ops[0]).e, in.w, false)); break;
    case Instruction::SIToFP: setd(X.I2F(getOp(s, in.ops[0]).e, in.w, true)); break;
    case Instruction::FPToUI: setd(fpToInt(s, getOp(s, in.ops[0]).e, in.w, false)); break;
    case Instruction::FPToSI: setd(fpToInt(s, getOp(s, in.ops[0]).e, in.w, true)); break;
    case Instruction::FPExt: case Instruction::FPTrunc: setd(X.FCvt(getOp(s, in.ops[0]).e, in.w)); break;
    case Instruction::FNeg: setd(X.FUn(F_NEG, getOp(s, in.ops[0]).e)); break;
    case Instruction::FAdd: setd(X.FBin(F_ADD, getOp(s, in.ops[0]).e, getOp(s, in.ops[1]).e)); break;
    case Instruction::FSub: setd(X.FBin(F_SUB, getOp(s, in.ops[0]).e, getOp(s, in.ops[1]).e)); break;
    case Instruction::FMul: setd(X.FBin(F_MUL, getOp(s, in.ops[0]).e, getOp(s, in.ops[1]).e)); break;
    case Instruction::FDiv: setd(X.FBin(F_DIV, getOp(s, in.ops[0]).e, getOp(s, in.ops[1]).e)); break;
    case Instruction::Fence: break;
    case Instruction::AtomicRMW: {
      E a = getOp(s, in.ops[0]).e, v = getOp(s, in.ops[1]).e;
      E old = loadMem(s, a, in.bytes), nv;
      switch (in.pred) {
        case AtomicRMWInst::Add: nv = X.Add(old, v); break;
        case AtomicRMWInst::Sub: nv = X.Sub(old, v); break;
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Or: nv = X.Or(old, v); break;
        case AtomicRMWInst::And: nv = X.And(old, v); break;
        default: throw Unsupported{"atomicrmw"};
      }
      storeMem(s, a, nv, in.bytes);
      setd(old);
      break;
    }
    case Instruction::AtomicCmpXchg: {
      E a = getOp(s, in.ops[0]).e, c = getOp(s, in.ops[1]).e, n = getOp(s, in.ops[2]).e;
      E old = loadMem(s, a, in.bytes);
      bool eq = branch(s, X.Eq(old, c));
      if (eq) storeMem(s, a, n, in.bytes);
      Val v1, v2; v1.e = old; v2.e = X.C(eq, 1);
      s.st.back().regs[in.dst] = mkAgg({v1, v2});
      break;
    }
    case Instruction::Call: case Instruction::Invoke: {
      std::vector<Val> args;
      args.reserve(in.ops.size());
      const Function* callee = in.callee;
      int h = in.handler;
      size_t na = in.ops.size();
      if (!callee) {
        na--;
        E fa = getOp(s, in.ops[na]).e;
        if (!X.ic(fa)) fa = X.C(concretize(s, fa, 16, "function pointer"), 64);
        auto it = fnByAddr.find(fa->v);
        if (it == fnByAddr.end()) fatalErr(s, fa->v < 4096 ? "null-call" : "bad-call", "indirect call");
        callee = it->second;
        if (callee->isDeclaration()) { auto hh = handlerIdx.find(callee->getName().str()); if (hh != handlerIdx.end()) h = hh->second; }
      }
      for (size_t i = 0; i < na; i++) {
        if (in.ops[i].slot < 0 && !in.ops[i].c.e && !in.ops[i].c.agg) { args.push_back(Val()); continue; }
        args.push_back(getOp(s, in.ops[i]));
      }
      int nb = in.op == Instruction::Invoke ? in.bb1 : -1;
      if (h >= 0) {
        Val r;
        size_t depth = s.st.size();
        handlers[h](s, in, args, r);
        if (s.st.size() != depth) return;  // handler pushed a frame
        if (in.dst >= 0) { if (!r.e && !r.agg) r = zeroVal(in.ty); if (r.e && r.e->w != in.w) r.e = r.e->w > in.w ? X.Trunc(r.e, in.w) : X.ZExt(r.e, in.w); s.st.back().regs[in.dst] = r; }
        if (nb >= 0) { jump(s, nb); return; }
        break;
      }
      if (callee->isDeclaration()) throw Unsupported{"call to external " + demangle(callee->getName().str())};
      pushFrame(s, callee, args, in.dst, nb);
      if (callee->isVarArg()) { Frame& nf = s.st.back(); for (size_t i = callee->arg_size(); i < args.size(); i++) nf.varargs.push_back(args[i]); }
      return;
    }
    case Instruction::LandingPad: case Instruction::Resume: fatalErr(s, "exception", "exception propagation reached");
    default: throw Unsupported{std::string("instruction ") + in.I->getOpcodeName()};
  }
  s.st.back().ip++;
}

// An exception that the code under test handles is beyond the engine; one that
// nobody handles, or that reaches a noexcept boundary, ends the program.
static void onThrow(State& s, const std::string& what) {
  for (size_t i = s.st.size(); i-- > 0;) {
    Frame& f = s.st[i];
    auto& is = f.fn->bbs[f.bb].insts;
    if (f.ip >= is.size()) continue;
    auto* iv = dyn_cast<InvokeInst>(is[f.ip].I);
    if (!iv) { if (f.fn->F->doesNotThrow()) break; continue; }
    auto* lp = iv->getLandingPadInst();
    if (lp->getNumClauses() == 0) continue;
    bool term = false;
    for (auto& x : *lp->getParent()) if (auto* cb = dyn_cast<CallBase>(&x)) if (auto* g = cb->getCalledFunction()) term |= g->getName() == "__clang_call_terminate" || g->getName() == "_ZSt9terminatev";
    if (term) break;
    throw Unsupported{"exception handling"};
  }
  fatalErr(s, "exception", what);
}

// ------------------------------------------------------------------ builtins
static void H(const char* n, std::function<void(State&, const Inst&, std::vector<Val>&, Val&)> f) {
  int id = (int)handlers.size(); handlers.push_back(f); handlerIdx[n] = id;
}
static void HN(std::initializer_list<const char*> ns, std::function<void(State&, const Inst&, std::vector<Val>&, Val&)> f) {
  int id = (int)handlers.size(); handlers.push_back(f); for (auto n : ns) handlerIdx[n] = id;
}
static uint64_t cint(State& s, const Val& v, const char* what) { return X.ic(v.e) ? v.e->v : concretize(s, v.e, 64, what); }
static void effortEnd(State& s) {
  if (s.effort && effTrace) fprintf(stderr, "EFFORT units %llu heap %llu blocks %llu\n", (unsigned long long)s.effUnits, (unsigned long long)s.effHeap, (unsigned long long)s.effBlocks);
  if (s.effort) {
    effPeakHeap = std::max(effPeakHeap, (double)s.effHeap / (double)(effHeapBase + s.effHeapUnit * s.effUnits));
    effPeakBlocks = std::max(effPeakBlocks, (double)s.effBlocks / (double)(effBlockBase + effBlockUnit * s.effUnits));
  }
  s.effort = false;
}
static uint64_t allocSize(State& s, E n) {
  if (s.effort) {
    uint64_t most = effHeapBase + s.effHeapUnit * s.effUnits, left = most > s.effHeap ? most - s.effHeap : 0;
    if (!X.ic(n)) { if (branch(s, X.Ult(X.C(left, 64), n))) fatalErr(s, "effort", "more memory than the size of the input justifies"); }
    else if (n->v > left) fatalErr(s, "effort", "more memory than the size of the input justifies");
    uint64_t v = X.ic(n) ? n->v : concretize(s, n, 64, "allocation size");
    s.effHeap += v;
    return v;
  }
  if (!X.ic(n)) {
    if (branch(s, X.Ult(X.C(maxAlloc, 64), n))) fatalErr(s, "unbounded-allocation", "allocation size controlled by input exceeds the limit");
    return concretize(s, n, 64, "allocation size");
  }
  if (n->v > maxAlloc) fatalErr(s, "unbounded-allocation", "allocation of " + std::to_string(n->v) + " bytes");
  return n->v;
}
static void doCopy(State& s, E d, E sr, uint64_t n) {
  if (n == 0) return;
  if (n > (64u << 20)) fatalErr(s, "out-of-bounds", "huge copy");
  if (!X.ic(d)) d = X.C(concretize(s, d, 64, "copy dest"), 64);
  if (!X.ic(sr)) sr = X.C(concretize(s, sr, 64, "copy src"), 64);
  bool ro; Obj* so = findObj(s, sr->v, &ro);
  if (!so || sr->v + n > so->base + so->size) fatalErr(s, so ? "out-of-bounds" : addrKind(s, sr->v), "memcpy source");
  Obj* dob = findObj(s, d->v, &ro);
  if (!dob || d->v + n > dob->base + dob->size) fatalErr(s, dob ? "out-of-bounds" : addrKind(s, d->v), "memcpy destination");
  if (ro || dob->ro) fatalErr(s, "write-to-constant", "");
  dob = writable(s, dob);
  so = findObj(s, sr->v, &ro);
  uint64_t so_ = sr->v - so->base, do_ = d->v - dob->base;
  std::vector<uint8_t> tc(so->c.begin() + so_, so->c.begin() + so_ + n);
  std::vector<E> ts; if (!so->s.empty()) ts.assign(so->s.begin() + so_, so->s.begin() + so_ + n);
  std::vector<uint8_t> tu; if (!so->un.empty()) tu.assign(so->un.begin() + so_, so->un.begin() + so_ + n);
  std::copy(tc.begin(), tc.end(), dob->c.begin() + do_);
  if (!ts.empty() || !dob->s.empty()) {
    if (dob->s.empty()) dob->s.assign(dob->size, nullptr);
    for (uint64_t i = 0; i < n; i++) dob->s[do_ + i] = ts.empty() ? nullptr : ts[i];
  }
  if (!tu.empty() || !dob->un.empty()) {
    if (dob->un.empty()) dob->un.assign(dob->size, 0);
    for (uint64_t i = 0; i < n; i++) dob->un[do_ + i] = tu.empty() ? 0 : tu[i];
  }
}
static bool ruleFor(const std::string& name, Rule& r) {
  for (auto& x : rules) if (fnmatch(x.glob.c_str(), name.c_str(), 0) == 0) { r = x; return true; }
  return false;
}
// a string of symbolic decimal digits as the number it shows
static E symDigits(State& s, uint64_t a) {
  Obj* o = findObj(s, a);
  if (!o || o->s.empty()) return nullptr;
  bool sym = false; uint64_t i = a - o->base, e = i;
  for (; e < o->size; e++) { if (o->s[e]) sym = true; else if (!o->c[e]) break; }
  if (!sym || e == o->size) return nullptr;
  bool neg = !o->s[i] && o->c[i] == '-';
  E v = X.C(0, 64);
  for (uint64_t k = i + neg; k < e; k++) {
    E b = loadMem(s, X.C(o->base + k, 64), 1), d = X.Sub(b, X.C('0', 8));
    if (mayHold(s, X.Ult(X.C(9, 8), d), nullptr) != UNSAT) return nullptr;
    v = X.Add(X.Mul(v, X.C(10, 64)), X.ZExt(d, 64));
  }
  return neg ? X.Sub(X.C(0, 64), v) : v;
}
static void logCall(State& s, std::vector<Val>& a, size_t fmtIdx) {
  LogEnt le; le.fmt = cstr(s, cint(s, a[fmtIdx], "fmt"));
  // conversion types, to capture %s
  std::vector<char> conv;
  for (size_t i = 0; i + 1 < le.fmt.size(); i++) if (le.fmt[i] == '%') { if (le.fmt[i + 1] == '%') { i++; continue; } size_t j = i + 1; while (j < le.fmt.size() && !isalpha((unsigned char)le.fmt[j])) { if (le.fmt[j] == '*') conv.push_back('d'); j++; } while (j < le.fmt.size() && strchr("hlzjtL", le.fmt[j])) j++; if (j < le.fmt.size()) conv.push_back(le.fmt[j]); i = j; }
  for (size_t i = fmtIdx + 1; i < a.size(); i++) {
    size_t k = i - fmtIdx - 1;
    le.args.push_back(a[i].e);
    le.strs.push_back("");
    if (k < conv.size() && conv[k] == 's' && a[i].e) {
      uint64_t at = cint(s, a[i], "str");
      if (E v = symDigits(s, at)) { le.args.back() = v; le.strs.back() = "\x01"; } else le.strs.back() = cstr(s, at);
    }
  }
  s.log.push_back(le);
}

// the dump of the current path, rendered with placeholders for the values
struct Dump { DumpNames n; std::vector<E> args; std::vector<char> conv; std::string text; };
static Dump& dumpOf(State& s) {
  static Dump d; static std::vector<LogEnt> last; static bool have = false;
  bool same = have && last.size() == s.log.size();
  if (same) for (size_t i = 0; i < last.size() && same; i++) same = last[i].fmt == s.log[i].fmt && last[i].args == s.log[i].args && last[i].strs == s.log[i].strs;
  if (same) return d;
  d = Dump(); last = s.log; have = true;
  std::string t;
  for (auto& le : s.log) {
    size_t k = 0;
    for (size_t i = 0; i < le.fmt.size(); i++) {
      if (le.fmt[i] != '%') { t += le.fmt[i]; continue; }
      if (i + 1 < le.fmt.size() && le.fmt[i + 1] == '%') { t += '%'; i++; continue; }
      size_t j = i + 1;
      int64_t width = 0;
      while (j < le.fmt.size() && !isalpha((unsigned char)le.fmt[j])) { if (le.fmt[j] == '*') { if (k < le.args.size() && le.args[k] && X.ic(le.args[k])) width = sxt(le.args[k]->v, le.args[k]->w); k++; } j++; }
      while (j < le.fmt.size() && strchr("hlzjtL", le.fmt[j])) j++;
      if (j >= le.fmt.size()) break;
      if (k < le.args.size()) {
        if (le.fmt[j] == 's' && le.strs[k] != "\x01") { if (width < 0) width = -width; if ((int64_t)le.strs[k].size() < width) t.append((size_t)width - le.strs[k].size(), ' '); t += le.strs[k]; }
        else if (!t.empty() && t.back() == '[' && le.args[k] && X.ic(le.args[k])) t += std::to_string(le.args[k]->v);
        else if (le.fmt[j] == 'c' && le.args[k] && X.ic(le.args[k])) t += (char)le.args[k]->v;
        else { t += '\x01' + std::to_string(d.args.size()) + '\x02'; d.args.push_back(le.args[k]); d.conv.push_back(le.fmt[j]); }
      }
      k++; i = j;
    }
  }
  dumpScan(t, d.n);
  d.text = t;
  return d;
}

static void setupHandlers() {
  HN({"_Znwm", "_Znam", "malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t"}, [](State& s, const Inst&, std::vector<Val>& a, Val& r) {
    uint64_t n = allocSize(s, a[0].e); ObjP o = newObj(s, n, 'h', "heap", false); r.e = X.C(o->base, 64); });
  H("calloc", [](State& s, const Inst&, std::vector<Val>& a, Val& r) { uint64_t n = allocSize(s, X.Mul(a[0].e, a[1].e)); ObjP o = newObj(s, n, 'h', "heap", true); r.e = X.C(o->base, 64); });
  H("realloc", [](State& s, const Inst&, std::vector<Val>& a, Val& r) {
    uint64_t n = allocSize(s, a[1].e), old = cint(s, a[0], "realloc");
    ObjP o = newObj(s, n, 'h', "heap", false);
    if (old) { auto it = s.mem.find(old); if (it == s.mem.end() || it->second->kind != 'h') fatalErr(s, "bad-free", "realloc"); uint64_t m = it->second->size; doCopy(s, X.C(o->base, 64), a[0].e, m < n ? m : n); doFree(s, old); }
    r.e = X.C(o->base, 64); });
  HN({"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}, [](State& s, const Inst&, std::vector<Val>& a, Val&) { doFree(s, cint(s, a[0], "free")); });
  HN({"llvm.memcpy", "llvm.memmove", "memcpy", "memmove", "llvm.memcpy.inline"}, [](State& s, const Inst&, std::vector<Val>& a, Val& r) { uint64_t n = cint(s, a[2], "memcpy size"); effortBulk(s, n); doCopy(s, a[0].e, a[1].e, n); r.e = a[0].e; });
  HN({"llvm.memset", "memset"}, [](State& s, const Inst&, std::vector<Val>& a, Val& r) {
    uint64_t n = cint(s, a[2], "memset size"); effortBulk(s, n); E b = X.Trunc(a[1].e, 8); uint64_t d = cint(s, a[0], "memset");
    if (n) { bool ro; Obj* o = findObj(s, d, &ro); if (!o || d + n > o->base + o->size) fatalErr(s, o ? "out-of-bounds" : addrKind(s, d), "memset"); if (ro) fatalErr(s, "write-to-constant", "");
      o = writable(s, o); uint64_t off = d - o->base;
      if (X.ic(b)) { std::fill(o->c.begin() + off, o->c.begin() + off + n, (uint8_t)b->v); if (!o->s.empty()) std::fill(o->s.begin() + off, o->s.begin() + off + n, nullptr); if (!o->un.empty()) std::fill(o->un.begin() + off, o->un.begin() + off + n, 0); }
      else for (uint64_t i = 0; i < n; i++) writeObj(s, o, off + i, b, 1); }
    r.e = a[0].e; });
  HN({"memcmp", "bcmp"}, [](State& s, const Inst&, std::vector<Val>& a, Val& r) {
    uint64_t n = cint(s, a[2], "memcmp"); E res = X.C(0, 32);
    for (uint64_t i = n; i-- > 0;) { E x = loadMem(s, X.Add(a[0].e, X.C(i, 64)), 1), y = loadMem(s, X.Add(a[1].e, X.C(i, 64)), 1);
      res = X.Ite(X.Eq(x, y), res, X.Ite(X.Ult(x, y), X.C(~0u, 32), X.C(1, 32))); }
    r.e = res; });
  H("strlen", [](State& s, const Inst&, std::vector<Val>& a, Val& r) { r.e = X.C(cstr(s, cint(s, a[0], "strlen")).size(), 64); });
  H("strcmp", [](State& s, const Inst&, std::vector<Val>& a, Val& r) { int c = strcmp(cstr(s, cint(s, a[0], "strcmp")).c_str(), cstr(s, cint(s, a[1], "strcmp")).c_str()); r.e = X.C((uint64_t)(c < 0 ? -1 : c > 0), 32); });
  // no-ops
  HN({"llvm.lifetime.start", "llvm.lifetime.end", "llvm.dbg.declare", "llvm.dbg.value", "llvm.dbg.label", "llvm.experimental.noalias.scope.decl", "llvm.assume", "llvm.donothing", "llvm.stackrestore", "llvm.var.annotation",
      "llvm.va_end", "__cxa_atexit", "__cxa_thread_atexit", "pthread_mutex_lock", "pthread_mutex_unlock", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "llvm.invariant.start", "llvm.invariant.end", "llvm.prefetch", "__cxa_guard_abort", "llvm.sideeffect"},
     [](State&, const Inst&, std::vector<Val>&, Val& r) { r.e = X.C(0, 64); });
  H("llvm.stacksave", [](State&, const Inst&, std::vector<Val>&, Val& r) { r.e = X.C(0, 64); });
  HN({"llvm.expect", "llvm.expect.with.probability", "llvm.launder.invariant.group", "llvm.strip.invariant.group", "llvm.ssa.copy", "llvm.threadlocal.address"}, [](State&, const Inst&, std::vector<Val>& a, Val& r) { r = a[0]; });
  H("llvm.is.constant", [](State&, const Inst&, std::vector<Val>&, Val& r) { r.e = X.C(0, 1); });
  H("llvm.objectsize", [](State&, const Inst& in, std::vector<Val>&, Val& r) { r.e = X.C(~0ull, in.w); });
  H("llvm.umax", [](State&, const Inst&, std::vector<Val>& a, Val& r) { r.e = X.Ite(X.Ult(a[0].e, a[1].e), a[1].e, a[0].e); });
  H("llvm.load.relative", [](State& s, const Inst&, std::vector<Val>& a, Val& r) { E o = a[1].e; if (o->w < 64) o = X.SExt(o, 64); E at = X.C(concretize(s, X.Add(a[0].e, o), 64, "load.relative"), 64); r.e = X.Add(a[0].e, X.SExt(loadMem(s, at, 4), 64)); });
  H("llvm.umin", [](State&, const Inst&, std::vector<Val>& a, Val& r) { r.e = X.Ite(X.Ult(a[0].e, a[1].e), a[0].e, a[1].e); });
  H("llvm.smax", [](State&, const Inst&, std::vector<Val>& a, Val& r) { r.e = X.Ite(X.Slt(a[0].e, a[1].e), a[1].e, a[0].e); });
  H("llvm.smin", [](State&, const Inst&, std::vector<Val>& a, Val& r) { r.e = X.Ite(X.Slt(a[0].e, a[1].e), a[0].e, a[1].e); });
  H("llvm.abs", [](State&, const Inst&, std::vector<Val>& a, Val& r) { E z = X.C(0, a[0].e->w); r.e = X.Ite(X.Slt(a[0].e, z), X.Sub(z, a[0].e), a[0].e); });
  H("llvm.bswap", [](State&, const Inst&, std::vector<Val>& a, Val& r) { E x = a[0].e, o = nullptr; for (unsigned i = 0; i < x->w / 8; i++) { E b = X.Extract(x, i * 8, 8); o = o ? X.Concat(o, b) : b; } r.e = o; });
  H("llvm.ctlz", [](State&, const Inst&, std::vector<Val>& a, Val& r) { E x = a[0].e; unsigned w = x->w; E o = X.C(w, w); for (unsigned i = 0; i < w; i++) o = X.Ite(X.Extract(x, i, 1), X.C(w - 1 - i, w), o); r.e = o; });
  H("llvm.cttz", [](State&, const Inst&, std::vector<Val>& a, Val& r) { E x = a[0].e; unsigned w = x->w; E o = X.C(w, w); for (unsigned i = w; i-- > 0;) o = X.Ite(X.Extract(x, i, 1), X.C(i, w), o); r.e = o; });
  H("llvm.ctpop", [](State&, const Inst&, std::vector<Val>& a, Val& r) { E x = a[0].e; E o = X.C(0, x->w); for (unsigned i = 0; i < x->w; i++) o = X.Add(o, x->w == 1 ? x : X.ZExt(X.Extract(x, i, 1), x->w)); r.e = o; });
  auto fsh = [](bool left) { return [left](State&, const Inst&, std::vector<Val>& a, Val& r) {
    E x = a[0].e, y = a[1].e, z = a[2].e; unsigned w = x->w; if (!X.ic(z)) throw Unsupported{"funnel shift by symbolic amount"};
    unsigned k = (unsigned)(z->v % w); if (left) r.e = k ? X.Or(X.Shl(x, X.C(k, w)), X.LShr(y, X.C(w - k, w))) : x; else r.e = k ? X.Or(X.Shl(x, X.C(w - k, w)), X.LShr(y, X.C(k, w))) : y; }; };
  H("llvm.fshl", fsh(true)); H("llvm.fshr", fsh(false));
  auto ovf = [](E v, E o) { Val a, b; a.e = v; b.e = o; return mkAgg({a, b}); };
  H("llvm.uadd.with.overflow", [ovf](State&, const Inst&, std::vector<Val>& a, Val& r) { E v = X.Add(a[0].e, a[1].e); r = ovf(v, X.Ult(v, a[0].e)); });
  H("llvm.usub.with.overflow", [ovf](State&, const Inst&, std::vector<Val>& a, Val& r) { r = ovf(X.Sub(a[0].e, a[1].e), X.Ult(a[0].e, a[1].e)); });
  H("llvm.umul.with.overflow", [ovf](State&, const Inst&, std::vector<Val>& a, Val& r) { r = ovf(X.Mul(a[0].e, a[1].e), X.UMulO(a[0].e, a[1].e)); });
  H("llvm.sadd.with.overflow", [ovf](State&, const Inst&, std::vector<Val>& a, Val& r) { unsigned w = a[0].e->w; E v = X.Add(a[0].e, a[1].e);
    if (X.addNoOvf(a[0].e, a[1].e, false)) { r = ovf(v, X.F()); return; }
    if (w < 64) { E x = X.Add(X.SExt(a[0].e, w + 1), X.SExt(a[1].e, w + 1)); r = ovf(v, X.Not(X.Eq(X.Extract(x, w, 1), X.Extract(x, w - 1, 1)))); }
    else { E sa = X.Extract(a[0].e, 63, 1), sb = X.Extract(a[1].e, 63, 1), sv = X.Extract(v, 63, 1); r = ovf(v, X.And(X.Eq(sa, sb), X.Not(X.Eq(sa, sv)))); } });
  H("llvm.ssub.with.overflow", [ovf](State&, const Inst&, std::vector<Val>& a, Val& r) { unsigned w = a[0].e->w; E v = X.Sub(a[0].e, a[1].e);
    if (X.addNoOvf(a[0].e, a[1].e, true)) { r = ovf(v, X.F()); return; }
    if (w < 64) { E x = X.Sub(X.SExt(a[0].e, w + 1), X.SExt(a[1].e, w + 1)); r = ovf(v, X.Not(X.Eq(X.Extract(x, w, 1), X.Extract(x, w - 1, 1)))); }
    else { E sa = X.Extract(a[0].e, 63, 1), sb = X.Extract(a[1].e, 63, 1), sv = X.Extract(v, 63, 1); r = ovf(v, X.And(X.Not(X.Eq(sa, sb)), X.Not(X.Eq(sa, sv)))); } });
  H("llvm.smul.with.overflow", [ovf](State&, const Inst&, std::vector<Val>& a, Val& r) { if (X.mulNoOvf(a[0].e, a[1].e)) { r = ovf(X.Mul(a[0].e, a[1].e), X.F()); return; } r = ovf(X.Mul(a[0].e, a[1].e), X.SMulO(a[0].e, a[1].e)); });
  H("llvm.usub.sat", [](State&, const Inst&, std::vector<Val>& a, Val& r) { r.e = X.Ite(X.Ult(a[0].e, a[1].e), X.C(0, a[0].e->w), X.Sub(a[0].e, a[1].e)); });
  H("llvm.uadd.sat", [](State&, const Inst&, std::vector<Val>& a, Val& r) { E v = X.Add(a[0].e, a[1].e); r.e = X.Ite(X.Ult(v, a[0].e), X.C(~0ull, v->w), v); });
  // FP
  auto fu = [](int op) { return [op](State&, const Inst&, std::vector<Val>& a, Val& r) { r.e = X.FUn(op, a[0].e); }; };
  HN({"log2f", "log2", "llvm.log2"}, fu(F_LOG2)); HN({"ceilf", "ceil", "llvm.ceil"}, fu(F_CEIL)); HN({"floorf", "floor", "llvm.floor"}, fu(F_FLOOR));
  HN({"truncf", "trunc", "llvm.trunc"}, fu(F_TRUNC)); HN({"roundf", "round", "llvm.round"}, fu(F_ROUND)); HN({"sqrtf", "sqrt", "llvm.sqrt"}, fu(F_SQRT)); HN({"fabsf", "fabs", "llvm.fabs"}, fu(F_FABS));
  HN({"log", "logf", "llvm.log"}, fu(F_LOG)); HN({"exp2", "exp2f", "llvm.exp2"}, fu(F_EXP2)); HN({"log10", "log10f"}, fu(F_LOG10));
  H("llvm.fmuladd", [](State&, const Inst&, std::vector<Val>& a, Val& r) { r.e = X.FBin(F_ADD, X.FBin(F_MUL, a[0].e, a[1].e), a[2].e); });
  // errors
  HN({"abort", "_ZSt9terminatev", "__clang_call_terminate"}, [](State& s, const Inst&, std::vector<Val>&, Val&) { fatalErr(s, "abort", "abort/terminate called"); });
  HN({"_ZSt21__glibcxx_assert_failPKciS0_S0_", "_ZSt20__glibcxx_assert_failPKciS0_S0_"}, [](State& s, const Inst&, std::vector<Val>& a, Val&) { fatalErr(s, "out-of-bounds", "library assertion " + (a[3].e && X.ic(a[3].e) && a[3].e->v ? cstr(s, a[3].e->v) : std::string())); });
  HN({"__assert_fail"}, [](State& s, const Inst&, std::vector<Val>& a, Val&) { fatalErr(s, "assertion", cstr(s, a[0].e->v)); });
  HN({"llvm.trap", "llvm.debugtrap"}, [](State& s, const Inst&, std::vector<Val>&, Val&) { fatalErr(s, "trap", ""); });
  H("llvm.ubsantrap", [](State& s, const Inst&, std::vector<Val>& a, Val&) { fatalErr(s, "undefined-behaviour", "ubsan check kind " + std::to_string(a[0].e ? a[0].e->v : 0)); });
  for (const char* n : {"_ZSt20__throw_length_errorPKc", "_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt19__throw_logic_errorPKc", "_ZSt25__throw_bad_function_callv", "__cxa_throw", "__cxa_rethrow", "_ZSt24__throw_invalid_argumentPKc", "_ZSt21__throw_runtime_errorPKc", "__cxa_throw_bad_array_new_length", "_ZSt16__throw_bad_castv", "_ZSt26__throw_bad_variant_accessPKc", "_ZSt27__throw_bad_optional_accessv", "_Unwind_Resume"}) {
    std::string nm = n;
    H(n, [nm](State& s, const Inst&, std::vector<Val>&, Val&) { onThrow(s, demangle(nm)); });
  }
  H("__cxa_pure_virtual", [](State& s, const Inst&, std::vector<Val>&, Val&) { fatalErr(s, "pure-virtual-call", ""); });
  HN({"exit", "_exit"}, [](State&, const Inst&, std::vector<Val>&, Val&) { nPaths++; throw PathEnd{"exit"}; });
  H("__cxa_allocate_exception", [](State& s, const Inst&, std::vector<Val>& a, Val& r) { ObjP o = newObj(s, cint(s, a[0], "exc"), 'h', "exc", false); r.e = X.C(o->base, 64); });
  H("__cxa_guard_acquire", [](State& s, const Inst&, std::vector<Val>& a, Val& r) { E v = loadMem(s, a[0].e, 1); r.e = X.ic(v, 0) ? X.C(1, 32) : X.C(0, 32); });
  H("__cxa_guard_release", [](State& s, const Inst&, std::vector<Val>& a, Val&) { storeMem(s, a[0].e, X.C(1, 8), 1); });
  // a single thread of execution
  HN({"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_mutex_init", "pthread_mutex_destroy"}, [](State&, const Inst&, std::vector<Val>&, Val& r) { r.e = X.C(0, 32); });
  HN({"__gthread_active_p", "_ZL18__gthread_active_pv", "__libc_single_threaded"}, [](State&, const Inst&, std::vector<Val>&, Val& r) { r.e = X.C(0, 32); });
  // stdio
  HN({"fprintf", "__fprintf_chk"}, [](State& s, const Inst& in, std::vector<Val>& a, Val& r) {
    size_t fi = in.callee && in.callee->getName() == "__fprintf_chk" ? 2 : 1;
    if (X.ic(a[0].e) && a[0].e->v == sxFileAddr) logCall(s, a, fi);
    else if (X.ic(a[0].e) && a[0].e->v == 0) fatalErr(s, "null-dereference", "fprintf to null FILE");
    r.e = X.C(0, 32); });
  HN({"printf", "puts", "putchar", "fflush", "perror", "vprintf"}, [](State&, const Inst&, std::vector<Val>&, Val& r) { r.e = X.C(0, 32); });
  HN({"fputc", "putc"}, [](State& s, const Inst&, std::vector<Val>& a, Val& r) { if (X.ic(a[1].e) && a[1].e->v == sxFileAddr) { LogEnt l; l.fmt = X.ic(a[0].e) ? std::string(1, (char)a[0].e->v) : "?"; if (l.fmt == "%") l.fmt = "%%"; s.log.push_back(l); } r.e = X.C(0, 32); });
  H("fputs", [](State& s, const Inst&, std::vector<Val>& a, Val& r) { if (X.ic(a[1].e) && a[1].e->v == sxFileAddr) { LogEnt l; for (char c : cstr(s, cint(s, a[0], "fputs"))) l.fmt += c == '%' ? std::string("%%") : std::string(1, c); s.log.push_back(l); } r.e = X.C(0, 32); });
  H("fwrite", [](State& s, const Inst&, std::vector<Val>& a, Val& r) { if (X.ic(a[3].e) && a[3].e->v == sxFileAddr) { LogEnt l; std::string t = cstr(s, cint(s, a[0], "fwrite")); uint64_t n = cint(s, a[1], "n") * cint(s, a[2], "n"); for (char c : t.substr(0, n)) l.fmt += c == '%' ? std::string("%%") : std::string(1, c); s.log.push_back(l); } r.e = a[2].e; });
  // variable arguments: all of them in the overflow area, eight bytes each
  H("llvm.va_start", [](State& s, const Inst&, std::vector<Val>& a, Val&) {
    auto va = s.st.back().varargs;
    ObjP o = newObj(s, va.size() * 8, 's', "varargs", true);
    s.st.back().allocas.push_back(o->base);
    uint64_t base = o->base;
    for (size_t i = 0; i < va.size(); i++) { if (!va[i].e) throw Unsupported{"aggregate variable argument"}; E v = va[i].e; if (v->w < 64) v = X.ZExt(v, 64); storeMem(s, X.C(base + i * 8, 64), v, 8); }
    uint64_t l = cint(s, a[0], "va_list");
    storeMem(s, X.C(l, 64), X.C(48, 32), 4); storeMem(s, X.C(l + 4, 64), X.C(176, 32), 4);
    storeMem(s, X.C(l + 8, 64), X.C(base, 64), 8); storeMem(s, X.C(l + 16, 64), X.C(base, 64), 8); });
  H("llvm.va_copy", [](State& s, const Inst&, std::vector<Val>& a, Val&) { doCopy(s, a[0].e, a[1].e, 24); });
  // the arguments a format takes from a va_list
  static auto vargs = [](State& s, const std::string& fmt, E list, std::vector<Val>& out) {
    E at = loadMem(s, X.Add(list, X.C(8, 64)), 8);
    uint64_t p = concretize(s, at, 16, "va_list");
    for (size_t i = 0; i + 1 < fmt.size(); i++) {
      if (fmt[i] != '%') continue;
      if (fmt[i + 1] == '%') { i++; continue; }
      size_t j = i + 1; unsigned l = 0;
      while (j < fmt.size() && (!isalpha((unsigned char)fmt[j]) || strchr("hlzjtL", fmt[j]))) {
        if (fmt[j] == '*') { Val v; v.e = X.Trunc(loadMem(s, X.C(p, 64), 8), 32); p += 8; out.push_back(v); }
        if (strchr("lzjt", fmt[j])) l = 64;
        j++;
      }
      if (j >= fmt.size()) break;
      Val v; v.e = loadMem(s, X.C(p, 64), 8); p += 8;
      if (strchr("diuxXoc", fmt[j]) && !l) v.e = X.Trunc(v.e, 32);
      out.push_back(v); i = j;
    }
  };
  HN({"vfprintf", "__vfprintf_chk"}, [](State& s, const Inst& in, std::vector<Val>& a, Val& r) {
    size_t fi = in.callee && in.callee->getName() == "__vfprintf_chk" ? 2 : 1;
    std::vector<Val> b{a[0], a[fi]};
    vargs(s, cstr(s, cint(s, a[fi], "fmt")), a[fi + 1].e, b);
    if (X.ic(a[0].e) && a[0].e->v == sxFileAddr) logCall(s, b, 1);
    else if (X.ic(a[0].e) && a[0].e->v == 0) fatalErr(s, "null-dereference", "vfprintf to null FILE");
    r.e = X.C(0, 32); });
  H("vsnprintf", [](State& s, const Inst& in, std::vector<Val>& a, Val& r) {
    std::vector<Val> b{a[0], a[1], a[2]};
    vargs(s, cstr(s, cint(s, a[2], "fmt")), a[3].e, b);
    handlers[handlerIdx["snprintf"]](s, in, b, r); });
  H("snprintf", [](State& s, const Inst&, std::vector<Val>& a, Val& r) {
    // integer / string arguments; a symbolic value is formatted only by %x
    uint64_t n = cint(s, a[1], "snprintf"); std::string fmt = cstr(s, cint(s, a[2], "fmt")); std::vector<E> out; size_t ai = 3;
    auto put = [&](const std::string& t) { for (char c : t) out.push_back(X.C((uint8_t)c, 8)); };
    for (size_t i = 0; i < fmt.size(); i++) {
      if (fmt[i] != '%') { put(fmt.substr(i, 1)); continue; }
      if (fmt[i + 1] == '%') { put("%"); i++; continue; }
      size_t j = i + 1; while (j < fmt.size() && !isalpha((unsigned char)fmt[j])) j++;
      size_t k = j; while (k < fmt.size() && strchr("hlzjtL", fmt[k])) k++;
      std::string sp = fmt.substr(i, j - i); char c = fmt[k]; char buf[256]; buf[0] = 0;
      if (ai >= a.size()) break;
      E v = a[ai].e; ai++;
      if (c == 's') { snprintf(buf, sizeof buf, (sp + "s").c_str(), cstr(s, cint(s, a[ai - 1], "s")).c_str()); put(buf); }
      else if (c == 'x' && v && !X.ic(v)) {
        unsigned nd = 1, w = v->w;
        E ndig = X.C(1, 32);
        for (unsigned d = 1; d * 4 < w; d++) ndig = X.Ite(X.Not(X.Eq(X.LShr(v, X.C(d * 4, w)), X.C(0, w))), X.C(d + 1, 32), ndig);
        nd = (unsigned)concretize(s, ndig, 32, "digits");
        bool zero = false; unsigned wd = 0; for (char q : sp.substr(1)) { if (q == '0' && !wd) zero = true; else if (isdigit((unsigned char)q)) wd = wd * 10 + (unsigned)(q - '0'); else throw Unsupported{"snprintf flag"}; }
        while (wd > nd) { put(zero ? "0" : " "); wd--; }
        for (unsigned d = nd; d-- > 0;) { E h = X.Trunc(X.And(X.LShr(v, X.C(d * 4, w)), X.C(15, w)), 8); out.push_back(X.Ite(X.Ult(h, X.C(10, 8)), X.Add(h, X.C('0', 8)), X.Add(h, X.C('a' - 10, 8)))); }
      } else { uint64_t x = cint(s, a[ai - 1], "snprintf arg"); if (c == 'd' || c == 'i') snprintf(buf, sizeof buf, (sp + "ll" + c).c_str(), (long long)sxt(x, v->w)); else snprintf(buf, sizeof buf, (sp + "ll" + c).c_str(), (unsigned long long)x); put(buf); }
      i = k;
    }
    if (n) { uint64_t d = cint(s, a[0], "dst"); size_t m = std::min<size_t>(out.size(), n - 1); for (size_t i = 0; i <= m; i++) storeMem(s, X.C(d + i, 64), i < m ? out[i] : X.C(0, 8), 1); }
    r.e = X.C(out.size(), 32); });
  // sx_* interface
  H("sx_elem", [](State& s, const Inst&, std::vector<Val>& a, Val& r) {
    unsigned w = (unsigned)cint(s, a[0], "width"); std::string name = s.pre + cstr(s, cint(s, a[1], "name"));
    if (w == 0 || w > 64) throw Unsupported{"sx_elem width " + std::to_string(w)};
    Rule ru; E e;
    if (ruleFor(name, ru) && ru.kind != "free") {
      if (ru.kind == "fix") { e = X.C(ru.v[0], w); s.inputs.push_back({name, e}); r.e = X.ZExt(e, 64); return; }
      if (ru.kind == "mix" || ru.kind == "one") {
        // flags by occurrence: mix|seed is a fixed irregular pattern, one|b is b everywhere but (in one fork each) at one place
        uint64_t k = 0, odd = 0;
        for (auto& in : s.inputs) if (in.name == name) { k++; if (X.ic(in.e) && in.e->v != ru.v[0]) odd = 1; }
        if (ru.kind == "mix") { uint64_t h = 1469598103934665603ull ^ (ru.v[0] * 0x9e3779b97f4a7c15ull); for (char c : name) h = (h ^ (uint8_t)c) * 1099511628211ull; h ^= (k + 1) * 0xbf58476d1ce4e5b9ull; h ^= h >> 31; h *= 0x94d049bb133111ebull; h ^= h >> 29; e = X.C(h & 1, w); }
        else {
          e = X.C(ru.v[0], w);
          if (!odd) { State* o = new State(s); E c = X.C(!ru.v[0], w); o->inputs.push_back({name, c}); Val v; v.e = X.ZExt(c, 64); Frame& f = o->st.back(); auto& in2 = f.fn->bbs[f.bb].insts[f.ip]; if (in2.dst >= 0) f.regs[in2.dst] = v; if (in2.op == Instruction::Invoke) jump(*o, in2.bb1); else f.ip++; pushState(o); }
        }
        s.inputs.push_back({name, e}); r.e = X.ZExt(e, 64); return; }
      if (ru.kind == "set") {
        for (size_t i = 1; i < ru.v.size(); i++) { State* o = new State(s); E c = X.C(ru.v[i], w); o->inputs.push_back({name, c}); Val v; v.e = X.ZExt(c, 64); Frame& f = o->st.back(); auto& in2 = f.fn->bbs[f.bb].insts[f.ip]; if (in2.dst >= 0) f.regs[in2.dst] = v; if (in2.op == Instruction::Invoke) jump(*o, in2.bb1); else f.ip++; pushState(o); }
        e = X.C(ru.v[0], w); s.inputs.push_back({name, e}); r.e = X.ZExt(e, 64); return; }
      // a bounded element gets a narrow variable: cheaper queries
      E c = X.T(), base; uint64_t lo = 0;
      auto nbits = [](uint64_t v) { unsigned n = 1; while (n < 64 && (v >> n)) n++; return n; };
      if (ru.kind == "max" || ru.kind == "range") {
        uint64_t l = ru.kind == "max" ? 0 : ru.v[0], h = std::min(ru.kind == "max" ? ru.v[0] : ru.v[1], maskw(w));
        unsigned nb = std::min(nbits(h), w);
        base = freshSym(s, name, nb); e = X.ZExt(base, w); lo = l;
        if (h != maskw(nb)) c = X.And(c, X.Ule(base, X.C(h, nb)));
        if (l) c = X.And(c, X.Ule(X.C(l, nb), base));
      } else if (ru.kind == "srange") {
        int64_t l = (int64_t)ru.v[0], h = (int64_t)ru.v[1];
        unsigned nb = 1; while (nb < w && (l < -(1ll << (nb - 1)) || h > (1ll << (nb - 1)) - 1)) nb++;
        base = freshSym(s, name, nb); e = X.SExt(base, w); lo = (uint64_t)l & maskw(nb);
        c = X.And(X.Sle(X.C(ru.v[0] & maskw(nb), nb), base), X.Sle(base, X.C(ru.v[1] & maskw(nb), nb)));
      } else if (ru.kind == "notset") {
        base = freshSym(s, name, w); e = base;
        for (auto v : ru.v) c = X.And(c, X.Not(X.Eq(base, X.C(v & maskw(w), w))));
        while (std::find(ru.v.begin(), ru.v.end(), lo) != ru.v.end()) lo++;
      } else throw Unsupported{"rule " + ru.kind};
      if (X.ic(c, 0)) throw PathEnd{"infeasible rule"};
      setModel(s, {{(uint32_t)base->v, lo}});
      if (!X.ic(c, 1)) addPC(s, c);
    } else { e = freshSym(s, name, w); setModel(s, {{(uint32_t)e->v, 0}}); }
    s.inputs.push_back({name, e});
    r.e = X.ZExt(e, 64); });
  H("sx_choose", [](State& s, const Inst&, std::vector<Val>& a, Val& r) {
    uint64_t n = cint(s, a[0], "n"); std::string name = s.pre + cstr(s, cint(s, a[1], "name"));
    std::vector<uint64_t> vals; Rule ru;
    if (ruleFor(name, ru) && (ru.kind == "fix" || ru.kind == "set")) { for (auto v : ru.v) if (v < n) vals.push_back(v); }
    else if (ruleFor(name, ru) && ru.kind == "max") { for (uint64_t i = 0; i < n && i <= ru.v[0]; i++) vals.push_back(i); }
    else for (uint64_t i = 0; i < n; i++) vals.push_back(i);
    if (vals.empty()) throw PathEnd{"infeasible rule"};
    for (size_t i = vals.size(); i-- > 1;) { State* o = new State(s); E c = X.C(vals[i], 32); o->inputs.push_back({name, c}); Val v; v.e = c; Frame& f = o->st.back(); auto& in2 = f.fn->bbs[f.bb].insts[f.ip]; if (in2.dst >= 0) f.regs[in2.dst] = v; if (in2.op == Instruction::Invoke) jump(*o, in2.bb1); else f.ip++; pushState(o); }
    r.e = X.C(vals[0], 32); s.inputs.push_back({name, r.e}); });
  H("sx_param", [](State& s, const Inst&, std::vector<Val>& a, Val& r) { std::string n = cstr(s, cint(s, a[0], "p")); auto it = params.find(s.pre + n); if (it == params.end()) it = params.find(n); r.e = X.C((uint64_t)(it == params.end() ? -1 : it->second), 64); });
  H("sx_assume", [](State& s, const Inst&, std::vector<Val>& a, Val&) {
    E c = a[0].e; if (c->w != 1) c = X.Not(X.Eq(c, X.C(0, c->w)));
    if (X.ic(c)) { if (!c->v) throw PathEnd{"assume"}; return; }
    if (evalm(s, c)) { addPC(s, c); return; }
    std::vector<std::pair<uint32_t, uint64_t>> m; Res r2 = query(s, c, &m);
    if (r2 == SAT) { setModel(s, m); addPC(s, c); } else throw PathEnd{"assume"}; });
  H("sx_check", [](State& s, const Inst&, std::vector<Val>& a, Val&) {
    effortEnd(s);
    E c = a[0].e; if (c->w != 1) c = X.Not(X.Eq(c, X.C(0, c->w)));
    std::string label = cstr(s, cint(s, a[1], "label"));
    if (!about(label)) return;
    nChecks++;
    if (X.ic(c, 1)) { nChecksTrivial++; return; }
    std::vector<std::pair<uint32_t, uint64_t>> m;
    Res r2 = mayHold(s, X.Not(c), &m);
    if (r2 == SAT) {
      report(s, "check", label, "assertion can fail", &m);
      if (X.ic(c) || mayHold(s, c, &m) != SAT) { nErrPaths++; throw PathEnd{"violated"}; }
      if (!m.empty()) setModel(s, m);
      addPC(s, c);
    } });
  H("sx_cover", [](State& s, const Inst&, std::vector<Val>& a, Val&) { covers[cstr(s, cint(s, a[0], "label"))]++; });
  H("sx_prune", [](State& s, const Inst&, std::vector<Val>& a, Val&) { pruned[cstr(s, cint(s, a[0], "label"))]++; nPruned++; throw PathEnd{"pruned"}; });
  H("sx_stop", [](State& s, const Inst&, std::vector<Val>&, Val&) { effortEnd(s); nPaths++; takeSample(s); throw PathEnd{"stop"}; });
  H("sx_is_const", [](State&, const Inst&, std::vector<Val>& a, Val& r) { r.e = X.C(X.ic(a[0].e), 32); });
  H("sx_concretize", [](State& s, const Inst&, std::vector<Val>& a, Val& r) { r.e = X.C(concretize(s, a[0].e, 64, "c"), 64); });
  // 1 if cond must hold, 0 if it must not, 2 if undecided; never forks
  H("sx_decide", [](State& s, const Inst&, std::vector<Val>& a, Val& r) { E c = a[0].e; if (c->w != 1) c = X.Not(X.Eq(c, X.C(0, c->w))); if (X.ic(c)) { r.e = X.C(c->v, 32); return; }
    bool t = mayHold(s, c, nullptr) != UNSAT, f = mayHold(s, X.Not(c), nullptr) != UNSAT; r.e = X.C(t && f ? 2 : t ? 1 : 0, 32); });
  H("sx_and", [](State&, const Inst&, std::vector<Val>& a, Val& r) { auto b = [](E c) { return c->w == 1 ? c : X.Not(X.Eq(c, X.C(0, c->w))); }; r.e = X.ZExt(X.And(b(a[0].e), b(a[1].e)), 32); });
  H("sx_ite", [](State&, const Inst&, std::vector<Val>& a, Val& r) { E c = a[0].e; if (c->w != 1) c = X.Not(X.Eq(c, X.C(0, c->w))); r.e = X.Ite(c, a[1].e, a[2].e); });
  H("sx_native", [](State&, const Inst&, std::vector<Val>&, Val& r) { r.e = X.C(0, 32); });
  H("sx_file", [](State&, const Inst&, std::vector<Val>&, Val& r) { r.e = X.C(sxFileAddr, 64); });
  H("sx_log_n", [](State& s, const Inst&, std::vector<Val>&, Val& r) { r.e = X.C(s.log.size(), 32); });
  H("sx_log_reset", [](State& s, const Inst&, std::vector<Val>&, Val&) { s.log.clear(); s.cursor.clear(); });
  H("sx_dump_save", [](State& s, const Inst&, std::vector<Val>&, Val& r) {
    auto& d = dumpOf(s); auto k = std::make_shared<DumpSlot>(); std::vector<size_t> ph;
    k->norm = dumpNorm(d.text, &ph); k->head = dumpHead(k->norm); for (auto i : ph) k->args.push_back(d.args[i]);
    s.slots.push_back(k); r.e = X.C(s.slots.size() - 1, 32); });
  auto eqArgs = [](const std::vector<E>& a, size_t off, const std::vector<E>& b) {
    E c = X.T();
    for (size_t i = 0; i < b.size(); i++) { E x = a[off + i], y = b[i]; if (x == y) continue; if (!x || !y || x->fp || y->fp) return X.F(); unsigned w = std::max(x->w, y->w); c = X.And(c, X.Eq(x->w < w ? X.ZExt(x, w) : x, y->w < w ? X.ZExt(y, w) : y)); }
    return c; };
  // the saved dump occurs in the current one (after the previous one of its name)
  H("sx_dump_has", [eqArgs](State& s, const Inst&, std::vector<Val>& a, Val& r) {
    auto k = s.slots.at(cint(s, a[0], "slot")); auto& d = dumpOf(s); std::vector<size_t> ph; std::string t = dumpNorm(d.text, &ph);
    size_t& from = s.cursor[k->head]; size_t p = dumpFind(t, k->norm, from);
    if (p == std::string::npos) { r.e = X.C(0, 32); return; }
    from = p + 1;
    size_t off = (size_t)std::count(t.begin(), t.begin() + (long)p, '\x01'); std::vector<E> args; for (auto i : ph) args.push_back(d.args[i]);
    r.e = X.ZExt(eqArgs(args, off, k->args), 32); });
  H("sx_dump_same", [eqArgs](State& s, const Inst&, std::vector<Val>& a, Val& r) {
    auto k = s.slots.at(cint(s, a[0], "slot")); auto& d = dumpOf(s); std::vector<size_t> ph; std::string t = dumpNorm(d.text, &ph);
    if (t != k->norm) { r.e = X.C(0, 32); return; }
    std::vector<E> args; for (auto i : ph) args.push_back(d.args[i]);
    r.e = X.ZExt(eqArgs(args, 0, k->args), 32); });
  // exact text; runs of digits and printed values compare as numbers
  struct Tok { char k; std::string t; E e; };
  auto toks = [](const Dump& d) {
    std::vector<Tok> r; const std::string& t = d.text;
    auto lit = [&](char c) { if (r.empty() || r.back().k != 'l') r.push_back({'l', "", nullptr}); r.back().t += c; };
    for (size_t i = 0; i < t.size(); i++) {
      bool neg = t[i] == '-' && i + 1 < t.size() && isdigit((unsigned char)t[i + 1]) && (i == 0 || !isalnum((unsigned char)t[i - 1]));
      if (isdigit((unsigned char)t[i]) || neg) { size_t j = i + neg; while (j < t.size() && isdigit((unsigned char)t[j])) j++; uint64_t v = strtoull(t.c_str() + i + neg, nullptr, 10); r.push_back({'n', "", X.C(neg ? 0 - v : v, 64)}); i = j - 1; continue; }
      if (t[i] != '\x01') { lit(t[i]); continue; }
      size_t j = t.find('\x02', i), n = strtoull(t.c_str() + i + 1, nullptr, 10); i = j;
      E e = d.args[n]; char c = d.conv[n];
      if (e && !e->fp && e->w < 64) e = c == 'd' || c == 'i' ? X.SExt(e, 64) : X.ZExt(e, 64);
      r.push_back({c == 'x' || c == 'X' ? 'x' : 'n', "", e});
    }
    return r; };
  static std::vector<std::vector<Tok>> texts;
  H("sx_text_save", [toks](State& s, const Inst&, std::vector<Val>&, Val& r) { texts.push_back(toks(dumpOf(s))); r.e = X.C(texts.size() - 1, 32); });
  H("sx_text_same", [toks](State& s, const Inst&, std::vector<Val>& a, Val& r) {
    auto& x = texts.at(cint(s, a[0], "slot")); auto y = toks(dumpOf(s)); E c = X.T();
    bool ok = x.size() == y.size();
    for (size_t i = 0; ok && i < x.size(); i++) { ok = x[i].k == y[i].k && x[i].t == y[i].t && (x[i].e == y[i].e || !x[i].e || !y[i].e || !(x[i].e->fp || y[i].e->fp)); if (ok && x[i].e && y[i].e && x[i].e != y[i].e) c = X.And(c, X.Eq(x[i].e, y[i].e)); }
    if (!ok && getenv("SYMX_LAYOUT")) { auto sh = [](const std::vector<Tok>& v) { std::string o; for (auto& t : v) o += t.k == 'l' ? t.t : X.ic(t.e) ? std::to_string(t.e->v) : std::string("<") + t.k + ">"; return o; }; fprintf(stderr, "TEXT A: %s\nTEXT B: %s\n", sh(x).c_str(), sh(y).c_str()); }
    r.e = ok ? X.ZExt(c, 32) : X.C(0, 32); });
  H("sx_dump_starts", [](State& s, const Inst&, std::vector<Val>& a, Val& r) { r.e = X.C(dumpStarts(dumpNorm(dumpOf(s).text), cstr(s, cint(s, a[0], "name"))), 32); });
  H("sx_dump_newlines", [](State& s, const Inst&, std::vector<Val>&, Val& r) { auto& t = dumpOf(s).text; r.e = X.C((uint64_t)std::count(t.begin(), t.end(), '\n'), 32); });
  H("sx_dump_layout", [](State& s, const Inst&, std::vector<Val>&, Val& r) { std::string w = dumpLayout(dumpOf(s).text); if (!w.empty() && getenv("SYMX_LAYOUT")) fprintf(stderr, "layout: %s\n", w.c_str()); r.e = X.C(w.empty(), 32); });
  H("sx_log_nargs", [](State& s, const Inst&, std::vector<Val>& a, Val& r) { uint64_t i = cint(s, a[0], "i"); r.e = X.C(i < s.log.size() ? s.log[i].args.size() : 0, 32); });
  H("sx_log_arg", [](State& s, const Inst&, std::vector<Val>& a, Val& r) { uint64_t i = cint(s, a[0], "i"), j = cint(s, a[1], "j"); E e = s.log[i].args[j]; if (e->fp) throw Unsupported{"fp in log"}; r.e = X.ZExt(e, 64); });
  H("sx_log_argw", [](State& s, const Inst&, std::vector<Val>& a, Val& r) { uint64_t i = cint(s, a[0], "i"), j = cint(s, a[1], "j"); E e = s.log[i].args[j]; r.e = X.C(e->fp ? 0 : e->w, 32); });
  // compare the text of a log entry's format (or its string argument) with a string
  H("sx_log_is", [](State& s, const Inst&, std::vector<Val>& a, Val& r) { uint64_t i = cint(s, a[0], "i"); r.e = X.C(s.log[i].fmt == cstr(s, cint(s, a[1], "str")), 32); });
  H("sx_log_str_is", [](State& s, const Inst&, std::vector<Val>& a, Val& r) { uint64_t i = cint(s, a[0], "i"), j = cint(s, a[1], "j"); r.e = X.C(s.log[i].strs[j] == cstr(s, cint(s, a[2], "str")), 32); });
  // index of the first log entry >= start whose format begins with name followed by ':' or ' {' ; -1 if none
  H("sx_log_find", [](State& s, const Inst&, std::vector<Val>& a, Val& r) {
    uint64_t st = cint(s, a[0], "i"); std::string n = cstr(s, cint(s, a[1], "str")); int64_t f = -1;
    for (size_t i = st; i < s.log.size(); i++) { const std::string& t = s.log[i].fmt; if (t.compare(0, n.size(), n) == 0 && (t.size() == n.size() || t[n.size()] == ':' || t[n.size()] == ' ')) { f = (int64_t)i; break; } }
    r.e = X.C((uint64_t)f, 64); });
  H("sx_prefix", [](State& s, const Inst&, std::vector<Val>& a, Val&) { s.pre = cstr(s, cint(s, a[0], "prefix")); });
  H("sx_effort", [](State& s, const Inst&, std::vector<Val>& a, Val&) { uint64_t u = cint(s, a[0], "units"); s.effort = true; s.effUnits = u; s.effHeapUnit = cint(s, a[1], "heap per unit"); s.effHeap = s.effBlocks = 0; });
  H("sx_effort_more", [](State& s, const Inst&, std::vector<Val>& a, Val&) { s.effUnits += cint(s, a[0], "units"); });
  H("sx_effort_end", [](State& s, const Inst&, std::vector<Val>&, Val&) { effortEnd(s); });
  H("sx_in_mark", [](State& s, const Inst&, std::vector<Val>&, Val& r) { r.e = X.C(s.inputs.size(), 32); });
  H("sx_in_count", [](State& s, const Inst&, std::vector<Val>& a, Val& r) { std::string n = s.pre + cstr(s, cint(s, a[0], "name")); uint64_t b = cint(s, a[1], "b"), e = cint(s, a[2], "e"), c = 0;
    for (uint64_t i = b; i < e && i < s.inputs.size(); i++) if (s.inputs[i].name == n) c++;
    r.e = X.C(c, 32); });
  H("sx_in_val", [](State& s, const Inst&, std::vector<Val>& a, Val& r) { std::string n = s.pre + cstr(s, cint(s, a[0], "name")); uint64_t k = cint(s, a[1], "i"), b = cint(s, a[2], "b"), e = cint(s, a[3], "e"), c = 0;
    for (uint64_t i = b; i < e && i < s.inputs.size(); i++) if (s.inputs[i].name == n && c++ == k) { r.e = X.ZExt(s.inputs[i].e, 64); return; }
    throw Unsupported{"sx_in_val out of range " + n}; });
  H("sx_dump_count", [](State& s, const Inst&, std::vector<Val>& a, Val& r) { std::string n = cstr(s, cint(s, a[0], "name")); auto& d = dumpOf(s); uint64_t c = 0; for (auto& it : d.n.items) if (it.first == n) c += it.second.size(); r.e = X.C(c, 32); });
  H("sx_dump_groups", [](State& s, const Inst&, std::vector<Val>& a, Val& r) { std::string n = cstr(s, cint(s, a[0], "name")); auto& d = dumpOf(s); uint64_t c = 0; for (auto& it : d.n.items) if (it.first == n) c++; r.e = X.C(c, 32); });
  H("sx_dump_val", [](State& s, const Inst&, std::vector<Val>& a, Val& r) { std::string n = cstr(s, cint(s, a[0], "name")); uint64_t k = cint(s, a[1], "i"), c = 0; auto& d = dumpOf(s);
    for (auto& it : d.n.items) if (it.first == n) for (auto& v : it.second) if (c++ == k) {
      if (!v.placeholder) { r.e = X.C(v.v & 0xffffffffu, 64); return; }
      E e = d.args[v.v]; if (e->fp) throw Unsupported{"floating point value in dump"};
      r.e = X.ZExt(e->w > 32 ? X.Trunc(e, 32) : e, 64); return; }
    throw Unsupported{"sx_dump_val out of range " + n}; });
  H("sx_debug", [](State& s, const Inst&, std::vector<Val>& a, Val&) { fprintf(stderr, "DEBUG %s", cstr(s, a[0].e->v).c_str()); for (size_t i = 1; i < a.size(); i++) { if (X.ic(a[i].e)) fprintf(stderr, " %llu", (unsigned long long)a[i].e->v); else fprintf(stderr, " sym(%llu)", (unsigned long long)evalm(s, a[i].e)); } fprintf(stderr, "\n"); });
}

// ------------------------------------------------------------------ main
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r; }

static void writeOut() {
  std::ofstream o(optOut);
  o << "{\n";
  o << "\"paths\":" << nPaths << ",\"pruned\":" << nPruned << ",\"error_paths\":" << nErrPaths << ",\"unsupported_paths\":" << nUnsupportedPaths << ",\"forks\":" << nForks << ",\"instructions\":" << nInst
    << ",\"queries\":" << nQueries << ",\"sat\":" << nSat << ",\"unsat\":" << nUnsat << ",\"unknown\":" << nUnknown << ",\"cache_hits\":" << nCacheHit << ",\"checks\":" << nChecks << ",\"checks_by_rewriting\":" << nChecksTrivial
    << ",\"peak_heap\":" << effPeakHeap << ",\"peak_blocks\":" << effPeakBlocks
    << ",\"solver_s\":" << solverTime << ",\"wall_s\":" << now() << ",\"incomplete\":" << (incomplete ? "true" : "false") << ",\n";
  auto smap = [&](const char* n, const std::map<std::string, uint64_t>& m) { o << "\"" << n << "\":{"; bool f = true; for (auto& p : m) { if (!f) o << ","; f = false; o << "\"" << jesc(p.first) << "\":" << p.second; } o << "},\n"; };
  smap("covers", covers); smap("pruned_by", pruned); smap("unsupported", unsupported);
  o << "\"incomplete_why\":["; { bool f = true; for (auto& w : incompleteWhy) { if (!f) o << ","; f = false; o << "\"" << jesc(w) << "\""; } } o << "],\n";
  o << "\"functions\":[";
  bool f1 = true; uint64_t bbv = 0, bbt = 0;
  for (auto& p : fns) { FnInfo* fi = p.second; if (!fi->entered || !fi->inScope) continue; unsigned v = 0; for (auto& b : fi->bbs) v += b.visited; bbv += v; bbt += fi->bbs.size(); if (!f1) o << ","; f1 = false; o << "{\"name\":\"" << jesc(shortFn(fi->dem)) << "\",\"blocks\":" << fi->bbs.size() << ",\"visited\":" << v << "}"; }
  o << "],\n\"blocks_visited\":" << bbv << ",\"blocks_total\":" << bbt << ",\n";
  {  // source lines of the code under test, by whether one of their blocks was reached
    std::map<std::string, std::map<unsigned, bool>> ln;
    std::unordered_map<const BasicBlock*, bool> vis;
    for (auto& p : fns) for (auto& b : p.second->bbs) if (b.bb) vis[b.bb] = b.visited;
    for (auto& F : *M) for (auto& B : F) for (auto& I : B) if (const DILocation* L = I.getDebugLoc().get()) {
      std::string fn = L->getFilename().str();
      if (!L->getLine() || fn.find("/harness/") != std::string::npos || fn.find("/usr/") == 0 || isa<LandingPadInst>(B.getFirstNonPHI())) continue;
      ln[fn.substr(fn.rfind('/') + 1)][L->getLine()] |= vis.count(&B) && vis[&B];
    }
    o << "\"lines\":{"; bool f = true;
    for (auto& p : ln) { o << (f ? "" : ",") << "\"" << jesc(p.first) << "\":{"; f = false; bool g = true; for (auto& l : p.second) { o << (g ? "" : ",") << "\"" << l.first << "\":" << (l.second ? 1 : 0); g = false; } o << "}"; }
    o << "},\n";
  }
  o << "\"violation_counts\":{"; { bool f = true; for (auto& p : vioCount) { if (!f) o << ","; f = false; o << "\"" << jesc(p.first) << "\":" << p.second; } } o << "},\n";
  o << "\"samples\":[";
  for (size_t k = 0; k < samples.size(); k++) {
    o << (k ? ",\n[" : "[");
    for (size_t i = 0; i < samples[k].inputs.size(); i++) o << (i ? "," : "") << "[\"" << jesc(samples[k].inputs[i].first) << "\"," << samples[k].inputs[i].second << "]";
    o << "]";
  }
  o << "],\n";
  o << "\"violations\":[";
  bool f = true;
  for (auto& v : violations) {
    if (!f) o << ","; f = false;
    o << "\n{\"kind\":\"" << v.kind << "\",\"label\":\"" << jesc(v.label) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"where\":\"" << jesc(v.where) << "\",\"stack\":[";
    for (size_t i = 0; i < v.stack.size() && i < 12; i++) o << (i ? "," : "") << "\"" << jesc(v.stack[i]) << "\"";
    o << "],\"inputs\":[";
    for (size_t i = 0; i < v.inputs.size(); i++) o << (i ? "," : "") << "[\"" << jesc(v.inputs[i].first) << "\"," << v.inputs[i].second << "]";
    o << "]}";
  }
  o << "]\n}\n";
}

int main(int argc, char** argv) {
  t0 = std::chrono::steady_clock::now();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--bc") optBc = nx();
    else if (a == "--entry") optEntry = nx();
    else if (a == "--out") optOut = nx();
    else if (a == "--param") { std::string p = nx(); size_t e = p.find('='); params[p.substr(0, e)] = strtoll(p.c_str() + e + 1, nullptr, 0); }
    else if (a == "--rule") { std::string p = nx(); Rule r; std::stringstream ss(p); std::string t; std::getline(ss, r.glob, '|'); std::getline(ss, r.kind, '|'); while (std::getline(ss, t, '|')) r.v.push_back((uint64_t)strtoll(t.c_str(), nullptr, 0)); rules.push_back(r); }
    else if (a == "--time") timeLimit = atof(nx().c_str());
    else if (a == "--max-paths") maxPaths = strtoull(nx().c_str(), nullptr, 0);
    else if (a == "--path-time") pathTime = atof(nx().c_str());
    else if (a == "--max-path-inst") maxPathInst = strtoull(nx().c_str(), nullptr, 0);
    else if (a == "--max-alloc") maxAlloc = strtoull(nx().c_str(), nullptr, 0);
    else if (a == "--solver-timeout") solverTimeoutMs = (unsigned)atoi(nx().c_str());
    else if (a == "--scope") scopePrefix = nx();
    else if (a == "--trace") traceErr = true;
    else if (a == "--stop-violations") stopViolations = strtoull(nx().c_str(), nullptr, 0);
    else if (a == "--samples") optSamples = (unsigned)atoi(nx().c_str());
    else if (a == "--seed") { uint64_t v = strtoull(nx().c_str(), nullptr, 0); rng ^= v * 0x2545F4914F6CDD1Dull; for (int k = 0; k < 8; k++) rnd(); }
    else if (a == "--label") labelPats.push_back(nx());
    else if (a == "--errors-only") noChecks = true;
    else if (a == "--effort-trace") effTrace = true;
    else if (a == "--known") knownLabels.insert(nx());
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  LLVMContext ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(optBc, err, ctx);
  if (!mod) { err.print("symx", errs()); return 2; }
  M = mod.get();
  DL = &M->getDataLayout();
  setupHandlers();
  Z3_config cfg = Z3_mk_config();
  z3c = Z3_mk_context(cfg);
  Z3_set_error_handler(z3c, nullptr);
  const char* q = getenv("SYMX_TACTIC");
  if (!q || !*q) q = "simplify,bit-blast,sat";
  if (strcmp(q, "simple")) {
    if (!strcmp(q, "qfbv")) z3s = Z3_mk_solver_for_logic(z3c, Z3_mk_string_symbol(z3c, "QF_BV"));
    else {
      Z3_tactic t = nullptr; std::stringstream ss(q); std::string n;
      while (std::getline(ss, n, ',')) { Z3_tactic u = Z3_mk_tactic(z3c, n.c_str()); Z3_tactic_inc_ref(z3c, u); if (t) { t = Z3_tactic_and_then(z3c, t, u); Z3_tactic_inc_ref(z3c, t); } else t = u; }
      z3s = Z3_mk_solver_from_tactic(z3c, t);
    }
  } else
  z3s = Z3_mk_simple_solver(z3c);
  Z3_solver_inc_ref(z3c, z3s);
  { Z3_params p = Z3_mk_params(z3c); Z3_params_inc_ref(z3c, p); Z3_params_set_uint(z3c, p, Z3_mk_string_symbol(z3c, "timeout"), solverTimeoutMs); Z3_solver_set_params(z3c, z3s, p); }

  State* s0 = new State();
  s0->model = std::make_shared<std::vector<uint64_t>>();
  s0->bound = std::make_shared<std::vector<uint8_t>>();
  uint64_t fa = 0x100000;
  for (auto& F : *M) { gaddr[&F] = fa; fnByAddr[fa] = &F; fa += 16; }
  uint64_t ga = 0x1000000;
  std::vector<std::pair<const GlobalVariable*, ObjP>> inits;
  for (auto& G : M->globals()) {
    uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 0;
    if (!G.hasInitializer()) sz = std::max<uint64_t>(sz, 64);
    ObjP o = std::make_shared<Obj>();
    o->base = ga; o->size = sz; o->kind = 'g'; o->name = G.getName().str(); o->c.assign(sz, 0);
    ga += ((sz + 15) & ~15ull) + 64;
    gaddr[&G] = o->base;
    o->ro = G.isConstant() && G.hasInitializer();
    inits.push_back({&G, o});
  }
  { ObjP o = std::make_shared<Obj>(); o->base = ga; o->size = 64; o->kind = 'g'; o->name = "sxfile"; o->c.assign(64, 0); sxFileAddr = ga; ga += 128; s0->mem[o->base] = o; }
  // the C library's streams: a pointer to an opaque object
  for (auto& p : inits) if (!p.first->hasInitializer() && (p.first->getName() == "stderr" || p.first->getName() == "stdout" || p.first->getName() == "stdin")) {
    ObjP o = std::make_shared<Obj>(); o->base = ga; o->size = 64; o->kind = 'g'; o->name = "FILE"; o->c.assign(64, 0); s0->mem[o->base] = o; ga += 128;
    for (int i = 0; i < 8; i++) p.second->c[i] = (uint8_t)(o->base >> (8 * i));
  }
  for (auto& p : inits) {
    if (p.first->hasInitializer()) { try { initConst(p.second.get(), 0, p.first->getInitializer()); } catch (Unsupported&) {} }
    if (p.second->ro) roMem[p.second->base] = p.second; else s0->mem[p.second->base] = p.second;
  }
  Function* EF = M->getFunction(optEntry);
  if (!EF || EF->isDeclaration()) { fprintf(stderr, "entry %s not found\n", optEntry.c_str()); return 2; }
  // entry runs after the static constructors
  std::vector<const Function*> ctors;
  if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
    for (unsigned i = 0; i < ca->getNumOperands(); i++) if (auto* f = dyn_cast<Function>(ca->getOperand(i)->getOperand(1)->stripPointerCasts())) ctors.push_back(f);
  // should a solver call never come back, what was found so far is kept
  std::thread([] {
    while (now() < timeLimit + 60) std::this_thread::sleep_for(std::chrono::seconds(1));
    markIncomplete("solver stuck");
    writeOut();
    fflush(stdout);
    _Exit(0);
  }).detach();
  work.push_back(s0);
  bool first = true;
  while (!work.empty()) {
    if (now() > timeLimit) { markIncomplete("time limit"); break; }
    if (nPaths >= maxPaths) { markIncomplete("path limit"); break; }
    { uint64_t nv = 0; for (auto& p : vioCount) if (!knownLabels.count(p.first)) nv += p.second; if (nv >= stopViolations) { markIncomplete("stopped after violations"); break; } }
    State* s = work.back(); work.pop_back();
    try {
      if (first) {
        first = false;
        for (auto* c : ctors) {
          pushFrame(*s, c, {}, -1, -1);
          // run to completion: the sentinel is an empty stack
          while (!s->st.empty()) {
            Frame& f = s->st.back();
            if (s->st.size() == 1 && curInst(f) && curInst(f)->op == Instruction::Ret) { for (uint64_t a : f.allocas) s->mem.erase(a); s->st.pop_back(); break; }
            step(*s);
          }
        }
        pushFrame(*s, EF, {}, -1, -1);
      }
      uint64_t k = 0;
      double p0 = now();
      for (;;) {
        step(*s);
        if ((++k & 0xff) != 0) continue;
        double t = now();
        // a path that goes on and on may not terminate at all: its inputs are
        // handed over, and the native replay tells
        if (t - p0 > pathTime || (t > timeLimit && t - p0 > pathTime / 3)) { markIncomplete("path time limit"); fatalErr(*s, "non-termination", "path still running at its time limit"); }
        if (t > timeLimit) { markIncomplete("time limit"); break; }
      }
    } catch (PathEnd& pe) {
    } catch (Unsupported& u) {
      std::string w;
      for (int i = (int)s->st.size() - 1; i >= 0 && w.empty(); i--) if (s->st[i].fn->inScope) w = shortFn(s->st[i].fn->dem);
      unsupported[u.what + " in " + w]++; nUnsupportedPaths++; markIncomplete("unsupported: " + u.what);
      if (traceErr) { fprintf(stderr, "unsupported: %s\n", u.what.c_str()); for (int i = (int)s->st.size() - 1; i >= 0; i--) { auto* ii = curInst(s->st[i]); fprintf(stderr, "   %s %s\n", shortFn(s->st[i].fn->dem).c_str(), ii ? locOf(ii->I).c_str() : ""); } }
    }
    delete s;
  }
  writeOut();
  fflush(stdout);
  _Exit(0);
}
