// symx: bounded symbolic executor for LLVM IR (C and C++), SMT-backed (z3).
// Every value is a term; branches on symbolic conditions are explored on both sides and joined again at the
// immediate post-dominator; memory has concrete addresses and byte-level symbolic contents.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <unistd.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <map>
#include <set>
#include <memory>
#include <chrono>
#include <cstdio>
#include <sys/resource.h>
#include <thread>
#include <pthread.h>
using namespace llvm;
static std::unique_ptr<Module> M; static const DataLayout* DL;
struct Agg; struct Val { E e = nullptr; Agg* agg = nullptr; Val() {} Val(E x) : e(x) {} Val(Agg* a) : agg(a) {} };
struct Agg { std::vector<Val> v; };
struct Inconclusive { std::string why; };
[[noreturn]] static void inconclusive(const std::string& s) { throw Inconclusive{s}; }

// ---------------------------------------------------------------- memory
enum OK_ { OGlobal, OHeap, OStack };
struct Obj; struct SymLog { std::shared_ptr<SymLog> prev; std::shared_ptr<Obj> base0; E idx, val, delta; unsigned n; u64 step; std::unordered_map<uint32_t, E> memo; };   // stores at symbolic offsets
static int g_fill = -1; static u64 g_uninitReads = 0; /* uninitialised memory: arbitrary, or one fixed byte on a second pass */
struct Obj { std::shared_ptr<SymLog> log; u64 base, size; int kind; bool ro = false; uint32_t site = 0; std::vector<uint8_t> c; std::vector<E> s; std::vector<uint8_t> init; 
  E getByte(u64 o) { if (!s.empty() && s[o]) return s[o]; if (!init.empty() && !init[o]) { if (s.empty()) s.resize(size, nullptr); g_uninitReads++; if (g_fill >= 0) return s[o] = mkConst((u64)g_fill, 8); char b[64]; snprintf(b, 64, "uninit!%llx+%llu", (unsigned long long)base, (unsigned long long)o); return s[o] = mkSym(b, 8); } return mkConst(c[o], 8); }
  void setByte(u64 o, E e) { log.reset(); if (!init.empty()) init[o] = 1; if (isC(e)) { c[o] = (uint8_t)e->c; if (!s.empty()) s[o] = nullptr; } else { if (s.empty()) s.resize(size, nullptr); s[o] = e; } }
};
typedef std::shared_ptr<Obj> OP;
struct FInfo { std::unordered_map<const Value*, int> num; int n = 0; std::unordered_map<const BasicBlock*, const BasicBlock*> ipdom; std::unordered_map<const BasicBlock*, std::vector<int>> live; bool repo = false; std::string file; };
struct Frame { Function* f; FInfo* fi; BasicBlock* bb; BasicBlock::iterator it; bool atStart = false; std::vector<Val> regs; std::vector<u64> allocas; CallBase* call = nullptr; std::vector<Val> varargs; std::vector<Type*> vatypes; };
typedef std::shared_ptr<Frame> FP;
struct Input { std::string name; std::vector<E> bytes; };
struct Observe { std::string name; E e; };
struct State {
  std::vector<FP> st; std::map<u64, OP> mem; std::vector<E> pc; std::shared_ptr<Model> model; std::vector<Input> inputs; std::vector<Observe> obs; std::map<std::string, int> names;
  int exitMode = 0; bool merge = true; bool dead = false; u64 steps = 0; 
  Frame& top() { if (st.back().use_count() > 1) st.back() = std::make_shared<Frame>(*st.back()); return *st.back(); }
};
typedef std::shared_ptr<State> SP;

static u64 nextGlobal = 0x10000000, nextHeap = 0x600000000000ull, nextStack = 0x7f0000000000ull, nextFn = 0x400000; static unsigned heapResidue = 16;
static std::unordered_map<const Function*, u64> fnAddr; static std::unordered_map<u64, Function*> addrFn;
static std::unordered_map<const GlobalValue*, u64> gvAddr;
static std::unordered_map<const Constant*, Val> ccache;
static std::map<std::string, long> params;
static std::string entryName; static double maxTime = 300; static u64 maxSteps = 50000000; static int maxErrors = 8; static unsigned maxFork = 4096;
static bool verbose = false;
// stats
static u64 nSteps = 0, nForks = 0, nMerges = 0, nPaths = 0, nExitPaths = 0, nAsserts = 0, nAssertQ = 0, nInfeasible = 0; static std::set<std::string> fnsExecuted; static std::set<std::string> extUsed, ufUsed; static u64 nWitness = 0;
static std::set<std::string> reached;
struct Err { std::string kind, msg, loc, fn; std::vector<std::pair<std::string, std::string>> inputs; bool uninit = false; std::vector<std::string> stack; };
static std::vector<Err> errors; static std::set<std::string> errKeys;
struct Wit { std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::pair<std::string, std::string>> obs; bool exited = false; bool uninit = false; };
static std::vector<Wit> witnesses; static int maxWit = 3;
static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

static std::string locOf(const Instruction* I) { if (auto& d = I->getDebugLoc()) { auto* sc = d->getScope(); std::string f = cast<DIScope>(sc)->getFilename().str(); return f + ":" + std::to_string(d.getLine()); } return I->getFunction()->getName().str(); }
static bool typeBytes(Type* t) { return t->isIntegerTy() || t->isPointerTy() || t->isFloatTy() || t->isDoubleTy() || t->isVectorTy(); }
static unsigned bitsOf(Type* t) { return DL->getTypeSizeInBits(t).getFixedValue(); }

static FInfo* finfo(Function* f) {
  static std::unordered_map<Function*, FInfo*> m; auto it = m.find(f); if (it != m.end()) return it->second;
  FInfo* I = new FInfo; m[f] = I;
  for (auto& a : f->args()) I->num[&a] = I->n++; for (auto& b : *f) for (auto& i : b) if (!i.getType()->isVoidTy()) I->num[&i] = I->n++;
  if (auto* sp = f->getSubprogram()) { std::string fn = sp->getFilename().str(), d = sp->getDirectory().str(); if (fn.size() && fn[0] != '/') fn = d + "/" + fn; I->file = fn; }
  // post dominators over blocks that can reach a return
  std::set<const BasicBlock*> can; std::vector<const BasicBlock*> wl, rets; for (auto& b : *f) if (isa<ReturnInst>(b.getTerminator())) { can.insert(&b); wl.push_back(&b); rets.push_back(&b); }
  while (!wl.empty()) { auto* b = wl.back(); wl.pop_back(); for (auto* p : predecessors(b)) if (can.insert(p).second) wl.push_back(p); }
  if (rets.size() == 1) {
    std::vector<const BasicBlock*> order; { std::set<const BasicBlock*> seen; std::function<void(const BasicBlock*)> dfs = [&](const BasicBlock* b) { if (!seen.insert(b).second) return; for (auto* p : predecessors(b)) if (can.count(p)) dfs(p); order.push_back(b); }; dfs(rets[0]); }
    std::unordered_map<const BasicBlock*, int> no; for (size_t i = 0; i < order.size(); i++) no[order[i]] = i;
    std::unordered_map<const BasicBlock*, const BasicBlock*> id; id[rets[0]] = rets[0]; bool ch = true;
    auto inter = [&](const BasicBlock* a, const BasicBlock* b) { while (a != b) { while (no[a] < no[b]) a = id[a]; while (no[b] < no[a]) b = id[b]; } return a; };
    while (ch) { ch = false; for (int i = (int)order.size() - 1; i >= 0; i--) { auto* b = order[i]; if (b == rets[0]) continue; const BasicBlock* nd = nullptr; for (auto* s : successors(b)) if (can.count(s) && id.count(s)) nd = nd ? inter(nd, s) : s; if (nd && id[b] != nd) { id[b] = nd; ch = true; } } }
    for (auto& p : id) if (p.first != rets[0]) I->ipdom[p.first] = p.second;
  }
  // liveness
  std::unordered_map<const BasicBlock*, std::set<int>> lin; bool ch = true;
  std::unordered_map<const BasicBlock*, std::set<int>> use, def;
  for (auto& b : *f) for (auto& i : b) { if (!isa<PHINode>(i)) for (auto& o : i.operands()) { auto n = I->num.find(o.get()); if (n != I->num.end() && !def[&b].count(n->second)) use[&b].insert(n->second); } auto n = I->num.find(&i); if (n != I->num.end()) def[&b].insert(n->second); }
  while (ch) { ch = false; for (auto& b : *f) { std::set<int> o; for (auto* s : successors(&b)) { for (int x : lin[s]) o.insert(x); for (auto& ph : s->phis()) { auto n = I->num.find(ph.getIncomingValueForBlock(&b)); if (n != I->num.end()) o.insert(n->second); } }
      std::set<int> r = use[&b]; for (int x : o) if (!def[&b].count(x)) r.insert(x); if (r != lin[&b]) { lin[&b] = r; ch = true; } } }
  // live at "after phis" = lin (non-phi uses + through) plus phis themselves are defs of b: keep phi regs if used
  for (auto& b : *f) { std::set<int> r = lin[&b]; for (auto& ph : b.phis()) r.insert(I->num[&ph]); I->live[&b] = std::vector<int>(r.begin(), r.end()); }
  return I;
}

// ---------------------------------------------------------------- error reporting
static std::string hexOf(const Model& m, const std::vector<E>& by) { std::string r; char b[4]; for (E e : by) { snprintf(b, 4, "%02x", (unsigned)(u64)m.eval(e)); r += b; } return r; }
static void checkUninit(State& S, const Model& m, bool& u) { for (E c : S.pc) for (E s : symsOf(c)) if (s->k == KSym && g_symname[s->aux].compare(0, 6, "uninit") == 0) { u = true; return; } }
static void report(State& S, const std::string& kind, const std::string& msg, const std::shared_ptr<Model>& m, E cond = nullptr) {
  Err e; e.kind = kind; e.msg = msg; Instruction* I = nullptr; Frame& F = *S.st.back(); if (F.it != F.bb->end()) I = &*F.it;
  // blame the innermost frame with a location
  if (I) e.loc = locOf(I); e.fn = F.f->getName().str();
  for (int i = (int)S.st.size() - 1; i >= 0; i--) { Frame& G = *S.st[i]; e.stack.push_back(G.f->getName().str() + " " + (G.it != G.bb->end() ? locOf(&*G.it) : std::string("?"))); }
  std::string key = kind + "|" + msg + "|" + e.loc; if (errKeys.count(key)) return; errKeys.insert(key);
  if (m) { for (auto& i : S.inputs) e.inputs.push_back({i.name, hexOf(*m, i.bytes)}); checkUninit(S, *m, e.uninit); }
  if (cond) for (E s : symsOf(cond)) if (s->k == KSym && g_symname[s->aux].compare(0, 6, "uninit") == 0) e.uninit = true;
  errors.push_back(e);
  if (verbose) fprintf(stderr, "ERR %s: %s at %s\n", kind.c_str(), msg.c_str(), e.loc.c_str());
  if ((int)errors.size() >= maxErrors) throw Inconclusive{"max-errors"};
}
static SRes query(State& S, E cond, std::shared_ptr<Model>* out) {
  if (elapsed() > maxTime) inconclusive("time budget");
  SRes r = solve(S.pc, cond, S.model, out); if (r == UNKNOWN) inconclusive("solver timeout"); return r;
}
static void addPC(State& S, E c) { if (isC(c)) return; if (c->k == KAnd && c->w == 1) { addPC(S, c->a[0]); addPC(S, c->a[1]); return; } for (E x : S.pc) if (x == c) return; S.pc.push_back(c); }
// constrain; returns false (state dead) when infeasible
static bool assume(State& S, E c) { if (isC(c)) { if (!c->c) S.dead = true; return c->c != 0; } std::shared_ptr<Model> m; if (query(S, c, &m) != SAT) { S.dead = true; nInfeasible++; return false; } addPC(S, c); S.model = m; return true; }

// ---------------------------------------------------------------- objects
static OP& newObj(State& S, u64 base, u64 size, int kind, bool init) { auto o = std::make_shared<Obj>(); o->base = base; o->size = size; o->kind = kind; o->c.assign(size, 0); if (!init) o->init.assign(size, 0); return S.mem[base] = o; }
static u64 allocHeap(State& S, u64 size, bool zero) { nextHeap = (nextHeap + 63) / 64 * 64; u64 b = nextHeap + heapResidue; newObj(S, b, size, OHeap, zero); nextHeap = b + size + 128 + (size > 4096 ? 4096 : 0); return b; }
static OP* findObj(State& S, u64 a) { auto it = S.mem.upper_bound(a); if (it == S.mem.begin()) return nullptr; --it; if (a < it->second->base + it->second->size || (a == it->second->base)) return &it->second; return nullptr; }
static Obj& wr(OP& o) { if (o.use_count() > 1) o = std::make_shared<Obj>(*o); return *o; }

static E loadBytes(Obj& o, u64 off, unsigned n) {
  bool conc = true; if (!o.s.empty()) { for (unsigned i = 0; i < n; i++) if (o.s[off + i]) { conc = false; break; } } 
  if (conc && !o.init.empty()) for (unsigned i = 0; i < n; i++) if (!o.init[off + i]) { conc = false; break; }
  if (conc) { u128 v = 0; for (unsigned i = 0; i < n; i++) v |= (u128)o.c[off + i] << (8 * i); return mkConst(v, 8 * n); }
  E r = o.getByte(off); for (unsigned i = 1; i < n; i++) r = mkConcat(o.getByte(off + i), r); return r;
}
static void storeBytes(Obj& o, u64 off, E v, unsigned n) { for (unsigned i = 0; i < n; i++) o.setByte(off + i, mkExtract(v, 8 * i, 8)); }
struct Acc { u64 base; u64 off; bool sym; E addr; };

// Resolve an access of n bytes at addr into one object (forking off other-object cases via `others`).
static std::vector<SP>* g_forkout;  // extra states created by current instruction (re-execute same instruction)
static SP cloneS(State& S) { return std::make_shared<State>(S); }
static bool resolve(State& S, E addr, u64 n, bool write, u64& base, const char* what) {
  if (isC(addr)) {
    u64 a = (u64)addr->c; OP* o = findObj(S, a);
    if (!o || a + n > (*o)->base + (*o)->size || (write && (*o)->ro)) {
      char b[200]; 
      if (a < 4096) snprintf(b, 200, "null pointer %s (address %llu)", what, (unsigned long long)a);
      else if (o && write && (*o)->ro) snprintf(b, 200, "write to read-only memory");
      else snprintf(b, 200, "out-of-bounds or dangling %s of %llu bytes", what, (unsigned long long)n);
      report(S, "memory", b, S.model); S.dead = true; return false; }
    base = (*o)->base; return true;
  }
  u64 a = (u64)S.model->eval(addr); OP* o = findObj(S, a); 
  if (!o || a + n > (*o)->base + (*o)->size) { 
    report(S, "memory", std::string("out-of-bounds ") + what + " (symbolic address)", S.model);
    // continue on the part of the state space that is in bounds of some nearby object: try a few
    auto it = S.mem.upper_bound(a); std::vector<OP> cand; if (it != S.mem.end()) cand.push_back(it->second); if (it != S.mem.begin()) { --it; cand.push_back(it->second); }
    for (auto& c : cand) { if (c->size < n) continue; E in = mkUle(mkBin(KSub, addr, mkConst(c->base, 64)), mkConst(c->size - n, 64)); std::shared_ptr<Model> m; if (query(S, in, &m) == SAT) { addPC(S, in); S.model = m; base = c->base; return true; } }
    S.dead = true; return false; }
  Obj& O = **o; E in = mkUle(mkBin(KSub, addr, mkConst(O.base, 64)), mkConst(O.size - n, 64));
  std::shared_ptr<Model> m; 
  if (query(S, mkNot(in), &m) == SAT) {
    SP other = cloneS(S); addPC(*other, mkNot(in)); other->model = m; g_forkout->push_back(other); nForks++;
    addPC(S, in);
  }
  base = O.base; if (write && O.ro) { report(S, "memory", "write to read-only memory", S.model); S.dead = true; return false; }
  return true;
}
static bool candidates(State& S, Obj& o, E addr, unsigned n, std::vector<u64>& offs, E& off) {
  off = mkBin(KSub, addr, mkConst(o.base, 64)); if (isC(off)) { offs.push_back((u64)off->c); return true; }
  unsigned tz = tzeros(off); if (tz > 12) tz = 12; u64 step = (u64)1 << tz; i128 lo, hi; srange(off, lo, hi); if (lo < 0) lo = 0; if (hi > (i128)(o.size - n)) hi = o.size - n;
  u64 l = ((u64)lo + step - 1) / step * step; for (u64 x = l; x <= (u64)hi; x += step) offs.push_back(x);
  if (offs.size() > 70000) inconclusive("symbolic address over too large an object"); return true;
}
static E muxLoad(Obj& o, E off, const std::vector<u64>& offs, unsigned n) { E r = loadBytes(o, offs.back(), n); for (int i = (int)offs.size() - 2; i >= 0; i--) r = mkIte(mkEq(off, mkConst(offs[i], 64)), loadBytes(o, offs[i], n), r); return r; }
// value at (symbolic) offset `off` after the logged stores
static E logLoad(const std::shared_ptr<SymLog>& L, E off, const std::vector<u64>& offs, unsigned n) {
  auto it = L->memo.find(off->id); if (it != L->memo.end()) return it->second;
  E old = L->prev ? logLoad(L->prev, off, offs, n) : muxLoad(*L->base0, off, offs, n); E c = mkEq(off, L->idx);
  return L->memo[off->id] = L->delta ? mkBin(KAdd, old, mkIte(c, L->delta, mkConst(0, n * 8))) : mkIte(c, L->val, old);
}
static E loadN(State& S, E addr, unsigned n, bool& ok) {
  u64 base; ok = resolve(S, addr, n, false, base, "read"); if (!ok) return nullptr; Obj& o = *S.mem[base];
  if (isC(addr)) { u64 off = (u64)addr->c - base; if (o.log && o.log->n == n && off % o.log->step == 0) return logLoad(o.log, mkConst(off, 64), {off}, n); return loadBytes(o, off, n); }
  std::vector<u64> offs; E off; candidates(S, o, addr, n, offs, off); if (offs.empty()) { ok = false; S.dead = true; return nullptr; }
  if (o.log && o.log->n == n && offs.size() > 1 && offs[1] - offs[0] == o.log->step && offs[0] % o.log->step == 0) return logLoad(o.log, off, offs, n);
  return muxLoad(o, off, offs, n);
}
static bool storeN(State& S, E addr, E v, unsigned n) {
  u64 base; if (!resolve(S, addr, n, true, base, "write")) return false; Obj& o = wr(S.mem[base]);
  if (isC(addr)) { storeBytes(o, (u64)addr->c - base, v, n); return true; }
  std::vector<u64> offs; E off; candidates(S, o, addr, n, offs, off);
  if (offs.size() == 1) { storeBytes(o, offs[0], v, n); return true; }
  std::shared_ptr<SymLog> nl; u64 step = offs.size() > 1 ? offs[1] - offs[0] : 0;
  if (step >= n && offs[0] % step == 0) {
    nl = std::make_shared<SymLog>(); nl->idx = off; nl->val = v; nl->n = n; nl->step = step; nl->delta = nullptr; bool chain = o.log && o.log->n == n && o.log->step == step;
    if (chain) { nl->prev = o.log; nl->base0 = o.log->base0; } else nl->base0 = std::make_shared<Obj>(o); nl->base0->log.reset();
    E cur = chain ? logLoad(o.log, off, offs, n) : muxLoad(*nl->base0, off, offs, n); u128 d; if (constDiff(v, cur, d)) nl->delta = mkConst(d, n * 8);
  }
  std::vector<E> nv(offs.size()); for (size_t i = 0; i < offs.size(); i++) nv[i] = mkEq(off, mkConst(offs[i], 64));
  for (size_t i = 0; i < offs.size(); i++) { E old = loadBytes(o, offs[i], n); storeBytes(o, offs[i], nl && nl->delta ? mkBin(KAdd, old, mkIte(nv[i], nl->delta, mkConst(0, n * 8))) : mkIte(nv[i], v, old), n); }
  o.log = nl; return true;
}
static std::string cstr(State& S, E p) { std::string r; if (!isC(p)) return "?"; OP* o = findObj(S, (u64)p->c); if (!o) return "?"; u64 off = (u64)p->c - (*o)->base; while (off < (*o)->size) { E b = loadBytes(**o, off++, 1); if (!isC(b)) return "?"; if (!b->c) break; r += (char)b->c; } return r; }

static Val loadT(State& S, E addr, Type* t, bool& ok) {
  if (auto* st = dyn_cast<StructType>(t)) { Agg* a = new Agg; auto* L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) { a->v.push_back(loadT(S, mkBin(KAdd, addr, mkConst((u64)L->getElementOffset(i), 64)), st->getElementType(i), ok)); if (!ok) return Val(); } return Val(a); }
  if (auto* at = dyn_cast<ArrayType>(t)) { Agg* a = new Agg; u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) { a->v.push_back(loadT(S, mkBin(KAdd, addr, mkConst(i * es, 64)), at->getElementType(), ok)); if (!ok) return Val(); } return Val(a); }
  unsigned n = DL->getTypeStoreSize(t); unsigned w = bitsOf(t); if (w > 128) inconclusive("wide type"); E e = loadN(S, addr, n, ok); if (!ok) return Val(); return Val(mkTrunc(e, w));
}
static bool storeT(State& S, E addr, const Val& v, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) if (!storeT(S, mkBin(KAdd, addr, mkConst((u64)L->getElementOffset(i), 64)), v.agg->v[i], st->getElementType(i))) return false; return true; }
  if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) if (!storeT(S, mkBin(KAdd, addr, mkConst(i * es, 64)), v.agg->v[i], at->getElementType())) return false; return true; }
  unsigned n = DL->getTypeStoreSize(t); return storeN(S, addr, mkZExt(v.e, n * 8), n);
}
// ---------------------------------------------------------------- constants
static Val zeroVal(Type* t) { if (auto* st = dyn_cast<StructType>(t)) { Agg* a = new Agg; for (auto* e : st->elements()) a->v.push_back(zeroVal(e)); return a; } if (auto* at = dyn_cast<ArrayType>(t)) { Agg* a = new Agg; for (u64 i = 0; i < at->getNumElements(); i++) a->v.push_back(zeroVal(at->getElementType())); return a; } if (bitsOf(t) > 128) inconclusive("wide constant"); return mkConst(0, bitsOf(t)); }
static int undefCnt = 0;
static Val undefVal(Type* t) { if (auto* st = dyn_cast<StructType>(t)) { Agg* a = new Agg; for (auto* e : st->elements()) a->v.push_back(undefVal(e)); return a; } if (auto* at = dyn_cast<ArrayType>(t)) { Agg* a = new Agg; for (u64 i = 0; i < at->getNumElements(); i++) a->v.push_back(undefVal(at->getElementType())); return a; } g_uninitReads++; if (g_fill == 0) return mkConst(0, bitsOf(t)); return mkSym("uninit!undef" + std::to_string(undefCnt++), bitsOf(t)); }
static E evalBin(unsigned op, E a, E b, Type* t); static E evalCast(unsigned op, E a, Type* from, Type* to); static E evalICmp(CmpInst::Predicate p, E a, E b);
static Val constVal(const Constant* c);
static E gepConst(const GEPOperator* g, std::function<Val(const Value*)> get) {
  E p = get(g->getPointerOperand()).e; 
  for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) { const Value* op = gti.getOperand();
    if (StructType* st = gti.getStructTypeOrNull()) { p = mkBin(KAdd, p, mkConst((u64)DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue()), 64)); }
    else { E i = get(op).e; if (i->w < 64) i = mkSExt(i, 64); else if (i->w > 64) i = mkTrunc(i, 64); u64 sz = gti.getSequentialElementStride(*DL); p = mkBin(KAdd, p, mkBin(KMul, i, mkConst(sz, 64))); } }
  return p;
}
static Val constVal(const Constant* c) {
  auto it = ccache.find(c); if (it != ccache.end()) return it->second; Val v;
  if (auto* ci = dyn_cast<ConstantInt>(c)) { APInt a = ci->getValue(); if (a.getBitWidth() > 128) inconclusive("wide int"); u128 x = a.getRawData()[0]; if (a.getNumWords() > 1) x |= (u128)a.getRawData()[1] << 64; v = mkConst(x, a.getBitWidth()); }
  else if (auto* cf = dyn_cast<ConstantFP>(c)) { if (cf->getType()->isFloatTy() || cf->getType()->isDoubleTy()) v = mkConst(cf->getValueAPF().bitcastToAPInt().getZExtValue(), bitsOf(cf->getType())); else { // x86_fp80 constants: only supported as opaque 80-bit
      APInt a = cf->getValueAPF().bitcastToAPInt(); u128 x = a.getRawData()[0]; if (a.getNumWords() > 1) x |= (u128)a.getRawData()[1] << 64; v = mkConst(x, a.getBitWidth()); } }
  else if (isa<ConstantPointerNull>(c)) v = mkConst(0, 64);
  else if (isa<UndefValue>(c)) return undefVal(c->getType());
  else if (isa<ConstantAggregateZero>(c)) v = zeroVal(c->getType());
  else if (auto* ca = dyn_cast<ConstantAggregate>(c)) { if (c->getType()->isVectorTy()) { E r = nullptr; for (unsigned i = 0; i < ca->getNumOperands(); i++) { E x = constVal(ca->getOperand(i)).e; r = r ? mkConcat(x, r) : x; } v = r; } else { Agg* a = new Agg; for (unsigned i = 0; i < ca->getNumOperands(); i++) a->v.push_back(constVal(ca->getOperand(i))); v = a; } }
  else if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { if (c->getType()->isVectorTy()) { E r = nullptr; for (unsigned i = 0; i < cd->getNumElements(); i++) { E x = constVal(cd->getElementAsConstant(i)).e; r = r ? mkConcat(x, r) : x; } v = r; } else { Agg* a = new Agg; for (unsigned i = 0; i < cd->getNumElements(); i++) a->v.push_back(constVal(cd->getElementAsConstant(i))); v = a; } }
  else if (auto* f = dyn_cast<Function>(c)) { if (!fnAddr.count(f)) { fnAddr[f] = nextFn; addrFn[nextFn] = const_cast<Function*>(f); nextFn += 16; } v = mkConst(fnAddr[f], 64); }
  else if (auto* g = dyn_cast<GlobalVariable>(c)) { if (!gvAddr.count(g)) inconclusive("unmodelled external global " + g->getName().str()); v = mkConst(gvAddr[g], 64); }
  else if (auto* ga = dyn_cast<GlobalAlias>(c)) v = constVal(ga->getAliasee());
  else if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    auto get = [](const Value* x) { return constVal(cast<Constant>(x)); };
    if (ce->getOpcode() == Instruction::GetElementPtr) v = gepConst(cast<GEPOperator>(ce), get);
    else if (ce->isCast()) v = evalCast(ce->getOpcode(), constVal(ce->getOperand(0)).e, ce->getOperand(0)->getType(), ce->getType());
    else if (ce->getOpcode() == Instruction::ICmp) v = evalICmp((CmpInst::Predicate)ce->getPredicate(), constVal(ce->getOperand(0)).e, constVal(ce->getOperand(1)).e);
    else v = evalBin(ce->getOpcode(), constVal(ce->getOperand(0)).e, constVal(ce->getOperand(1)).e, ce->getType());
  } else inconclusive("constant kind");
  ccache[c] = v; return v;
}
// ---------------------------------------------------------------- operations
static E vecMap2(Type* t, E a, E b, std::function<E(E, E)> f) { auto* vt = cast<FixedVectorType>(t); unsigned ew = bitsOf(vt->getElementType()), n = vt->getNumElements(); E r = nullptr; for (unsigned i = 0; i < n; i++) { E x = f(mkExtract(a, i * ew, ew), mkExtract(b, i * ew, ew)); r = r ? mkConcat(x, r) : x; } return r; }
static E evalBin(unsigned op, E a, E b, Type* t) {
  if (t && t->isVectorTy()) { Type* et = cast<VectorType>(t)->getElementType(); return vecMap2(t, a, b, [&](E x, E y) { return evalBin(op, x, y, et); }); }
  unsigned w = a->w;
  auto shamt = [&](E s) { return mkBin(KAnd, s, mkConst((w <= 32 ? 32 : 64) - 1, w)); };
  switch (op) {
    case Instruction::Add: return mkBin(KAdd, a, b); case Instruction::Sub: return mkBin(KSub, a, b); case Instruction::Mul: return mkBin(KMul, a, b);
    case Instruction::UDiv: return mkBin(KUDiv, a, b); case Instruction::SDiv: return mkBin(KSDiv, a, b); case Instruction::URem: return mkBin(KURem, a, b); case Instruction::SRem: return mkBin(KSRem, a, b);
    case Instruction::And: return mkBin(KAnd, a, b); case Instruction::Or: return mkBin(KOr, a, b); case Instruction::Xor: return mkBin(KXor, a, b);
    case Instruction::Shl: return mkBin(KShl, a, w >= 32 ? shamt(b) : b); case Instruction::LShr: return mkBin(KLShr, a, w >= 32 ? shamt(b) : b); case Instruction::AShr: return mkBin(KAShr, a, w >= 32 ? shamt(b) : b);
    case Instruction::FAdd: return mkFBin(KFAdd, a, b); case Instruction::FSub: return mkFBin(KFSub, a, b); case Instruction::FMul: return mkFBin(KFMul, a, b); case Instruction::FDiv: return mkFBin(KFDiv, a, b); case Instruction::FRem: return mkFBin(KFRem, a, b);
  }
  inconclusive("binop"); 
}
static E evalCast(unsigned op, E a, Type* from, Type* to) {
  unsigned w = bitsOf(to);
  if (to->isX86_FP80Ty() || from->isX86_FP80Ty()) inconclusive("x87 long double");
  switch (op) {
    case Instruction::Trunc: return mkTrunc(a, w); case Instruction::ZExt: return mkZExt(a, w); case Instruction::SExt: return mkSExt(a, w);
    case Instruction::BitCast: return a; case Instruction::PtrToInt: return w < 64 ? mkTrunc(a, w) : mkZExt(a, w); case Instruction::IntToPtr: return a->w < 64 ? mkZExt(a, 64) : mkTrunc(a, 64);
    case Instruction::FPExt: return mkFExt(a); case Instruction::FPTrunc: return mkFTrunc(a);
    case Instruction::SIToFP: return mkSIToF(a, w); case Instruction::UIToFP: return mkUIToF(a, w);
    case Instruction::FPToSI: if (w <= 32) return mkTrunc(mkFToSI(a, 32, 0), w); return mkFToSI(a, 64, 0);
    case Instruction::FPToUI: if (w <= 16) return mkTrunc(mkFToSI(a, 32, 0), w); if (w == 32) return mkTrunc(mkFToSI(a, 64, 0), 32);
      { // x86 u64: if x >= 2^63 then cvt(x-2^63)^sign else cvt(x)
        E big = mkF(9223372036854775808.0, a->w); E ge = mkFOle(big, a); return mkIte(ge, mkBin(KXor, mkFToSI(mkFBin(KFSub, a, big), 64, 0), mkConst((u128)1 << 63, 64)), mkFToSI(a, 64, 0)); }
    case Instruction::AddrSpaceCast: return a;
  }
  inconclusive("cast");
}
static E evalICmp(CmpInst::Predicate p, E a, E b) {
  switch (p) { case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b)); case CmpInst::ICMP_ULT: return mkUlt(a, b); case CmpInst::ICMP_ULE: return mkUle(a, b); case CmpInst::ICMP_UGT: return mkUlt(b, a); case CmpInst::ICMP_UGE: return mkUle(b, a);
    case CmpInst::ICMP_SLT: return mkSlt(a, b); case CmpInst::ICMP_SLE: return mkSle(a, b); case CmpInst::ICMP_SGT: return mkSlt(b, a); case CmpInst::ICMP_SGE: return mkSle(b, a); default: inconclusive("icmp"); }
}
static E evalFCmp(CmpInst::Predicate p, E a, E b) {
  E U = nullptr; auto uno = [&]() { return mkFUno(a, b); }; (void)U;
  switch (p) { case CmpInst::FCMP_FALSE: return mkConst(0, 1); case CmpInst::FCMP_TRUE: return mkConst(1, 1);
    case CmpInst::FCMP_OEQ: return mkFOeq(a, b); case CmpInst::FCMP_OLT: return mkFOlt(a, b); case CmpInst::FCMP_OLE: return mkFOle(a, b); case CmpInst::FCMP_OGT: return mkFOlt(b, a); case CmpInst::FCMP_OGE: return mkFOle(b, a);
    case CmpInst::FCMP_UNE: return mkNot(mkFOeq(a, b)); case CmpInst::FCMP_ULT: return mkNot(mkFOle(b, a)); case CmpInst::FCMP_ULE: return mkNot(mkFOlt(b, a)); case CmpInst::FCMP_UGT: return mkNot(mkFOle(a, b)); case CmpInst::FCMP_UGE: return mkNot(mkFOlt(a, b));
    case CmpInst::FCMP_UNO: return uno(); case CmpInst::FCMP_ORD: return mkNot(uno()); case CmpInst::FCMP_UEQ: return mkOr1(uno(), mkFOeq(a, b)); case CmpInst::FCMP_ONE: return mkAnd1(mkNot(uno()), mkNot(mkFOeq(a, b))); default: inconclusive("fcmp"); }
}
static Val get(State& S, const Value* v) { if (auto* c = dyn_cast<Constant>(v)) return constVal(c); Frame& F = *S.st.back(); auto it = F.fi->num.find(v); if (it == F.fi->num.end()) inconclusive("operand"); return F.regs[it->second]; }
static void setr(State& S, const Instruction* I, Val v) { Frame& F = S.top(); F.regs[F.fi->num[I]] = v; }
static void jump(State& S, BasicBlock* to) {
  Frame& F = S.top(); BasicBlock* from = F.bb; std::vector<std::pair<int, Val>> ph; for (auto& p : to->phis()) { Value* iv = p.getIncomingValueForBlock(from); Val v = isa<Constant>(iv) ? constVal(cast<Constant>(iv)) : F.regs[F.fi->num[iv]]; ph.push_back({F.fi->num[&p], v}); }
  for (auto& x : ph) F.regs[x.first] = x.second; F.bb = to; F.it = to->getFirstNonPHI()->getIterator(); F.atStart = true;
}
static void pushFrame(State& S, Function* f, const std::vector<Val>& args, CallBase* call) {
  FInfo* fi = finfo(f); auto F = std::make_shared<Frame>(); F->f = f; F->fi = fi; F->bb = &f->getEntryBlock(); F->it = F->bb->begin(); F->regs.resize(fi->n); F->call = call;
  for (size_t i = 0; i < f->arg_size(); i++) F->regs[i] = i < args.size() ? args[i] : undefVal(f->getArg(i)->getType());
  for (size_t i = f->arg_size(); i < args.size(); i++) { F->varargs.push_back(args[i]); F->vatypes.push_back(call ? call->getArgOperand(i)->getType() : nullptr); }
  if (S.st.size() > 400) { report(S, "recursion", "call depth over 400", S.model); S.dead = true; return; }
  if (fi->file.find("/repo/") != std::string::npos || fi->file.compare(0, 6, "/repo/") == 0) fnsExecuted.insert(f->getName().str());
  S.st.push_back(F);
}
static void popFrame(State& S, Val rv) {
  FP F = S.st.back(); for (u64 a : F->allocas) S.mem.erase(a); S.st.pop_back(); CallBase* c = F->call;
  if (S.st.empty()) return; Frame& G = S.top(); if (c && !c->getType()->isVoidTy()) G.regs[G.fi->num[c]] = rv;
  if (auto* inv = dyn_cast_or_null<InvokeInst>(c)) jump(S, inv->getNormalDest()); else { ++G.it; }
  G.atStart = false;
}
static void finishPath(State& S, bool exited) {
  nPaths++; if (exited) nExitPaths++; S.dead = true;
  if ((int)witnesses.size() < maxWit) { Wit w; w.exited = exited; for (auto& i : S.inputs) w.inputs.push_back({i.name, hexOf(*S.model, i.bytes)});
    for (auto& o : S.obs) { char b[64]; snprintf(b, 64, "%llx", (unsigned long long)(u64)S.model->eval(o.e)); w.obs.push_back({o.name, b}); for (E s : symsOf(o.e)) if (s->k == KUF || g_symname[s->aux].compare(0, 6, "uninit") == 0) w.uninit = true; }
    bool u = false; checkUninit(S, *S.model, u); if (u) w.uninit = true; for (E c : S.pc) for (E s : symsOf(c)) if (s->k == KUF) w.uninit = true;
    witnesses.push_back(w); }
}
// fork over all feasible values of e; leaves S with one value, others re-execute the instruction
static u64 concretize(State& S, E e) {
  if (isC(e)) return (u64)e->c; u64 v = (u64)S.model->eval(e); E eq = mkEq(e, mkConst(v, e->w)); std::shared_ptr<Model> m;
  if (query(S, mkNot(eq), &m) == SAT) { SP o = cloneS(S); addPC(*o, mkNot(eq)); o->model = m; g_forkout->push_back(o); nForks++; if (nForks > 200000) inconclusive("too many forks"); addPC(S, eq); }
  return v;
}
static bool doMemset(State& S, E d, E v, u64 n) { if (!n) return true; u64 base; if (!resolve(S, d, n, true, base, "write (memset)")) return false; if (!isC(d)) { u64 a = concretize(S, d); d = mkConst(a, 64); } Obj& o = wr(S.mem[base]); u64 off = (u64)d->c - base; E b = mkTrunc(v, 8);
  if (isC(b)) { memset(&o.c[off], (int)b->c, n); if (!o.init.empty()) memset(&o.init[off], 1, n); if (!o.s.empty()) for (u64 i = 0; i < n; i++) o.s[off + i] = nullptr; } else for (u64 i = 0; i < n; i++) o.setByte(off + i, b); return true; }
static bool doMemcpy(State& S, E d, E s, u64 n, bool move) {
  if (!n) return true; u64 bd, bs; if (!resolve(S, s, n, false, bs, "read (memcpy)")) return false; if (!resolve(S, d, n, true, bd, "write (memcpy)")) return false;
  if (!isC(s)) s = mkConst(concretize(S, s), 64); if (!isC(d)) d = mkConst(concretize(S, d), 64);
  u64 so = (u64)s->c - bs, dof = (u64)d->c - bd; if (!move && bs == bd && so != dof && so < dof + n && dof < so + n) { report(S, "memory", "overlapping memcpy", S.model); S.dead = true; return false; }
  if (bs == bd && so == dof) return true;
  OP src = S.mem[bs]; Obj& dst = wr(S.mem[bd]); Obj& sr = *src;
  if (bs == bd) { Obj copy = sr; for (u64 i = 0; i < n; i++) dst.setByte(dof + i, copy.getByte(so + i)); return true; }
  for (u64 i = 0; i < n; i++) { bool ini = sr.init.empty() || sr.init[so + i]; if (ini && (sr.s.empty() || !sr.s[so + i])) { dst.c[dof + i] = sr.c[so + i]; if (!dst.init.empty()) dst.init[dof + i] = 1; if (!dst.s.empty()) dst.s[dof + i] = nullptr; } else dst.setByte(dof + i, sr.getByte(so + i)); }
  return true;
}
static E readHeapSize(State& S, u64 p) { return mkConst(S.mem[p]->size, 64); }

// returns: 0 not handled, 1 handled (advance), 2 handled (no advance / state dead or frame changed)
typedef std::vector<Val> Args;
static int fpUn(const std::string& n) { static const std::set<std::string> s = {"sin", "cos", "tan", "asin", "acos", "atan", "exp", "exp2", "log", "log10", "log2", "sinh", "cosh", "tanh", "cbrt", "log1p", "expm1"}; std::string b = n; if (s.count(b)) return 64; if (b.size() > 1 && b.back() == 'f' && s.count(b.substr(0, b.size() - 1))) return 32; return 0; }
static void addInput(State& S, const std::string& name, std::vector<E> by) { Input in; in.name = name; in.bytes = by; S.inputs.push_back(in); }
static std::string uniq(State& S, const std::string& n) { int k = S.names[n]++; return n + "#" + std::to_string(k); }
static E powE(E x, E y, unsigned w) {
  if (isC(y) && !isC(x)) { double d = w == 32 ? asF(y->c) : asD(y->c); if (d == 2.0) { E r = mkFBin(KFMul, x, x); return r; } if (d == 1.0) return x; if (d == 0.0) return mkF(1.0, w); }
  return nullptr;
}
static bool g_strictExit = true;
static int builtin(State& S, const std::string& n, CallBase* C, Args& A) {
  auto ret = [&](E e) { if (!C->getType()->isVoidTy()) setr(S, C, Val(e)); return 1; };
  unsigned rw = C->getType()->isVoidTy() || C->getType()->isAggregateType() ? 0 : bitsOf(C->getType());
  // --- harness API
  if (n == "sx_make_symbolic") { u64 len = concretize(S, A[1].e); std::string nm = uniq(S, cstr(S, A[2].e)); std::vector<E> by; u64 base; if (!resolve(S, A[0].e, len, true, base, "write")) return 2; Obj& o = wr(S.mem[base]); u64 off = (u64)A[0].e->c - base; for (u64 i = 0; i < len; i++) { E s = mkSym(nm + "[" + std::to_string(i) + "]", 8); by.push_back(s); o.setByte(off + i, s); } addInput(S, nm, by); return 1; }
  if (n == "sx_bits") { // unsigned long sx_bits(const char* name, int bits)
    std::string nm = uniq(S, cstr(S, A[0].e)); unsigned b = (unsigned)A[1].e->c; E s = mkSym(nm, b); E z = mkZExt(s, 64); std::vector<E> by; for (int i = 0; i < 8; i++) by.push_back(mkExtract(z, 8 * i, 8)); addInput(S, nm, by); return ret(z); }
  if (n == "sx_assume") { E c = mkNot(mkEq(A[0].e, mkConst(0, A[0].e->w))); if (!assume(S, c)) return 2; return 1; }
  if (n == "sx_assert") { nAsserts++; E c = mkNot(mkEq(A[0].e, mkConst(0, A[0].e->w))); std::string msg = cstr(S, A[1].e); reached.insert(msg); if (isC(c)) { if (!c->c) { report(S, "property", msg, S.model); S.dead = true; return 2; } return 1; }
    nAssertQ++; std::shared_ptr<Model> m; if (query(S, mkNot(c), &m) == SAT) { report(S, "property", msg, m, c); if (!assume(S, c)) return 2; } else { } return 1; }
  if (n == "sx_observe") { S.obs.push_back({cstr(S, A[0].e), A[1].e}); return 1; }
  if (n == "sx_exit_mode") { S.exitMode = (int)(i64)sx(A[0].e->c, 32); return 1; }
  if (n == "sx_merge") { S.merge = A[0].e->c != 0; return 1; }
  if (n == "sx_reach") { reached.insert(cstr(S, A[0].e)); return 1; }
  if (n == "sx_concretize") { u64 v = concretize(S, A[0].e); return ret(mkConst(v, rw)); }
  if (n == "sx_param") { std::string p = cstr(S, A[0].e); auto it = params.find(p); return ret(it == params.end() ? A[1].e : mkConst((u64)it->second, rw)); }
  if (n == "sx_heap_residue") { heapResidue = (unsigned)A[0].e->c; return 1; }
  if (n == "sx_live_heap") { u64 k = 0; for (auto& p : S.mem) if (p.second->kind == OHeap) k++; return ret(mkConst(k, rw)); }
  if (n == "sx_in_engine") return ret(mkConst(1, rw));
  if (n == "sx_addressable") { // is [p,p+n) inside one live object?
    u64 p = concretize(S, A[0].e), len = concretize(S, A[1].e); OP* o = findObj(S, p); return ret(mkConst(o && p + len <= (*o)->base + (*o)->size, rw)); }
  if (n == "sx_block_size") { u64 p = concretize(S, A[0].e); auto it = S.mem.find(p); return ret(mkConst(it == S.mem.end() ? 0 : it->second->size, rw)); }
  if (n == "sx_is_symbolic") return ret(mkConst(!isC(A[0].e), rw));
  if (n == "sx_dbg") { fprintf(stderr, "DBG %s: %s=%llx sym=%d\n", locOf(C).c_str(), "v", isC(A[0].e) ? (unsigned long long)A[0].e->c : 0ull, !isC(A[0].e)); return 1; }
  if (n == "sx_fmt_double") { // int sx_fmt_double(char* out, const char* fmt, double v): concrete only
    if (!isC(A[2].e)) inconclusive("formatting a symbolic floating-point value"); char b[512]; int k = snprintf(b, 512, cstr(S, A[1].e).c_str(), asD(A[2].e->c)); for (int i = 0; i <= k; i++) if (!storeN(S, mkBin(KAdd, A[0].e, mkConst(i, 64)), mkConst((uint8_t)b[i], 8), 1)) return 2; return ret(mkConst(k, rw)); }
  if (n == "sx_strtod") { // double sx_strtod(const char*): concrete only
    return ret(mkConst(fromD(strtod(cstr(S, A[0].e).c_str(), nullptr)), 64)); }
  if (n == "sx_inconclusive") inconclusive("harness: " + cstr(S, A[0].e));
  // --- libc
  if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "valloc") { u64 sz = concretize(S, A[0].e); if (sz > ((u64)1 << 28)) { if (n[0] == '_') inconclusive("huge operator new"); return ret(mkConst(0, 64)); } return ret(mkConst(allocHeap(S, sz, false), 64)); }
  if (n == "calloc") { u64 a = concretize(S, A[0].e), b = concretize(S, A[1].e); if ((u128)a * b > ((u64)1 << 28)) return ret(mkConst(0, 64)); return ret(mkConst(allocHeap(S, a * b, true), 64)); }
  if (n == "realloc") { u64 p = concretize(S, A[0].e), sz = concretize(S, A[1].e); if (sz > ((u64)1 << 28)) return ret(mkConst(0, 64)); u64 q = allocHeap(S, sz, false); if (p) { auto it = S.mem.find(p); if (it == S.mem.end() || it->second->kind != OHeap) { report(S, "memory", "realloc of invalid pointer", S.model); S.dead = true; return 2; } u64 k = std::min(sz, it->second->size); if (k) doMemcpy(S, mkConst(q, 64), mkConst(p, 64), k, false); S.mem.erase(p); } return ret(mkConst(q, 64)); }
  if (n == "aligned_alloc" || n == "memalign") { u64 al = concretize(S, A[0].e), sz = concretize(S, A[1].e); nextHeap = (nextHeap + al - 1) / al * al; u64 b = nextHeap + (al < 64 ? 0 : 0); b = (b + 64) / al * al + al; newObj(S, b, sz, OHeap, false); nextHeap = b + sz + 128; return ret(mkConst(b, 64)); }
  if (n == "posix_memalign") { u64 al = concretize(S, A[1].e), sz = concretize(S, A[2].e); u64 b = ((nextHeap + 64) / al + 1) * al; newObj(S, b, sz, OHeap, false); nextHeap = b + sz + 128; if (!storeN(S, A[0].e, mkConst(b, 64), 8)) return 2; return ret(mkConst(0, rw)); }
  if (n == "free" || n == "_ZdlPv" || n == "_ZdaPv" || n == "_ZdlPvm" || n == "_ZdaPvm" || n == "cfree") { u64 p = concretize(S, A[0].e); if (!p) return 1; auto it = S.mem.find(p); if (it == S.mem.end() || it->second->kind != OHeap) { report(S, "memory", "free of a pointer that is not a live heap block (double/invalid free)", S.model); S.dead = true; return 2; } S.mem.erase(it); return 1; }
  if (n == "malloc_usable_size") { u64 p = concretize(S, A[0].e); return ret(readHeapSize(S, p)); }
  if (n == "memcpy" || n == "memmove" || n == "__memcpy_chk" || n == "__memmove_chk") { u64 k = concretize(S, A[2].e); if (!doMemcpy(S, A[0].e, A[1].e, k, n.find("move") != std::string::npos)) return 2; return ret(A[0].e); }
  if (n == "memset" || n == "__memset_chk") { u64 k = concretize(S, A[2].e); if (!doMemset(S, A[0].e, A[1].e, k)) return 2; return ret(A[0].e); }
  if (n == "exit" || n == "_exit" || n == "_Exit" || n == "quick_exit") { if (S.exitMode == 0) { report(S, "exit", "the library terminated the process on input it must accept", S.model); S.dead = true; return 2; } finishPath(S, true); return 2; }
  if (n == "abort" || n == "__assert_fail" || n == "__cxa_throw" || n == "__cxa_pure_virtual" || n == "__stack_chk_fail" || n == "_ZSt9terminatev" || n.compare(0, 8, "_ZSt17__throw") == 0 || n.find("__throw_") != std::string::npos) { report(S, "abort", "abort/uncaught exception: " + n, S.model); S.dead = true; return 2; }
  if (n == "printf" || n == "puts" || n == "putchar" || n == "perror" || n == "fflush" || n == "vprintf" || n == "__printf_chk" || n == "srand" || n == "setbuf" || n == "setvbuf" || n == "__cxa_atexit" || n == "atexit" || n == "system_noop" || n == "srandom") return ret(mkConst(0, rw ? rw : 1));
  // --- libm
  if (n == "sqrt" || n == "sqrtf") return ret(mkFSqrt(A[0].e));
  if (n == "fabs" || n == "fabsf") return ret(mkBin(KAnd, A[0].e, mkConst(maskw(A[0].e->w - 1), A[0].e->w)));
  if (n == "floor" || n == "floorf") return ret(mkFRnd(A[0].e, 1)); if (n == "ceil" || n == "ceilf") return ret(mkFRnd(A[0].e, 2)); if (n == "trunc" || n == "truncf") return ret(mkFRnd(A[0].e, 3)); if (n == "round" || n == "roundf") return ret(mkFRnd(A[0].e, 4)); if (n == "rint" || n == "rintf" || n == "nearbyint" || n == "nearbyintf") return ret(mkFRnd(A[0].e, 0));
  if (n == "lrint" || n == "lrintf" || n == "llrint" || n == "llrintf") return ret(mkFToSI(A[0].e, 64, 1));
  if (n == "lround" || n == "lroundf" || n == "llround") return ret(mkFToSI(mkFRnd(A[0].e, 4), 64, 0));
  if (n == "fmin" || n == "fminf" || n == "fmax" || n == "fmaxf") { E a = A[0].e, b = A[1].e; bool mx = n[2] == 'a'; E c = mx ? mkFOlt(a, b) : mkFOlt(b, a); return ret(mkIte(mkFNan(a), b, mkIte(mkFNan(b), a, mkIte(c, b, a)))); }
  if (n == "copysign" || n == "copysignf") { unsigned w = rw; return ret(mkBin(KOr, mkBin(KAnd, A[0].e, mkConst(maskw(w - 1), w)), mkBin(KAnd, A[1].e, mkConst((u128)1 << (w - 1), w)))); }
  if (n == "abs" || n == "labs" || n == "llabs") { E a = A[0].e; return ret(mkIte(mkSlt(a, mkConst(0, a->w)), mkBin(KSub, mkConst(0, a->w), a), a)); }
  if (n == "__isnan" || n == "__isnanf" || n == "isnan") return ret(mkZExt(mkFNan(A[0].e), rw));
  if (n == "__isinf" || n == "__isinff" || n == "isinf") { E a = mkBin(KAnd, A[0].e, mkConst(maskw(A[0].e->w - 1), A[0].e->w)); return ret(mkZExt(mkEq(a, mkF(INFINITY, A[0].e->w)), rw)); }
  if (n == "pow" || n == "powf") { if (E r = powE(A[0].e, A[1].e, rw)) return ret(r); ufUsed.insert(n); return ret(mkUF(n, {A[0].e, A[1].e}, rw)); }
  if (n == "atan2" || n == "atan2f" || n == "hypot" || n == "hypotf") { bool c = isC(A[0].e) && isC(A[1].e); if (!c) ufUsed.insert(n); return ret(mkUF(n, {A[0].e, A[1].e}, rw)); }
  if (n == "fmod" || n == "fmodf") return ret(mkFBin(KFRem, A[0].e, A[1].e));
  if (fpUn(n)) { if (!isC(A[0].e)) ufUsed.insert(n); return ret(mkUF(n, {A[0].e}, rw)); }
  return 0;
}
static int intrinsic(State& S, CallBase* C, Args& A) {
  Function* f = C->getCalledFunction(); auto id = f->getIntrinsicID(); auto ret = [&](E e) { setr(S, C, Val(e)); return 1; };
  switch (id) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::donothing: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::vaend: case Intrinsic::stackrestore: case Intrinsic::prefetch: return 1;
    case Intrinsic::stacksave: return ret(mkConst(0, 64));
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: { u64 n = concretize(S, A[2].e); return doMemcpy(S, A[0].e, A[1].e, n, false) ? 1 : 2; }
    case Intrinsic::memmove: { u64 n = concretize(S, A[2].e); return doMemcpy(S, A[0].e, A[1].e, n, true) ? 1 : 2; }
    case Intrinsic::memset: { u64 n = concretize(S, A[2].e); return doMemset(S, A[0].e, A[1].e, n) ? 1 : 2; }
    case Intrinsic::expect: return ret(A[0].e);
    case Intrinsic::fabs: return ret(mkBin(KAnd, A[0].e, mkConst(maskw(A[0].e->w - 1), A[0].e->w)));
    case Intrinsic::sqrt: return ret(mkFSqrt(A[0].e)); case Intrinsic::floor: return ret(mkFRnd(A[0].e, 1)); case Intrinsic::ceil: return ret(mkFRnd(A[0].e, 2)); case Intrinsic::trunc: return ret(mkFRnd(A[0].e, 3)); case Intrinsic::round: return ret(mkFRnd(A[0].e, 4)); case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return ret(mkFRnd(A[0].e, 0));
    case Intrinsic::lrint: case Intrinsic::llrint: return ret(mkFToSI(A[0].e, 64, 1));
    case Intrinsic::lround: case Intrinsic::llround: return ret(mkFToSI(mkFRnd(A[0].e, 4), 64, 0));
    case Intrinsic::fmuladd: return ret(mkFBin(KFAdd, mkFBin(KFMul, A[0].e, A[1].e), A[2].e));
    case Intrinsic::pow: { unsigned w = A[0].e->w; if (E r = powE(A[0].e, A[1].e, w)) return ret(r); ufUsed.insert("pow"); return ret(mkUF(w == 32 ? "powf" : "pow", {A[0].e, A[1].e}, w)); }
    case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::log10: case Intrinsic::log2: case Intrinsic::exp2: { std::string b = id == Intrinsic::sin ? "sin" : id == Intrinsic::cos ? "cos" : id == Intrinsic::exp ? "exp" : id == Intrinsic::log ? "log" : id == Intrinsic::log10 ? "log10" : id == Intrinsic::log2 ? "log2" : "exp2"; if (!isC(A[0].e)) ufUsed.insert(b); return ret(mkUF(A[0].e->w == 32 ? b + "f" : b, {A[0].e}, A[0].e->w)); }
    case Intrinsic::copysign: { unsigned w = A[0].e->w; return ret(mkBin(KOr, mkBin(KAnd, A[0].e, mkConst(maskw(w - 1), w)), mkBin(KAnd, A[1].e, mkConst((u128)1 << (w - 1), w)))); }
    case Intrinsic::minnum: case Intrinsic::maxnum: { E a = A[0].e, b = A[1].e; E c = id == Intrinsic::maxnum ? mkFOlt(a, b) : mkFOlt(b, a); return ret(mkIte(mkFNan(a), b, mkIte(mkFNan(b), a, mkIte(c, b, a)))); }
    case Intrinsic::abs: { E a = A[0].e; return ret(mkIte(mkSlt(a, mkConst(0, a->w)), mkBin(KSub, mkConst(0, a->w), a), a)); }
    case Intrinsic::smax: return ret(mkIte(mkSlt(A[0].e, A[1].e), A[1].e, A[0].e)); case Intrinsic::smin: return ret(mkIte(mkSlt(A[1].e, A[0].e), A[1].e, A[0].e));
    case Intrinsic::umax: return ret(mkIte(mkUlt(A[0].e, A[1].e), A[1].e, A[0].e)); case Intrinsic::umin: return ret(mkIte(mkUlt(A[1].e, A[0].e), A[1].e, A[0].e));
    case Intrinsic::bswap: { E a = A[0].e, r = nullptr; for (unsigned i = 0; i < a->w; i += 8) { E b = mkExtract(a, i, 8); r = r ? mkConcat(r, b) : b; } return ret(r); }
    case Intrinsic::ctpop: { E a = A[0].e, r = mkConst(0, a->w); for (unsigned i = 0; i < a->w; i++) r = mkBin(KAdd, r, mkZExt(mkExtract(a, i, 1), a->w)); return ret(r); }
    case Intrinsic::ctlz: { E a = A[0].e, r = mkConst(a->w, a->w); for (unsigned i = 0; i < a->w; i++) r = mkIte(mkExtract(a, i, 1), mkConst(a->w - 1 - i, a->w), r); return ret(r); }
    case Intrinsic::cttz: { E a = A[0].e, r = mkConst(a->w, a->w); for (int i = a->w - 1; i >= 0; i--) r = mkIte(mkExtract(a, i, 1), mkConst(i, a->w), r); return ret(r); }
    case Intrinsic::fshl: case Intrinsic::fshr: { E a = A[0].e, b = A[1].e; unsigned w = a->w; E cc = mkConcat(a, b); E s = mkZExt(mkBin(KURem, A[2].e, mkConst(w, w)), 2 * w); if (id == Intrinsic::fshl) return ret(mkExtract(mkBin(KShl, cc, s), w, w)); return ret(mkExtract(mkBin(KLShr, cc, s), 0, w)); }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
      E a = A[0].e, b = A[1].e; unsigned w = a->w; bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow; K k = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? KAdd : (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? KSub : KMul;
      E r = mkBin(k, a, b); E wa = sg ? mkSExt(a, 2 * w) : mkZExt(a, 2 * w), wb = sg ? mkSExt(b, 2 * w) : mkZExt(b, 2 * w); E wrr = mkBin(k, wa, wb); E o = mkNot(mkEq(wrr, sg ? mkSExt(r, 2 * w) : mkZExt(r, 2 * w))); Agg* g = new Agg; g->v = {Val(r), Val(o)}; setr(S, C, Val(g)); return 1; }
    case Intrinsic::objectsize: return ret(mkConst(~(u128)0, bitsOf(C->getType())));
    case Intrinsic::is_constant: return ret(mkConst(0, 1));
    case Intrinsic::trap: report(S, "abort", "trap", S.model); S.dead = true; return 2;
    case Intrinsic::x86_sse2_cvtsd2si: return ret(mkFToSI(mkExtract(A[0].e, 0, 64), 32, 1));
    case Intrinsic::x86_sse_cvtss2si: return ret(mkFToSI(mkExtract(A[0].e, 0, 32), 32, 1));
    case Intrinsic::x86_sse2_cvttsd2si: return ret(mkFToSI(mkExtract(A[0].e, 0, 64), 32, 0));
    case Intrinsic::x86_sse_cvttss2si: return ret(mkFToSI(mkExtract(A[0].e, 0, 32), 32, 0));
    case Intrinsic::vastart: { Frame& F = *S.st.back(); size_t n = F.varargs.size(); u64 b = nextStack; newObj(S, b, n * 8 + 8, OStack, true); nextStack += n * 8 + 8 + 64; nextStack = (nextStack + 15) / 16 * 16; S.top().allocas.push_back(b);
      Obj& o = wr(S.mem[b]); for (size_t i = 0; i < n; i++) { if (F.varargs[i].agg || F.varargs[i].e->w > 64) inconclusive("vararg type"); storeBytes(o, i * 8, mkZExt(F.varargs[i].e, 64), 8); }
      E ap = A[0].e; if (!storeN(S, ap, mkConst(48, 32), 4) || !storeN(S, mkBin(KAdd, ap, mkConst(4, 64)), mkConst(176, 32), 4) || !storeN(S, mkBin(KAdd, ap, mkConst(8, 64)), mkConst(b, 64), 8) || !storeN(S, mkBin(KAdd, ap, mkConst(16, 64)), mkConst(b, 64), 8)) return 2; return 1; }
    case Intrinsic::vacopy: return doMemcpy(S, A[0].e, A[1].e, 24, true) ? 1 : 2;
    case Intrinsic::is_fpclass: { unsigned m = (unsigned)A[1].e->c; E a = A[0].e; unsigned w = a->w; unsigned eb = w == 32 ? 8 : 11, mb = w - 1 - eb; E ex = mkExtract(a, mb, eb), ma = mkExtract(a, 0, mb), sg = mkExtract(a, w - 1, 1); E exA = mkEq(ex, mkConst(maskw(eb), eb)), ex0 = mkEq(ex, mkConst(0, eb)), m0 = mkEq(ma, mkConst(0, mb)); E q = mkExtract(ma, mb - 1, 1); E nan = mkAnd1(exA, mkNot(m0)), inf = mkAnd1(exA, m0), zero = mkAnd1(ex0, m0), sub = mkAnd1(ex0, mkNot(m0)), nor = mkAnd1(mkNot(exA), mkNot(ex0)); E r = mkConst(0, 1);
      auto add = [&](unsigned bit, E c) { if (m & bit) r = mkOr1(r, c); }; add(1, mkAnd1(nan, mkNot(q))); add(2, mkAnd1(nan, q)); add(4, mkAnd1(inf, sg)); add(8, mkAnd1(nor, sg)); add(16, mkAnd1(sub, sg)); add(32, mkAnd1(zero, sg)); add(64, mkAnd1(zero, mkNot(sg))); add(128, mkAnd1(sub, mkNot(sg))); add(256, mkAnd1(nor, mkNot(sg))); add(512, mkAnd1(inf, mkNot(sg))); return ret(r); }
    default: break;
  }
  inconclusive("unmodelled intrinsic " + f->getName().str());
}
// one instruction. Returns a symbolic branch via br* out-params.
struct BranchEv { E cond; BasicBlock *t, *f; };
static bool step(State& S, BranchEv* be) { // returns true if symbolic branch
  Frame& F = S.top(); F.atStart = false; Instruction* I = &*F.it; nSteps++; S.steps++;
  if ((nSteps & 0x3ff) == 0) { if (elapsed() > maxTime) inconclusive("time budget"); }
  if (S.steps > maxSteps) { report(S, "nontermination", "instruction budget exceeded on one path (possible endless loop)", S.model); S.dead = true; return false; }
  switch (I->getOpcode()) {
    case Instruction::Alloca: { auto* A = cast<AllocaInst>(I); u64 n = concretize(S, get(S, A->getArraySize()).e); u64 sz = DL->getTypeAllocSize(A->getAllocatedType()) * n; u64 al = std::max<u64>(16, A->getAlign().value()); u64 b = (nextStack + al - 1) / al * al; newObj(S, b, sz, OStack, false); nextStack = b + sz + 64; Frame& G = S.top(); G.allocas.push_back(b); setr(S, I, Val(mkConst(b, 64))); break; }
    case Instruction::Load: { bool ok = true; Val v = loadT(S, get(S, cast<LoadInst>(I)->getPointerOperand()).e, I->getType(), ok); if (!ok) return false; setr(S, I, v); break; }
    case Instruction::Store: { auto* st = cast<StoreInst>(I); if (!storeT(S, get(S, st->getPointerOperand()).e, get(S, st->getValueOperand()), st->getValueOperand()->getType())) return false; break; }
    case Instruction::GetElementPtr: { setr(S, I, Val(gepConst(cast<GEPOperator>(I), [&](const Value* v) { return get(S, v); }))); break; }
    case Instruction::ICmp: { auto* c = cast<ICmpInst>(I); E a = get(S, c->getOperand(0)).e, b = get(S, c->getOperand(1)).e; if (c->getType()->isVectorTy()) inconclusive("vector icmp"); setr(S, I, Val(evalICmp(c->getPredicate(), a, b))); break; }
    case Instruction::FCmp: { auto* c = cast<FCmpInst>(I); setr(S, I, Val(evalFCmp(c->getPredicate(), get(S, c->getOperand(0)).e, get(S, c->getOperand(1)).e))); break; }
    case Instruction::Select: { E c = get(S, I->getOperand(0)).e; Val a = get(S, I->getOperand(1)), b = get(S, I->getOperand(2)); if (a.agg) inconclusive("aggregate select"); setr(S, I, Val(mkIte(c, a.e, b.e))); break; }
    case Instruction::FNeg: { E a = get(S, I->getOperand(0)).e; 
      if (I->getType()->isVectorTy()) inconclusive("vector fneg"); bool isint = a->k == KSIToF; if (isint) { E r = mkFBin(KFMul, a, mkF(-1.0, a->w)); setr(S, I, Val(r)); } else setr(S, I, Val(mkBin(KXor, a, mkConst((u128)1 << (a->w - 1), a->w)))); break; }
    case Instruction::ExtractValue: { auto* e = cast<ExtractValueInst>(I); Val v = get(S, e->getAggregateOperand()); for (unsigned i : e->indices()) v = v.agg->v[i]; setr(S, I, v); break; }
    case Instruction::InsertValue: { auto* e = cast<InsertValueInst>(I); std::function<Val(Val, ArrayRef<unsigned>, Val)> ins = [&](Val a, ArrayRef<unsigned> ix, Val v) -> Val { if (ix.empty()) return v; Agg* n = new Agg(*a.agg); n->v[ix[0]] = ins(n->v[ix[0]], ix.drop_front(), v); return Val(n); }; setr(S, I, ins(get(S, e->getAggregateOperand()), e->getIndices(), get(S, e->getInsertedValueOperand()))); break; }
    case Instruction::ExtractElement: { auto* vt = cast<FixedVectorType>(I->getOperand(0)->getType()); unsigned ew = bitsOf(vt->getElementType()); u64 i = concretize(S, get(S, I->getOperand(1)).e); setr(S, I, Val(mkExtract(get(S, I->getOperand(0)).e, i * ew, ew))); break; }
    case Instruction::InsertElement: { auto* vt = cast<FixedVectorType>(I->getType()); unsigned ew = bitsOf(vt->getElementType()), n = vt->getNumElements(); u64 ix = concretize(S, get(S, I->getOperand(2)).e); E v = get(S, I->getOperand(0)).e, x = get(S, I->getOperand(1)).e, r = nullptr; for (unsigned i = 0; i < n; i++) { E y = i == ix ? x : mkExtract(v, i * ew, ew); r = r ? mkConcat(y, r) : y; } setr(S, I, Val(r)); break; }
    case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(I); auto* vt = cast<FixedVectorType>(sv->getOperand(0)->getType()); unsigned ew = bitsOf(vt->getElementType()), n = vt->getNumElements(); E a = get(S, sv->getOperand(0)).e, b = get(S, sv->getOperand(1)).e, r = nullptr; for (int m : sv->getShuffleMask()) { E y = m < 0 ? mkConst(0, ew) : (unsigned)m < n ? mkExtract(a, m * ew, ew) : mkExtract(b, (m - n) * ew, ew); r = r ? mkConcat(y, r) : y; } setr(S, I, Val(r)); break; }
    case Instruction::Freeze: setr(S, I, get(S, I->getOperand(0))); break;
    case Instruction::Fence: break;
    case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: inconclusive("atomics");
    case Instruction::Br: { auto* b = cast<BranchInst>(I); if (b->isUnconditional()) { jump(S, b->getSuccessor(0)); return false; } E c = get(S, b->getCondition()).e; if (isC(c)) { jump(S, b->getSuccessor(c->c ? 0 : 1)); return false; } be->cond = c; be->t = b->getSuccessor(0); be->f = b->getSuccessor(1); return true; }
    case Instruction::Switch: { auto* s = cast<SwitchInst>(I); E c = get(S, s->getCondition()).e; u64 v = concretize(S, c); BasicBlock* d = s->getDefaultDest(); for (auto& cs : s->cases()) if (cs.getCaseValue()->getZExtValue() == (v & (u64)maskw(c->w))) d = cs.getCaseSuccessor(); jump(S, d); return false; }
    case Instruction::Ret: { Val v; if (I->getNumOperands()) v = get(S, I->getOperand(0)); if (S.st.size() == 1) { finishPath(S, false); return false; } popFrame(S, v); return false; }
    case Instruction::Unreachable: report(S, "abort", "unreachable code reached (missing return?)", S.model); S.dead = true; return false;
    case Instruction::Call: case Instruction::Invoke: {
      auto* C = cast<CallBase>(I); Args A; 
      if (C->isInlineAsm()) { if (C->getType()->isVoidTy()) break; inconclusive("inline asm"); }
      Function* f = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts());
      if (!f) if (auto* ga = dyn_cast<GlobalAlias>(C->getCalledOperand())) f = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
      if (!f) { u64 a = concretize(S, get(S, C->getCalledOperand()).e); auto it = addrFn.find(a); if (it == addrFn.end()) { report(S, "memory", "call through an invalid function pointer", S.model); S.dead = true; return false; } f = it->second; }
      if (f->isIntrinsic() && (f->getIntrinsicID() == Intrinsic::dbg_declare || f->getIntrinsicID() == Intrinsic::dbg_value || f->getIntrinsicID() == Intrinsic::dbg_label || f->getIntrinsicID()==Intrinsic::experimental_noalias_scope_decl)) break;
      for (unsigned i = 0; i < C->arg_size(); i++) { if (C->getArgOperand(i)->getType()->isMetadataTy()) { A.push_back(Val()); continue; } A.push_back(get(S, C->getArgOperand(i)));
        if (C->isByValArgument(i)) { Type* bt = C->getParamByValType(i); u64 sz = DL->getTypeAllocSize(bt); u64 b = (nextStack + 15) / 16 * 16; newObj(S, b, sz, OStack, false); nextStack = b + sz + 64; S.top().allocas.push_back(b); if (!doMemcpy(S, mkConst(b, 64), A[i].e, sz, false)) return false; A[i] = Val(mkConst(b, 64)); } }
      if (S.dead) return false;
      if (f->isIntrinsic()) { int r = intrinsic(S, C, A); if (r == 2 || S.dead) return false; break; }
      std::string n = f->getName().str(); Function* tgt = nullptr; std::string caller = F.f->getName().str();
      if (n.compare(0, 7, "__real_") == 0) { n = n.substr(7); tgt = M->getFunction(n); }
      else { Function* w = M->getFunction("__wrap_" + n); tgt = (w && !w->isDeclaration() && caller != "__wrap_" + n) ? w : f; }
      if (tgt && !tgt->isDeclaration()) { pushFrame(S, tgt, A, C); return false; }
      if (n.compare(0, 6, "__isoc") == 0) { size_t p = n.find('_', 6); if (p != std::string::npos) { Function* g = M->getFunction(n.substr(p + 1)); if (g && !g->isDeclaration()) { pushFrame(S, g, A, C); return false; } } }
      int r = builtin(S, n, C, A); if (r == 0) inconclusive("call to unmodelled external function " + n + " at " + locOf(C)); if (n.compare(0, 3, "sx_")) extUsed.insert(n); if (r == 2 || S.dead) return false;
      if (isa<InvokeInst>(C)) { jump(S, cast<InvokeInst>(C)->getNormalDest()); return false; }
      break; }
    default:
      if (auto* bo = dyn_cast<BinaryOperator>(I)) {
        E a = get(S, bo->getOperand(0)).e, b = get(S, bo->getOperand(1)).e;
        switch (bo->getOpcode()) { case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: { E z = mkEq(b, mkConst(0, b->w)); if (!isC(z) || z->c) { std::shared_ptr<Model> m; if (query(S, z, &m) == SAT) { report(S, "division", "integer division by zero", m); if (!assume(S, mkNot(z))) return false; } } break; } default: break; }
        setr(S, I, Val(evalBin(bo->getOpcode(), a, b, bo->getType()))); break; }
      if (auto* ca = dyn_cast<CastInst>(I)) { if (ca->getType()->isVectorTy() && ca->getOpcode() != Instruction::BitCast) inconclusive("vector cast"); setr(S, I, Val(evalCast(ca->getOpcode(), get(S, ca->getOperand(0)).e, ca->getSrcTy(), ca->getDestTy()))); break; }
      inconclusive(std::string("instruction ") + I->getOpcodeName());
  }
  if (!S.dead) ++S.top().it;
  return false;
}
// ---------------------------------------------------------------- merging
static bool isAddr(E e) { return e->k == KConst && e->w == 64 && ((e->c >= 0x600000000000ull && e->c < 0x800000000000ull)); }
static bool mergeVal(E sel, const Val& a, const Val& b, Val& out) {
  if (a.e == b.e && a.agg == b.agg) { out = a; return true; }
  if (a.agg || b.agg) { if (!a.agg || !b.agg || a.agg->v.size() != b.agg->v.size()) return false; Agg* g = new Agg; for (size_t i = 0; i < a.agg->v.size(); i++) { Val o; if (!mergeVal(sel, a.agg->v[i], b.agg->v[i], o)) return false; g->v.push_back(o); } out = Val(g); return true; }
  if (!a.e || !b.e) { out = Val(); return true; } // dead on one side
  if (a.e->w != b.e->w) return false; if ((isAddr(a.e) || isAddr(b.e)) ) return false;
  out = Val(mkIte(sel, a.e, b.e)); return true;
}
static SP tryMerge(const SP& a, const SP& b, u64 mark) {
  if (a->st.size() != b->st.size() || a->exitMode != b->exitMode || a->merge != b->merge) return nullptr;
  if (a->obs.size() != b->obs.size()) return nullptr; for (size_t i = 0; i < a->obs.size(); i++) if (a->obs[i].name != b->obs[i].name || a->obs[i].e->w != b->obs[i].e->w) return nullptr;
  if (a->inputs.size() != b->inputs.size()) return nullptr; for (size_t i = 0; i < a->inputs.size(); i++) if (a->inputs[i].name != b->inputs[i].name || a->inputs[i].bytes != b->inputs[i].bytes) return nullptr;
  size_t d = a->st.size(); for (size_t i = 0; i + 1 < d; i++) if (a->st[i] != b->st[i]) { if (a->st[i]->it != b->st[i]->it || a->st[i]->allocas != b->st[i]->allocas) return nullptr; 
      for (size_t r = 0; r < a->st[i]->regs.size(); r++) if (a->st[i]->regs[r].e != b->st[i]->regs[r].e || a->st[i]->regs[r].agg != b->st[i]->regs[r].agg) return nullptr; }
  Frame &A = *a->st.back(), &B = *b->st.back(); if (A.bb != B.bb || A.it != B.it || A.allocas != B.allocas) return nullptr;
  // selector
  size_t k = 0; while (k < a->pc.size() && k < b->pc.size() && a->pc[k] == b->pc[k]) k++;
  E sa = mkConst(1, 1), sb = mkConst(1, 1); for (size_t i = k; i < a->pc.size(); i++) sa = mkAnd1(sa, a->pc[i]); for (size_t i = k; i < b->pc.size(); i++) sb = mkAnd1(sb, b->pc[i]);
  SP R = std::make_shared<State>(*a); R->pc.resize(k); addPC(*R, mkOr1(sa, sb)); 
  // prefer the simpler selector (paths are disjoint): sel true => a
  E sel = (isC(sa)) ? mkNot(sb) : sa;
  if (a->pc.size() - k > b->pc.size() - k && !isC(sb)) sel = mkNot(sb);
  R->steps = std::max(a->steps, b->steps); for (auto& n : b->names) { int& x = R->names[n.first]; x = std::max(x, n.second); }
  Frame& F = R->top(); for (int r : F.fi->live[F.bb]) { Val o; if (!mergeVal(sel, A.regs[r], B.regs[r], o)) return nullptr; F.regs[r] = o; }
  for (size_t i = 0; i < a->obs.size(); i++) R->obs[i].e = mkIte(sel, a->obs[i].e, b->obs[i].e);
  // memory
  auto ia = a->mem.begin(), ib = b->mem.begin();
  while (ia != a->mem.end() || ib != b->mem.end()) {
    if (ia == a->mem.end() || (ib != b->mem.end() && ib->first < ia->first)) { // only in b
      if (ib->second->kind == OHeap && ib->first < mark) return nullptr; R->mem[ib->first] = ib->second; ++ib; continue; }
    if (ib == b->mem.end() || ia->first < ib->first) { if (ia->second->kind == OHeap && ia->first < mark) return nullptr; ++ia; continue; }
    if (ia->second != ib->second) {
      Obj &x = *ia->second, &y = *ib->second; OP n = std::make_shared<Obj>(x); Obj& o = *n;
      for (u64 i = 0; i < x.size; i++) {
        bool xi = x.init.empty() || x.init[i], yi = y.init.empty() || y.init[i];
        E xs = x.s.empty() ? nullptr : x.s[i], ys = y.s.empty() ? nullptr : y.s[i];
        if (!xs && !ys && xi && yi && x.c[i] == y.c[i]) continue; if (xs && xs == ys) continue; if (!xi && !yi && !xs && !ys) continue;
        // pointer-difference guard on aligned words
        if ((x.base + i) % 8 == 0 && i + 8 <= x.size && xi && yi) { bool cx = true, cy = true; for (int q = 0; q < 8; q++) { if (!x.s.empty() && x.s[i + q]) cx = false; if (!y.s.empty() && y.s[i + q]) cy = false; } if (cx && cy) { E p = loadBytes(x, i, 8), q = loadBytes(y, i, 8); if (isC(p) && isC(q) && p != q && (isAddr(p) || isAddr(q)) && (isAddr(p) || !p->c) && (isAddr(q) || !q->c)) return nullptr; } }
        o.setByte(i, mkIte(sel, x.getByte(i), y.getByte(i)));
      }
      R->mem[ia->first] = n;
    }
    ++ia; ++ib;
  }
  nMerges++; return R;
}
struct Stop { size_t depth; const BasicBlock* bb; };
static bool atStop(State& S, const std::vector<Stop>& st) { Frame& F = *S.st.back(); if (!F.atStart) return false; for (auto& s : st) if (S.st.size() == s.depth && F.bb == s.bb) return true; return false; }
static std::vector<SP> run(std::vector<SP> wl, std::vector<Stop>& stops) {
  std::vector<SP> out; std::vector<SP> forks;
  while (!wl.empty()) {
    SP s = wl.back(); wl.pop_back();
    while (true) {
      if (s->dead) break;
      if (atStop(*s, stops)) { out.push_back(s); break; }
      BranchEv be; forks.clear(); g_forkout = &forks; 
      bool br = step(*s, &be);
      // states forked inside the instruction re-execute it
      for (auto& f : forks) wl.push_back(f);
      if (!br) continue;
      std::shared_ptr<Model> mt, mf; bool ct, cf;
      if (s->model->eval(be.cond)) { ct = true; mt = s->model; cf = query(*s, mkNot(be.cond), &mf) == SAT; } else { cf = true; mf = s->model; ct = query(*s, be.cond, &mt) == SAT; }
      if (ct && !cf) { jump(*s, be.t); continue; } if (cf && !ct) { jump(*s, be.f); continue; }
      nForks++; Frame& F = *s->st.back(); const BasicBlock* P = nullptr; if (s->merge) { auto it = F.fi->ipdom.find(F.bb); if (it != F.fi->ipdom.end()) P = it->second; }
      SP t = s, f = cloneS(*s); 
      addPC(*t, be.cond); t->model = mt; addPC(*f, mkNot(be.cond)); f->model = mf;
      jump(*t, be.t); jump(*f, be.f);
      if (!P) { wl.push_back(f); s = t; continue; }
      size_t depth = t->st.size(); u64 mark = nextHeap; stops.push_back({depth, P});
      std::vector<SP> a = run({t}, stops), b = run({f}, stops); stops.pop_back();
      std::vector<SP> own; for (auto* v : {&a, &b}) for (auto& x : *v) { if (x->st.size() == depth && x->st.back()->bb == P && x->st.back()->atStart) { SP cur = x; bool merged = false; for (auto& o : own) if (SP m = tryMerge(o, cur, mark)) { o = m; merged = true; break; } if (!merged) own.push_back(cur); } else out.push_back(x); }
      if (own.empty()) break; 
      for (size_t i = 1; i < own.size(); i++) wl.push_back(own[i]);
      s = own[0];
    }
  }
  return out;
}
static std::string js(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static std::string outFile; static std::string status = "complete";
static void writeOut() {
  FILE* f = outFile.empty() ? stdout : fopen(outFile.c_str(), "w"); auto list = [&](const std::set<std::string>& s) { std::string r = "["; bool first = true; for (auto& x : s) { if (!first) r += ","; first = false; r += js(x); } return r + "]"; };
  auto kv = [&](const std::vector<std::pair<std::string, std::string>>& v) { std::string r = "["; bool first = true; for (auto& p : v) { if (!first) r += ","; first = false; r += "[" + js(p.first) + "," + js(p.second) + "]"; } return r + "]"; };
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  fprintf(f, "{\"entry\":%s,\"status\":%s,\"paths\":%llu,\"exit_paths\":%llu,\"forks\":%llu,\"merges\":%llu,\"steps\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"model_hits\":%llu,\"cache_hits\":%llu,\"mismatches\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\"terms\":%u,\"maxrss_mb\":%ld,", js(entryName).c_str(), js(status).c_str(), (unsigned long long)nPaths, (unsigned long long)nExitPaths, (unsigned long long)nForks, (unsigned long long)nMerges, (unsigned long long)nSteps, (unsigned long long)nAsserts, (unsigned long long)nAssertQ, (unsigned long long)g_ss.queries, (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat, (unsigned long long)g_ss.unknown, (unsigned long long)g_ss.modelhits, (unsigned long long)g_ss.cachehits, (unsigned long long)g_ss.mismatches, g_ss.time, g_ss.maxtime, elapsed(), exprCount(), ru.ru_maxrss / 1024);
  fprintf(f, "\"uninit_reads\":%llu,\"functions\":%s,\"externals\":%s,\"uninterpreted\":%s,\"reached\":%s,", (unsigned long long)g_uninitReads, list(fnsExecuted).c_str(), list(extUsed).c_str(), list(ufUsed).c_str(), list(reached).c_str());
  fprintf(f, "\"witnesses\":["); for (size_t i = 0; i < witnesses.size(); i++) fprintf(f, "%s{\"exited\":%s,\"uninit\":%s,\"inputs\":%s,\"observed\":%s}", i ? "," : "", witnesses[i].exited ? "true" : "false", witnesses[i].uninit ? "true" : "false", kv(witnesses[i].inputs).c_str(), kv(witnesses[i].obs).c_str());
  fprintf(f, "],\"errors\":["); for (size_t i = 0; i < errors.size(); i++) { auto& e = errors[i]; std::string st = "["; for (size_t q = 0; q < e.stack.size(); q++) st += (q ? "," : "") + js(e.stack[q]); st += "]"; fprintf(f, "%s{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"fn\":%s,\"uninit\":%s,\"stack\":%s,\"inputs\":%s}", i ? "," : "", js(e.kind).c_str(), js(e.msg).c_str(), js(e.loc).c_str(), js(e.fn).c_str(), e.uninit ? "true" : "false", st.c_str(), kv(e.inputs).c_str()); }
  fprintf(f, "]}\n"); if (f != stdout) fclose(f);
}
static void initGlobals(State& S) {
  for (auto& g : M->globals()) {
    std::string n = g.getName().str(); if (n == "llvm.global_ctors" || n == "llvm.used" || n == "llvm.compiler.used" || n == "llvm.global_dtors") continue;
    u64 sz = DL->getTypeAllocSize(g.getValueType()); if (g.isDeclaration()) { sz = std::max<u64>(sz, 64); }
    u64 al = std::max<u64>(16, g.getAlign().valueOrOne().value()); nextGlobal = (nextGlobal + al - 1) / al * al; gvAddr[&g] = nextGlobal; newObj(S, nextGlobal, sz, OGlobal, true); nextGlobal += sz + 64; }
  for (auto& g : M->globals()) if (g.hasInitializer() && gvAddr.count(&g)) { 
    Constant* ini = g.getInitializer(); if (isa<UndefValue>(ini) || isa<ConstantAggregateZero>(ini)) { } 
    else { std::function<void(u64, Constant*)> put = [&](u64 a, Constant* c) { Type* t = c->getType(); if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return; if (auto* st = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) put(a + L->getElementOffset(i), c->getAggregateElement(i)); return; } if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) put(a + i * es, c->getAggregateElement((unsigned)i)); return; }
        try { Val v = constVal(c); storeT(S, mkConst(a, 64), v, t); } catch (Inconclusive&) {} };
      put(gvAddr[&g], ini); }
    if (g.isConstant()) S.mem[gvAddr[&g]]->ro = true; }
}
static int realMain() {
  T0 = std::chrono::steady_clock::now(); SP S = std::make_shared<State>(); S->model = std::make_shared<Model>();
  try {
    initGlobals(*S); Function* e = M->getFunction(entryName); if (!e || e->isDeclaration()) { fprintf(stderr, "no entry %s\n", entryName.c_str()); return 3; }
    std::vector<Stop> stops; std::vector<SP> forks; g_forkout = &forks;
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) { 
      SP T = S; T->st.clear(); // run constructor to completion on a trampoline: emulate by stepping until its frame pops
      pushFrame(*T, f, {}, nullptr); BranchEv be; while (!T->st.empty() && !T->dead) { if (T->st.size() == 1 && isa<ReturnInst>(&*T->st.back()->it)) { for (u64 a : T->st.back()->allocas) T->mem.erase(a); T->st.clear(); break; } if (step(*T, &be)) inconclusive("symbolic branch in static initialiser"); } } }
    S->steps = 0; pushFrame(*S, e, {}, nullptr); run({S}, stops);
  } catch (Inconclusive& x) { status = x.why; }
  writeOut(); return 0;
}
int main(int argc, char** argv) {
  std::string bc; for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entryName = nx(); else if (a == "--out") outFile = nx(); else if (a == "--max-time") maxTime = atof(nx().c_str()); else if (a == "--max-steps") maxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "--query-ms") g_query_timeout_ms = atoi(nx().c_str()); else if (a == "--max-errors") maxErrors = atoi(nx().c_str()); else if (a == "--witnesses") maxWit = atoi(nx().c_str()); else if (a == "--fill") g_fill = atoi(nx().c_str()); else if (a == "-v") verbose = true; else if (a == "--param") { std::string p = nx(); size_t q = p.find('='); params[p.substr(0, q)] = atol(p.c_str() + q + 1); } else bc = a; }
  LLVMContext ctx; SMDiagnostic err; M = parseIRFile(bc, err, ctx); if (!M) { err.print("symx", errs()); return 3; } DL = &M->getDataLayout();
  int rc = 0; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, (size_t)4 << 30); pthread_t th; static int* prc = &rc;
  if (pthread_create(&th, &at, [](void*) -> void* { *prc = realMain(); return nullptr; }, nullptr)) { fprintf(stderr, "thread\n"); return 3; } pthread_join(th, nullptr); fflush(stdout); _exit(rc);
}
