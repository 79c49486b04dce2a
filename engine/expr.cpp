#include "expr.h"
#include <deque>
#include <unordered_set>
std::vector<std::string> g_symname, g_ufname;
static std::deque<Expr> arena;
struct HK { size_t operator()(const Expr* e) const {
  size_t h = e->k * 1000003u + e->w * 7919u + e->aux * 31u; h ^= (size_t)(u64)e->c * 0x9E3779B97F4A7C15ull; h ^= (size_t)(u64)(e->c >> 64) * 0xC2B2AE3D27D4EB4Full;
  for (int i = 0; i < e->nk; i++) h = h * 0x100000001b3ull ^ (e->a[i]->id * 0x9E3779B1u); return h ^ (h >> 29); } };
struct EQ { bool operator()(const Expr* a, const Expr* b) const {
  if (a->k != b->k || a->w != b->w || a->aux != b->aux || a->nk != b->nk || a->c != b->c) return false;
  for (int i = 0; i < a->nk; i++) if (a->a[i] != b->a[i]) return false; return true; } };
static std::unordered_set<const Expr*, HK, EQ> tab;
uint32_t exprCount() { return arena.size(); }
static E intern(K k, unsigned w, uint32_t aux, u128 c, E a = nullptr, E b = nullptr, E d = nullptr) {
  Expr t; t.k = k; t.w = w; t.aux = aux; t.c = c; t.a[0] = a; t.a[1] = b; t.a[2] = d; t.nk = (a != 0) + (b != 0) + (d != 0); t.rng_ok = false; t.id = 0; t.lo = t.hi = 0; t.hasfp = false;
  auto it = tab.find(&t); if (it != tab.end()) return *it;
  t.id = arena.size(); t.hasfp = (k >= KFAdd); for (int i = 0; i < t.nk; i++) if (t.a[i]->hasfp) t.hasfp = true;
  arena.push_back(t); E r = &arena.back(); tab.insert(r); return r;
}
E mkConst(u128 v, unsigned w) { return intern(KConst, w, 0, v & maskw(w)); }
E mkSym(const std::string& name, unsigned w) {
  static std::unordered_map<std::string, E> m; auto it = m.find(name); if (it != m.end() && it->second->w == w) return it->second;
  g_symname.push_back(name); E e = intern(KSym, w, g_symname.size() - 1, 0); m[name] = e; return e;
}
E mkF(double v, unsigned w) { return w == 32 ? mkConst(fromF((float)v), 32) : mkConst(fromD(v), 64); }

// ---- concrete semantics -------------------------------------------------
static i64 cvtS(double d, unsigned w, int rne) { // x86 cvt(t)sd2si
  double r = rne ? nearbyint(d) : trunc(d);
  if (w == 32) { if (!(r >= -2147483648.0 && r <= 2147483647.0)) return INT32_MIN; return (i64)(int32_t)r; }
  if (!(r >= -9223372036854775808.0 && r < 9223372036854775808.0)) return INT64_MIN; return (i64)r;
}
u128 ufConcrete(const std::string& fn, const std::vector<u128>& a, unsigned w) {
  double x[3]; for (size_t i = 0; i < a.size() && i < 3; i++) x[i] = w == 32 ? (double)asF(a[i]) : asD(a[i]);
  std::string f = fn; bool sf = false; if (w == 32 && f.size() > 1 && f.back() == 'f') { sf = true; }
#define F1(n) if (f == #n) return fromD(n(x[0])); if (sf && f == #n "f") return fromF(n##f(asF(a[0])));
#define F2(n) if (f == #n) return fromD(n(x[0], x[1])); if (sf && f == #n "f") return fromF(n##f(asF(a[0]), asF(a[1])));
  F1(sin) F1(cos) F1(tan) F1(asin) F1(acos) F1(atan) F1(exp) F1(exp2) F1(log) F1(log10) F1(log2) F1(sinh) F1(cosh) F1(tanh) F1(cbrt) F1(log1p) F1(expm1)
  F2(pow) F2(atan2) F2(hypot) F2(fmod)
  return 0;
}
u128 foldOp(K k, unsigned w, uint32_t aux, const u128* v, const uint16_t* kw, u128 c) {
  u128 m = maskw(w);
  switch (k) {
    case KAdd: return (v[0] + v[1]) & m; case KSub: return (v[0] - v[1]) & m; case KMul: return (v[0] * v[1]) & m;
    case KUDiv: return v[1] ? v[0] / v[1] : m; case KURem: return v[1] ? v[0] % v[1] : v[0];
    case KSDiv: { i128 x = sx(v[0], w), y = sx(v[1], w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
    case KSRem: { i128 x = sx(v[0], w), y = sx(v[1], w); if (!y) return v[0]; if (y == -1) return 0; return (u128)(x % y) & m; }
    case KAnd: return v[0] & v[1]; case KOr: return v[0] | v[1]; case KXor: return v[0] ^ v[1];
    case KShl: return v[1] >= w ? 0 : (v[0] << (unsigned)v[1]) & m;
    case KLShr: return v[1] >= w ? 0 : (v[0] & m) >> (unsigned)v[1];
    case KAShr: { i128 x = sx(v[0], w); unsigned s = v[1] >= w ? w - 1 : (unsigned)v[1]; return (u128)(x >> s) & m; }
    case KConcat: return ((v[0] << kw[1]) | v[1]) & m;
    case KExtract: return (v[0] >> aux) & m;
    case KZExt: return v[0]; case KSExt: return (u128)sx(v[0], kw[0]) & m;
    case KIte: return v[0] ? v[1] : v[2];
    case KEq: return v[0] == v[1]; case KUlt: return v[0] < v[1]; case KUle: return v[0] <= v[1];
    case KSlt: return sx(v[0], kw[0]) < sx(v[1], kw[0]); case KSle: return sx(v[0], kw[0]) <= sx(v[1], kw[0]);
    case KFAdd: return w == 32 ? fromF(asF(v[0]) + asF(v[1])) : fromD(asD(v[0]) + asD(v[1]));
    case KFSub: return w == 32 ? fromF(asF(v[0]) - asF(v[1])) : fromD(asD(v[0]) - asD(v[1]));
    case KFMul: return w == 32 ? fromF(asF(v[0]) * asF(v[1])) : fromD(asD(v[0]) * asD(v[1]));
    case KFDiv: return w == 32 ? fromF(asF(v[0]) / asF(v[1])) : fromD(asD(v[0]) / asD(v[1]));
    case KFRem: return w == 32 ? fromF(fmodf(asF(v[0]), asF(v[1]))) : fromD(fmod(asD(v[0]), asD(v[1])));
    case KFSqrt: return w == 32 ? fromF(sqrtf(asF(v[0]))) : fromD(sqrt(asD(v[0])));
    case KFRnd: { double d = w == 32 ? (double)asF(v[0]) : asD(v[0]); double r = aux == 0 ? nearbyint(d) : aux == 1 ? floor(d) : aux == 2 ? ceil(d) : aux == 3 ? trunc(d) : round(d); return w == 32 ? fromF((float)r) : fromD(r); }
    case KFOeq: return kw[0] == 32 ? asF(v[0]) == asF(v[1]) : asD(v[0]) == asD(v[1]);
    case KFOlt: return kw[0] == 32 ? asF(v[0]) < asF(v[1]) : asD(v[0]) < asD(v[1]);
    case KFOle: return kw[0] == 32 ? asF(v[0]) <= asF(v[1]) : asD(v[0]) <= asD(v[1]);
    case KFNan: return kw[0] == 32 ? std::isnan(asF(v[0])) : std::isnan(asD(v[0]));
    case KFToSI: { double d = kw[0] == 32 ? (double)asF(v[0]) : asD(v[0]); return (u128)(i128)cvtS(d, w, aux) & m; }
    case KSIToF: { i64 x = (i64)(u64)v[0]; return w == 32 ? fromF((float)x) : fromD((double)x); }
    case KUIToF: { u64 x = (u64)v[0]; return w == 32 ? fromF((float)x) : fromD((double)x); }
    case KFExt: return fromD((double)asF(v[0])); case KFTrunc: return fromF((float)asD(v[0]));
    default: break;
  }
  (void)c; return 0;
}
u128 Model::eval(E root) const {
  if (root->k == KConst) return root->c;
  // iterative post-order
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back();
    if (e->k == KConst || memo.count(e->id)) { st.pop_back(); continue; }
    if (e->k == KSym) { auto it = val.find(e->id); memo[e->id] = it == val.end() ? 0 : it->second; st.pop_back(); continue; }
    bool rdy = true; u128 v[3]; uint16_t kw[3];
    if (e->k == KIte) {
      E c = e->a[0]; u128 cv; if (c->k == KConst) cv = c->c; else { auto it = memo.find(c->id); if (it == memo.end()) { st.push_back(c); continue; } cv = it->second; }
      E x = cv ? e->a[1] : e->a[2]; u128 r; if (x->k == KConst) r = x->c; else { auto it = memo.find(x->id); if (it == memo.end()) { st.push_back(x); continue; } r = it->second; }
      memo[e->id] = r; st.pop_back(); continue;
    }
    for (int i = 0; i < e->nk; i++) { E x = e->a[i]; kw[i] = x->w; if (x->k == KConst) v[i] = x->c; else { auto it = memo.find(x->id); if (it == memo.end()) { st.push_back(x); rdy = false; } else v[i] = it->second; } }
    if (!rdy) continue;
    u128 r; if (e->k == KUF) { std::vector<u128> av(v, v + e->nk); auto it = val.find(e->id); r = it != val.end() ? it->second : ufConcrete(g_ufname[e->aux], av, e->w); } else r = foldOp(e->k, e->w, e->aux, v, kw, e->c);
    memo[e->id] = r; st.pop_back();
  }
  return memo[root->id];
}
static std::unordered_map<uint32_t, std::vector<E>> symmemo;
const std::vector<E>& symsOf(E root) {
  auto f = symmemo.find(root->id); if (f != symmemo.end()) return f->second;
  std::vector<E> out, st{root}; std::unordered_set<uint32_t> seen;
  while (!st.empty()) { E e = st.back(); st.pop_back(); if (e->k == KConst || !seen.insert(e->id).second) continue; if (e->k == KSym || e->k == KUF) out.push_back(e); 
    auto g = symmemo.find(e->id); if (e != root && g != symmemo.end()) { for (E x : g->second) if (seen.insert(x->id).second || x == e) { if (x != e) out.push_back(x); } continue; }
    for (int i = 0; i < e->nk; i++) st.push_back(e->a[i]); }
  return symmemo[root->id] = out;
}
// ---- ranges ---------------------------------------------------------------
static bool full(unsigned w, i128& lo, i128& hi) { if (w == 1) { lo = 0; hi = 1; return true; } hi = ((i128)1 << (w - 1)) - 1; lo = -hi - 1; return true; }
static int rdepth = 0;
bool srange(E e, i128& lo, i128& hi) {
  // ranges are of the *signed* value for w in 2..64; w==1 treated as 0..1; w>64: full false
  if (e->w > 64) { lo = hi = 0; return false; }
  if (e->k == KConst) { lo = hi = e->w == 1 ? (i128)e->c : sx(e->c, e->w); return true; }
  if (e->rng_ok) { lo = e->lo; hi = e->hi; return true; }
  if (rdepth > 2000) { full(e->w, lo, hi); return true; }
  rdepth++;
  unsigned w = e->w; i128 fl, fh; full(w, fl, fh); lo = fl; hi = fh;
  i128 a0, a1, b0, b1;
  auto U = [&](E x, i128& l, i128& h) { // unsigned range
    if (x->w > 64) { l = 0; h = ((i128)1 << 100); return; }
    srange(x, l, h); if (x->w > 1 && l < 0) { if (h < 0) { l += (i128)1 << x->w; h += (i128)1 << x->w; } else { l = 0; h = ((i128)1 << x->w) - 1; } } };
  switch (e->k) {
    case KZExt: U(e->a[0], lo, hi); break;
    case KSExt: srange(e->a[0], lo, hi); if (e->a[0]->w == 1) { i128 l = -hi, h = -lo; lo = l; hi = h; } break;
    case KAdd: srange(e->a[0], a0, a1); srange(e->a[1], b0, b1); lo = a0 + b0; hi = a1 + b1; break;
    case KSub: srange(e->a[0], a0, a1); srange(e->a[1], b0, b1); lo = a0 - b1; hi = a1 - b0; break;
    case KMul: { srange(e->a[0], a0, a1); srange(e->a[1], b0, b1); i128 p[4] = {a0 * b0, a0 * b1, a1 * b0, a1 * b1}; lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4); break; }
    case KIte: srange(e->a[1], a0, a1); srange(e->a[2], b0, b1); lo = std::min(a0, b0); hi = std::max(a1, b1); break;
    case KAnd: srange(e->a[0], a0, a1); srange(e->a[1], b0, b1); if (b0 >= 0 && a0 >= 0) { lo = 0; hi = std::min(a1, b1); } else if (b0 >= 0) { lo = 0; hi = b1; } else if (a0 >= 0) { lo = 0; hi = a1; } break;
    case KOr: case KXor: srange(e->a[0], a0, a1); srange(e->a[1], b0, b1); if (a0 >= 0 && b0 >= 0) { i128 m = std::max(a1, b1); i128 p = 1; while (p <= m) p <<= 1; lo = 0; hi = p - 1; } break;
    case KURem: U(e->a[0], a0, a1); U(e->a[1], b0, b1); if (b0 > 0) { lo = 0; hi = std::min(a1, b1 - 1); } break;
    case KUDiv: U(e->a[0], a0, a1); U(e->a[1], b0, b1); if (b0 > 0) { lo = a0 / b1; hi = a1 / b0; } break;
    case KSDiv: srange(e->a[0], a0, a1); srange(e->a[1], b0, b1); if (b0 > 0) { i128 p[4] = {a0 / b0, a0 / b1, a1 / b0, a1 / b1}; lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4); } break;
    case KSRem: srange(e->a[0], a0, a1); srange(e->a[1], b0, b1); if (b0 > 0) { lo = a0 < 0 ? -(b1 - 1) : 0; hi = a1 > 0 ? b1 - 1 : 0; if (a0 >= 0) hi = std::min(hi, a1); } break;
    case KLShr: U(e->a[0], a0, a1); if (isC(e->a[1]) && e->a[1]->c < 64) { lo = a0 >> (int)e->a[1]->c; hi = a1 >> (int)e->a[1]->c; } break;
    case KAShr: srange(e->a[0], a0, a1); if (isC(e->a[1]) && e->a[1]->c < 64) { lo = a0 >> (int)e->a[1]->c; hi = a1 >> (int)e->a[1]->c; } break;
    case KShl: srange(e->a[0], a0, a1); if (isC(e->a[1]) && e->a[1]->c < 63) { i128 f = (i128)1 << (int)e->a[1]->c; lo = a0 * f; hi = a1 * f; } break;
    case KExtract: if (e->a[0]->w <= 64 && e->a[0]->w > 1) { srange(e->a[0], a0, a1); a0 >>= e->aux; a1 >>= e->aux; if (w == 1 ? (a0 >= 0 && a1 <= 1) : (a0 >= fl && a1 <= fh)) { lo = a0; hi = a1; } } break;
    case KConcat: { if (isC(e->a[0]) && sx(e->a[0]->c, e->a[0]->w) >= 0 && e->w <= 64) { i128 base = (i128)e->a[0]->c << e->a[1]->w; U(e->a[1], a0, a1); lo = base + a0; hi = base + a1; } break; }
    case KFToSI: { // float-int range when argument is simple: leave full
      break; }
    default: break;
  }
  if (lo < fl || hi > fh) { lo = fl; hi = fh; }
  rdepth--;
  e->lo = lo; e->hi = hi; e->rng_ok = true; return true;
}
unsigned tzeros(E e) {
  switch (e->k) {
    case KConst: { if (!e->c) return e->w; unsigned n = 0; u128 c = e->c; while (!(c & 1)) { c >>= 1; n++; } return n; }
    case KAdd: case KSub: case KOr: case KXor: return std::min(tzeros(e->a[0]), tzeros(e->a[1]));
    case KAnd: return std::max(tzeros(e->a[0]), tzeros(e->a[1]));
    case KMul: return std::min<unsigned>(e->w, tzeros(e->a[0]) + tzeros(e->a[1]));
    case KShl: if (isC(e->a[1])) return std::min<unsigned>(e->w, tzeros(e->a[0]) + (unsigned)e->a[1]->c); return tzeros(e->a[0]);
    case KZExt: case KSExt: { unsigned t = tzeros(e->a[0]); return t >= e->a[0]->w ? e->w : t; }
    case KExtract: return e->aux == 0 ? std::min<unsigned>(e->w, tzeros(e->a[0])) : 0;
    case KIte: return std::min(tzeros(e->a[1]), tzeros(e->a[2]));
    case KConcat: { unsigned t = tzeros(e->a[1]); return t >= e->a[1]->w ? t + tzeros(e->a[0]) : t; }
    default: return 0;
  }
}
// ---- builders ---------------------------------------------------------------
static E fold2(K k, unsigned w, E a, E b, uint32_t aux = 0) { u128 v[2] = {a->c, b->c}; uint16_t kw[2] = {a->w, b->w}; return mkConst(foldOp(k, w, aux, v, kw, 0), w); }
static E fold1(K k, unsigned w, E a, uint32_t aux = 0) { u128 v[1] = {a->c}; uint16_t kw[1] = {a->w}; return mkConst(foldOp(k, w, aux, v, kw, 0), w); }
static E T() { static E e = mkConst(1, 1); return e; }
static E Fa() { static E e = mkConst(0, 1); return e; }
static bool constLeaves(E e, int depth = 0) { return e->k == KIte && depth < 24 && (isC(e->a[1]) || constLeaves(e->a[1], depth + 1)) && (isC(e->a[2]) || constLeaves(e->a[2], depth + 1)); }
E mkNot(E a) {
  if (isC(a)) return a->c ? Fa() : T();
  if (a->k == KXor && isC(a->a[1], 1)) return a->a[0];
  if (a->k == KUlt) return mkUle(a->a[1], a->a[0]);
  if (a->k == KUle) return mkUlt(a->a[1], a->a[0]);
  if (a->k == KSlt) return mkSle(a->a[1], a->a[0]);
  if (a->k == KSle) return mkSlt(a->a[1], a->a[0]);
  return intern(KXor, 1, 0, 0, a, T());
}
E mkAnd1(E a, E b) { return mkBin(KAnd, a, b); }
E mkOr1(E a, E b) { return mkBin(KOr, a, b); }
static bool nonneg(E e) { i128 l, h; return e->w <= 64 && e->w > 1 && srange(e, l, h) && l >= 0; }
E mkBin(K k, E a, E b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return fold2(k, w, a, b);
  bool comm = k == KAdd || k == KMul || k == KAnd || k == KOr || k == KXor;
  if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  switch (k) {
    case KAdd:
      if (isC(b, 0)) return a;
      if (isC(b)) { if (a->k == KAdd && isC(a->a[1])) return mkBin(KAdd, a->a[0], fold2(KAdd, w, a->a[1], b)); if (constLeaves(a)) return mkIte(a->a[0], mkBin(KAdd, a->a[1], b), mkBin(KAdd, a->a[2], b)); }
      else { if (a->k == KAdd && isC(a->a[1])) return mkBin(KAdd, mkBin(KAdd, a->a[0], b), a->a[1]); if (b->k == KAdd && isC(b->a[1])) return mkBin(KAdd, mkBin(KAdd, a, b->a[0]), b->a[1]); 
        if (b->k == KSub && b->a[1] == a) return b->a[0]; if (a->k == KSub && a->a[1] == b) return a->a[0]; }
      break;
    case KSub:
      if (a == b) return mkConst(0, w);
      if (isC(b)) return mkBin(KAdd, a, mkConst(-b->c, w));
      if (a->k == KAdd) { if (a->a[1] == b) return a->a[0]; if (a->a[0] == b) return a->a[1]; if (isC(a->a[1])) return mkBin(KAdd, mkBin(KSub, a->a[0], b), a->a[1]); }
      if (b->k == KAdd) { if (isC(b->a[1])) return mkBin(KAdd, mkBin(KSub, a, b->a[0]), mkConst(-b->a[1]->c, w)); }
      break;
    case KMul:
      if (isC(b, 0)) return b; if (isC(b, 1)) return a;
      if (isC(b)) { if (a->k == KMul && isC(a->a[1])) return mkBin(KMul, a->a[0], fold2(KMul, w, a->a[1], b)); if (constLeaves(a)) return mkIte(a->a[0], mkBin(KMul, a->a[1], b), mkBin(KMul, a->a[2], b));
        if (a->k == KAdd && isC(a->a[1])) return mkBin(KAdd, mkBin(KMul, a->a[0], b), fold2(KMul, w, a->a[1], b)); }
      break;
    case KAnd:
      if (a == b) return a; if (isC(b, 0)) return b; if (isC(b) && b->c == maskw(w)) return a;
      if (w == 1) { if (a == mkNot(b)) return Fa(); if (a->k == KAnd && (a->a[0] == b || a->a[1] == b)) return a; if (b->k == KAnd && (b->a[0] == a || b->a[1] == a)) return b; }
      if (isC(b)) { u128 c = b->c; unsigned n = 0; while (n < w && ((c >> n) & 1)) n++; if (n < w && (c >> n) == 0) return mkZExt(mkExtract(a, 0, n), w); 
        if (a->k == KZExt && (c & maskw(a->a[0]->w)) != c) return mkBin(KAnd, a, mkConst(c & maskw(a->a[0]->w), w)); }
      break;
    case KOr:
      if (a == b) return a; if (isC(b, 0)) return a; if (isC(b) && b->c == maskw(w)) return b;
      if (w == 1) { if (a == mkNot(b)) return T(); if (a->k == KOr && (a->a[0] == b || a->a[1] == b)) return a; if (b->k == KOr && (b->a[0] == a || b->a[1] == a)) return b; }
      // zext(x) | (y << n) -> concat
      if (w > 1) for (int s = 0; s < 2; s++) { E x = s ? a : b, y = s ? b : a; 
        if (x->k == KZExt && y->k == KShl && isC(y->a[1]) && x->a[0]->w <= y->a[1]->c && y->a[1]->c < w) { unsigned n = (unsigned)y->a[1]->c; return mkConcat(mkExtract(y->a[0], 0, w - n), mkZExt(x->a[0], n)); } }
      break;
    case KXor:
      if (a == b) return mkConst(0, w); if (isC(b, 0)) return a; 
      if (w == 1 && isC(b, 1)) return mkNot(a);
      if (isC(b) && a->k == KXor && isC(a->a[1])) return mkBin(KXor, a->a[0], fold2(KXor, w, a->a[1], b));
      break;
    case KShl: case KLShr: case KAShr:
      if (isC(b, 0)) return a; if (isC(a, 0)) return a;
      if (isC(b)) { if (b->c >= w) { if (k != KAShr) return mkConst(0, w); b = mkConst(w - 1, w); }
        unsigned n = (unsigned)b->c;
        if (k == KShl && w > 1) { return mkConcat(mkExtract(a, 0, w - n), mkConst(0, n)); }
        if (k == KLShr) return mkZExt(mkExtract(a, n, w - n), w);
        if (k == KAShr) return mkSExt(mkExtract(a, n, w - n), w); }
      break;
    case KUDiv: if (isC(b, 1)) return a;
      if (isC(b) && b->c && !(b->c & (b->c - 1))) { unsigned n = 0; while ((b->c >> n) != 1) n++; return mkBin(KLShr, a, mkConst(n, w)); }
      if (a->k == KZExt && b->k == KZExt && a->a[0]->w == b->a[0]->w && isC(b)) return mkZExt(mkBin(KUDiv, a->a[0], b->a[0]), w);
      if (a->k == KZExt && isC(b) && b->c <= maskw(a->a[0]->w) && b->c) return mkZExt(mkBin(KUDiv, a->a[0], mkConst(b->c, a->a[0]->w)), w);
      { i128 l, h, l2, h2; if (w <= 64 && isC(b) && srange(a, l, h) && srange(b, l2, h2) && l >= 0 && l2 > h) return mkConst(0, w); }
      break;
    case KURem: if (isC(b, 1)) return mkConst(0, w);
      if (isC(b) && b->c && !(b->c & (b->c - 1))) return mkBin(KAnd, a, mkConst(b->c - 1, w));
      if (a->k == KZExt && isC(b) && b->c <= maskw(a->a[0]->w) && b->c) return mkZExt(mkBin(KURem, a->a[0], mkConst(b->c, a->a[0]->w)), w);
      { i128 l, h, l2, h2; if (w <= 64 && isC(b) && srange(a, l, h) && srange(b, l2, h2) && l >= 0 && l2 > h) return a; }
      break;
    case KSDiv: if (isC(b, 1)) return a; if (nonneg(a) && nonneg(b)) return mkBin(KUDiv, a, b); break;
    case KSRem: if (nonneg(a) && nonneg(b)) return mkBin(KURem, a, b); break;
    default: break;
  }
  return intern(k, w, 0, 0, a, b);
}
E mkConcat(E h, E l) {
  unsigned w = h->w + l->w;
  if (isC(h) && isC(l)) return fold2(KConcat, w, h, l);
  if (isC(h, 0)) return mkZExt(l, w);
  if (h->k == KZExt && !isC(h)) return mkZExt(mkConcat(h->a[0], l), w);
  if (h->k == KExtract && l->k == KExtract && h->a[0] == l->a[0] && l->aux + l->w == h->aux) return mkExtract(h->a[0], l->aux, w);
  if (h->k == KExtract && h->aux == l->w && mkExtract(h->a[0], 0, l->w) == l) return mkExtract(h->a[0], 0, w);
  if (h->k == KConcat && h->a[1]->k == KExtract && h->a[1]->aux == l->w && mkExtract(h->a[1]->a[0], 0, l->w) == l) return mkConcat(h->a[0], mkExtract(h->a[1]->a[0], 0, l->w + h->a[1]->w));
  // l is whole narrower value and h extract of same? e.g. l=Extract(x,0), handled. sext pattern: h = extract(sext x)
  if (h->k == KConcat && h->a[1]->k == KExtract && l->k == KExtract && h->a[1]->a[0] == l->a[0] && l->aux + l->w == h->a[1]->aux) return mkConcat(h->a[0], mkExtract(l->a[0], l->aux, l->w + h->a[1]->w));
  if (h->k == KIte && l->k == KIte && h->a[0] == l->a[0]) return mkIte(h->a[0], mkConcat(h->a[1], l->a[1]), mkConcat(h->a[2], l->a[2]));
  if (h->k == KIte && isC(l) ) return mkIte(h->a[0], mkConcat(h->a[1], l), mkConcat(h->a[2], l));
  if (l->k == KIte && isC(h) ) return mkIte(l->a[0], mkConcat(h, l->a[1]), mkConcat(h, l->a[2]));
  if (h->k == KConcat && isC(h->a[1]) && isC(l)) return mkConcat(h->a[0], fold2(KConcat, h->a[1]->w + l->w, h->a[1], l));
  // replicated sign bits: h = sext-from-l-top
  if (h->k == KSExt && h->a[0]->k == KExtract && h->a[0]->w == 1 && h->a[0]->a[0] == l && h->a[0]->aux == l->w - 1u) return mkSExt(l, w);
  return intern(KConcat, w, 0, 0, h, l);
}
static E mkExtract0(E a, unsigned off, unsigned w);
E mkExtract(E a, unsigned off, unsigned w) {
  if (off == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->c >> off, w);
  switch (a->k) { case KIte: case KAdd: case KSub: case KMul: case KAnd: case KOr: case KXor: break; default: return mkExtract0(a, off, w); }
  static std::unordered_map<u64, E> memo; u64 k = ((u64)a->id << 16) | (u64)(off & 255) << 8 | (w & 255); auto it = memo.find(k); if (it != memo.end()) return it->second;
  if (memo.size() > 8000000) memo.clear(); E r = mkExtract0(a, off, w); memo[k] = r; return r;
}
static E mkExtract0(E a, unsigned off, unsigned w) {
  if (off == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->c >> off, w);
  switch (a->k) {
    case KExtract: return mkExtract(a->a[0], a->aux + off, w);
    case KConcat: { unsigned lw = a->a[1]->w; if (off + w <= lw) return mkExtract(a->a[1], off, w); if (off >= lw) return mkExtract(a->a[0], off - lw, w);
        return mkConcat(mkExtract(a->a[0], 0, off + w - lw), mkExtract(a->a[1], off, lw - off)); }
    case KZExt: { unsigned iw = a->a[0]->w; if (off >= iw) return mkConst(0, w); if (off + w <= iw) return mkExtract(a->a[0], off, w); if (off == 0) return mkZExt(a->a[0], w); return mkZExt(mkExtract(a->a[0], off, iw - off), w); }
    case KSExt: { unsigned iw = a->a[0]->w; if (off + w <= iw) return mkExtract(a->a[0], off, w); if (off == 0) return mkSExt(a->a[0], w); if (off < iw) return mkSExt(mkExtract(a->a[0], off, iw - off), w); return mkSExt(mkExtract(a->a[0], iw - 1, 1), w); }
    case KIte: { if (isC(a->a[1]) || isC(a->a[2]) || true) return mkIte(a->a[0], mkExtract(a->a[1], off, w), mkExtract(a->a[2], off, w)); }
    case KAnd: case KOr: case KXor: return mkBin(a->k, mkExtract(a->a[0], off, w), mkExtract(a->a[1], off, w));
    case KAdd: case KSub: case KMul: if (off == 0) return mkBin(a->k, mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w)); break;
    default: break;
  }
  return intern(KExtract, w, off, 0, a);
}
E mkZExt(E a, unsigned w) {
  if (w == a->w) return a; if (isC(a)) return mkConst(a->c, w);
  if (a->k == KZExt) return mkZExt(a->a[0], w);
  if (a->k == KIte && (isC(a->a[1]) || isC(a->a[2]))) return mkIte(a->a[0], mkZExt(a->a[1], w), mkZExt(a->a[2], w));
  return intern(KZExt, w, 0, 0, a);
}
E mkSExt(E a, unsigned w) {
  if (w == a->w) return a; if (isC(a)) return fold1(KSExt, w, a);
  if (a->k == KSExt) return mkSExt(a->a[0], w);
  if (a->k == KZExt) return mkZExt(a->a[0], w);
  if (a->w > 1) { i128 l, h; if (srange(a, l, h) && l >= 0) return mkZExt(a, w); }
  if (a->k == KIte && (isC(a->a[1]) || isC(a->a[2]))) return mkIte(a->a[0], mkSExt(a->a[1], w), mkSExt(a->a[2], w));
  return intern(KSExt, w, 0, 0, a);
}
E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b; if (a == b) return a;
  if (a->w == 1 && isC(a) && isC(b)) return a->c ? c : mkNot(c);
  if (a->w == 1) { if (isC(a, 1)) return mkOr1(c, b); if (isC(a, 0)) return mkAnd1(mkNot(c), b); if (isC(b, 0)) return mkAnd1(c, a); if (isC(b, 1)) return mkOr1(mkNot(c), a); }
  if (c->k == KXor && isC(c->a[1], 1)) return mkIte(c->a[0], b, a);
  if (a->k == KIte && a->a[0] == c) a = a->a[1];
  if (b->k == KIte && b->a[0] == c) b = b->a[2];
  if (a == b) return a;
  if (b->k == KIte && b->a[1] == a) return mkIte(mkOr1(c, b->a[0]), a, b->a[2]);
  if (a->k == KIte && a->a[2] == b) return mkIte(mkAnd1(c, a->a[0]), a->a[1], b);
  // ite(c, zext x, zext y)
  if (a->k == KZExt && b->k == KZExt && a->a[0]->w == b->a[0]->w) return mkZExt(intern(KIte, a->a[0]->w, 0, 0, c, a->a[0], b->a[0]), a->w);
  return intern(KIte, a->w, 0, 0, c, a, b);
}

// ---- polynomial normal form (arithmetic modulo 2^w) used to decide equalities of integer terms ----------
typedef std::vector<u64> Mono;                       // sorted atom keys; atom key = id*2 + (1 if sign-extended)
typedef std::map<Mono, u128> Poly;
static int polyBudget;
static bool exactArith(E e) { // the w-bit result of + - * equals the mathematical one (signed)
  i128 a0, a1, b0, b1, lo, hi, fl, fh; if (e->w > 64 || e->w < 2) return false; srange(e->a[0], a0, a1); srange(e->a[1], b0, b1);
  if (e->k == KAdd) { lo = a0 + b0; hi = a1 + b1; } else if (e->k == KSub) { lo = a0 - b1; hi = a1 - b0; } else { i128 p[4] = {a0 * b0, a0 * b1, a1 * b0, a1 * b1}; lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4); }
  full(e->w, fl, fh); return lo >= fl && hi <= fh; }
// value of e (width e->w, interpreted signed if sg) as a polynomial modulo 2^w
static bool poly(E e, bool sg, unsigned w, Poly& out) {
  if (--polyBudget < 0) return false;
  bool same = e->w >= w;   // extension interpretation does not matter
  i128 l, h; if (e->w <= 64 && e->w > 1) { srange(e, l, h); if (l >= 0) sg = true; }   // nonnegative: both readings agree
  if (isC(e)) { u128 v = (sg && e->w < w && e->w > 1) ? (u128)sx(e->c, e->w) : e->c; v &= maskw(w); if (v) out[Mono()] = v; return true; }
  if ((e->k == KAdd || e->k == KSub || e->k == KMul) && e->w > 1 && (same || (sg && exactArith(e)))) {
    Poly a, b; if (!poly(e->a[0], true, w, a) || !poly(e->a[1], true, w, b)) return false;
    if (e->k == KMul) { if (a.size() * b.size() > 4096) return false; for (auto& x : a) for (auto& y : b) { if (--polyBudget < 0) return false; Mono m = x.first; m.insert(m.end(), y.first.begin(), y.first.end()); std::sort(m.begin(), m.end()); u128& c = out[m]; c = (c + x.second * y.second) & maskw(w); } }
    else { out.swap(a); for (auto& y : b) { if (--polyBudget < 0) return false; u128& c = out[y.first]; c = (e->k == KAdd ? c + y.second : c - y.second) & maskw(w); } }
    for (auto i = out.begin(); i != out.end();) if (!i->second) i = out.erase(i); else ++i; return true; }
  { E c = nullptr; u128 k1 = 0, k0 = 0;   // booleans as 0/1
    if (e->k == KZExt && e->a[0]->w == 1) { c = e->a[0]; k1 = 1; }
    else if (e->k == KIte && isC(e->a[1]) && isC(e->a[2]) && e->w > 1) { c = e->a[0]; k1 = (sg && !same) ? (u128)sx(e->a[1]->c, e->w) : e->a[1]->c; k0 = (sg && !same) ? (u128)sx(e->a[2]->c, e->w) : e->a[2]->c; }
    if (c) { if (c->k == KXor && isC(c->a[1], 1)) { c = c->a[0]; std::swap(k1, k0); } k0 &= maskw(w); k1 = (k1 - k0) & maskw(w); if (k0) out[Mono()] = k0; if (k1) out[Mono(1, (u64)c->id * 2)] = k1; return true; } }
  if (e->k == KZExt && e->a[0]->w > 1) return poly(e->a[0], false, w, out);
  if (e->k == KSExt && e->a[0]->w > 1 && (same || sg)) return poly(e->a[0], true, w, out);
  if (e->k == KConcat && isC(e->a[1], 0) && e->w >= w && e->a[1]->w < w) { unsigned n = e->a[1]->w; Poly a; if (!poly(e->a[0], false, w, a)) return false; for (auto& x : a) { u128 c = (x.second << n) & maskw(w); if (c) out[x.first] = c; } return true; }
  out[Mono(1, (u64)e->id * 2 + ((!same && sg && e->w > 1) ? 1 : 0))] = 1; return true;
}
// 1 equal, 0 different, -1 unknown
static int polyEq(E a, E b) {
  if (a->w < 8 || a->w > 64) return -1; auto ar = [](E e) { while (e->k == KZExt || e->k == KSExt) e = e->a[0]; return e->k == KAdd || e->k == KSub || e->k == KMul || e->k == KConcat; };
  if (!ar(a) && !ar(b)) return -1;
  polyBudget = 60000; Poly x, y; if (!poly(a, false, a->w, x) || !poly(b, false, a->w, y)) return -1;
  if (x == y) return 1; u128 ca = 0, cb = 0; auto i = x.find(Mono()); if (i != x.end()) { ca = i->second; x.erase(i); } i = y.find(Mono()); if (i != y.end()) { cb = i->second; y.erase(i); }
  return x == y && ca != cb ? 0 : -1;
}
bool constDiff(E a, E b, u128& d) { if (a->w != b->w || a->w > 64) return false; if (a == b) { d = 0; return true; } polyBudget = 60000; Poly x, y; if (!poly(a, false, a->w, x) || !poly(b, false, a->w, y)) return false;
  for (auto& q : y) { u128& c = x[q.first]; c = (c - q.second) & maskw(a->w); } for (auto i = x.begin(); i != x.end();) if (!i->second) i = x.erase(i); else ++i;
  if (x.empty()) { d = 0; return true; } if (x.size() == 1 && x.begin()->first.empty()) { d = x.begin()->second; return true; } return false; }
// a == b whose difference is k*x - k*y with no wrap-around: x == y
static E polyCancel(E a, E b) {
  auto ar = [](E e) { while (e->k == KZExt || e->k == KSExt) e = e->a[0]; return e->k == KAdd || e->k == KSub || e->k == KMul || e->k == KConcat; };
  if (a->w < 8 || a->w > 64 || (!ar(a) && !ar(b))) return nullptr;
  polyBudget = 2000; Poly x, y; if (!poly(a, false, a->w, x) || !poly(b, false, a->w, y)) return nullptr;
  for (auto& q : y) { u128& c = x[q.first]; c = (c - q.second) & maskw(a->w); } for (auto i = x.begin(); i != x.end();) if (!i->second) i = x.erase(i); else ++i;
  if (x.size() != 2) return nullptr; auto i = x.begin(), j = std::next(i); if (i->first.size() != 1 || j->first.size() != 1) return nullptr; i128 k = sx(i->second, a->w), k2 = sx(j->second, a->w); if (k != -k2) return nullptr; if (k < 0) k = -k;
  E p = &arena[i->first[0] >> 1], q = &arena[j->first[0] >> 1]; bool sp = i->first[0] & 1, sq = j->first[0] & 1; if (p->w == 1 || q->w == 1 || p->w > a->w || q->w > a->w) return nullptr;
  if (p == a || q == a || p == b || q == b) return nullptr;
  unsigned w = a->w; E P = p->w == w ? p : sp ? mkSExt(p, w) : mkZExt(p, w), Q = q->w == w ? q : sq ? mkSExt(q, w) : mkZExt(q, w);
  i128 l, h, l2, h2; srange(P, l, h); srange(Q, l2, h2); i128 m = std::max(std::max(h - l2, h2 - l), (i128)1); if (m > ((i128)1 << 62) || m * k >= ((i128)1 << (w - 1))) return nullptr;
  if (P == a || P == b || Q == a || Q == b) return nullptr;
  static int depth; if (depth > 3) return nullptr; depth++; E r = mkEq(P, Q); depth--; return r;
}
// one representative per polynomial, so that equal sums written in different orders become one term
static std::map<std::string, E> polyRep; static std::unordered_map<uint32_t, E> repMemo;
static E polyCanon(E x) {
  if (x->k != KAdd && x->k != KSub && x->k != KMul) return x; auto it = repMemo.find(x->id); if (it != repMemo.end()) return it->second;
  polyBudget = 30000; Poly p; E r = x;
  if (poly(x, false, x->w, p) && p.size() <= 400) { std::string k; k.append((const char*)&x->w, 2); for (auto& m : p) { k.append((const char*)&m.second, 16); uint32_t n = m.first.size(); k.append((const char*)&n, 4); k.append((const char*)m.first.data(), 8 * n); }
    if (p.empty()) r = mkConst(0, x->w); else if (p.size() == 1 && p.begin()->first.empty()) r = mkConst(p.begin()->second, x->w);
    else { E& q = polyRep[k]; if (!q) q = x; r = q; if (r != x) { i128 l, h, l2, h2; srange(r, l, h); srange(x, l2, h2); Expr* m = const_cast<Expr*>(r); m->lo = std::max(l, l2); m->hi = std::min(h, h2); } } }
  return repMemo[x->id] = r;
}
static std::unordered_map<u64, int> polyMemo;
static int polyEqM(E a, E b) { u64 k = ((u64)a->id << 32) | b->id; auto it = polyMemo.find(k); if (it != polyMemo.end()) return it->second; if (polyMemo.size() > 2000000) polyMemo.clear(); return polyMemo[k] = polyEq(a, b); }
E mkEq(E a, E b) {
  if (a == b) return T(); if (isC(a) && isC(b)) return a->c == b->c ? T() : Fa();
  if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  if (a->w == 1) { if (isC(b)) return b->c ? a : mkNot(a); }
  if (isC(b)) {
    u128 c = b->c;
    if (a->k == KZExt) { if (c >> a->a[0]->w) return Fa(); return mkEq(a->a[0], mkConst(c, a->a[0]->w)); }
    if (a->k == KSExt) { unsigned iw = a->a[0]->w; E t = mkConst(c, iw); if ((foldOp(KSExt, a->w, 0, &t->c, &t->w, 0)) != c) return Fa(); return mkEq(a->a[0], t); }
    if (a->k == KAdd && isC(a->a[1])) return mkEq(a->a[0], mkConst(c - a->a[1]->c, a->w));
    if (a->k == KXor && isC(a->a[1])) return mkEq(a->a[0], mkConst(c ^ a->a[1]->c, a->w));
    if (a->k == KConcat) { unsigned lw = a->a[1]->w; return mkAnd1(mkEq(a->a[0], mkConst(c >> lw, a->a[0]->w)), mkEq(a->a[1], mkConst(c, lw))); }
    if (a->k == KIte && (isC(a->a[1]) || isC(a->a[2]))) { return mkIte(a->a[0], mkEq(a->a[1], b), mkEq(a->a[2], b)); }
    if (a->w <= 64 && a->w > 1) { i128 l, h; srange(a, l, h); i128 v = sx(c, a->w); if (v < l || v > h) return Fa(); }
  } else {
    if (a->k == KZExt && b->k == KZExt) { if (a->a[0]->w == b->a[0]->w) return mkEq(a->a[0], b->a[0]); unsigned m = std::max(a->a[0]->w, b->a[0]->w); return mkEq(mkZExt(a->a[0], m), mkZExt(b->a[0], m)); }
    if (a->k == KSExt && b->k == KSExt && a->a[0]->w == b->a[0]->w) return mkEq(a->a[0], b->a[0]);
    if (a->k == KConcat && b->k == KConcat && a->a[1]->w == b->a[1]->w) { if (a->a[1] == b->a[1]) return mkEq(a->a[0], b->a[0]); if (isC(a->a[1]) && isC(b->a[1])) return Fa(); if (a->a[0] == b->a[0]) return mkEq(a->a[1], b->a[1]); }
    if (a->k == KAdd && isC(a->a[1]) && b->k == KAdd && a->a[1] == b->a[1]) return mkEq(a->a[0], b->a[0]);
    if (a->w <= 64 && a->w > 1) { i128 l, h, l2, h2; srange(a, l, h); srange(b, l2, h2); if (h < l2 || h2 < l) return Fa(); }
    if (a->k == KIte && a->a[1] == b) return mkOr1(a->a[0], mkEq(a->a[2], b));
    if (b->k == KIte && b->a[1] == a) return mkOr1(b->a[0], mkEq(b->a[2], a));
    if (a->k == KIte && b->k == KIte && a->a[0] == b->a[0]) return mkIte(a->a[0], mkEq(a->a[1], b->a[1]), mkEq(a->a[2], b->a[2]));
    { int q = polyEqM(a, b); if (q == 1) return T(); if (q == 0) return Fa(); if (E c = polyCancel(a, b)) return c; }
    // equal FP conversions of integers
    if (a->k == KSIToF && b->k == KSIToF) { i128 l, h, l2, h2; srange(a->a[0], l, h); srange(b->a[0], l2, h2); i128 m = (i128)1 << (a->w == 32 ? 24 : 53); if (l >= -m && h <= m && l2 >= -m && h2 <= m) return mkEq(a->a[0], b->a[0]); }
  }
  return intern(KEq, 1, 0, 0, a, b);
}
static bool ur(E x, i128& l, i128& h) { if (x->w > 64) return false; srange(x, l, h); if (x->w > 1 && l < 0) { if (h < 0) { l += (i128)1 << x->w; h += (i128)1 << x->w; } else { l = 0; h = ((i128)1 << x->w) - 1; } } return true; }
static E cmpNarrow(K k, E a, E b) {
  // both zero-extended to same width or const fits: compare narrow unsigned
  if (a->k == KZExt && b->k == KZExt) { unsigned m = std::max(a->a[0]->w, b->a[0]->w); return k == KUlt ? mkUlt(mkZExt(a->a[0], m), mkZExt(b->a[0], m)) : mkUle(mkZExt(a->a[0], m), mkZExt(b->a[0], m)); }
  if (a->k == KZExt && isC(b) && (b->c >> a->a[0]->w) == 0) return k == KUlt ? mkUlt(a->a[0], mkConst(b->c, a->a[0]->w)) : mkUle(a->a[0], mkConst(b->c, a->a[0]->w));
  if (b->k == KZExt && isC(a) && (a->c >> b->a[0]->w) == 0) return k == KUlt ? mkUlt(mkConst(a->c, b->a[0]->w), b->a[0]) : mkUle(mkConst(a->c, b->a[0]->w), b->a[0]);
  return nullptr;
}
static E cmpIte(K k, E a, E b) {
  auto f = [&](E x, E y) { return k == KUlt ? mkUlt(x, y) : k == KUle ? mkUle(x, y) : k == KSlt ? mkSlt(x, y) : mkSle(x, y); };
  if (a->k == KIte && isC(b) && (isC(a->a[1]) || isC(a->a[2]))) return mkIte(a->a[0], f(a->a[1], b), f(a->a[2], b));
  if (b->k == KIte && isC(a) && (isC(b->a[1]) || isC(b->a[2]))) return mkIte(b->a[0], f(a, b->a[1]), f(a, b->a[2]));
  return nullptr;
}
E mkUlt(E a, E b) {
  if (a == b) return Fa(); if (isC(a) && isC(b)) return fold2(KUlt, 1, a, b);
  if (a->w == 1) return mkAnd1(mkNot(a), b);
  i128 l, h, l2, h2; if (ur(a, l, h) && ur(b, l2, h2)) { if (h < l2) return T(); if (l >= h2) return Fa(); }
  if (E r = cmpNarrow(KUlt, a, b)) return r; if (E r = cmpIte(KUlt, a, b)) return r;
  if (isC(b, 1)) return mkEq(a, mkConst(0, a->w));
  return intern(KUlt, 1, 0, 0, a, b);
}
E mkUle(E a, E b) {
  if (a == b) return T(); if (isC(a) && isC(b)) return fold2(KUle, 1, a, b);
  if (a->w == 1) return mkOr1(mkNot(a), b);
  i128 l, h, l2, h2; if (ur(a, l, h) && ur(b, l2, h2)) { if (h <= l2) return T(); if (l > h2) return Fa(); }
  if (E r = cmpNarrow(KUle, a, b)) return r; if (E r = cmpIte(KUle, a, b)) return r;
  if (isC(b, 0)) return mkEq(a, b);
  return intern(KUle, 1, 0, 0, a, b);
}
E mkSlt(E a, E b) {
  if (a == b) return Fa(); if (isC(a) && isC(b)) return fold2(KSlt, 1, a, b);
  if (a->w == 1) return mkAnd1(a, mkNot(b));
  i128 l, h, l2, h2; if (a->w <= 64) { srange(a, l, h); srange(b, l2, h2); if (h < l2) return T(); if (l >= h2) return Fa(); if (l >= 0 && l2 >= 0) return mkUlt(a, b); }
  if (a->k == KSExt && b->k == KSExt) { unsigned m = std::max(a->a[0]->w, b->a[0]->w); return mkSlt(mkSExt(a->a[0], m), mkSExt(b->a[0], m)); }
  if (a->k == KSExt && isC(b)) { unsigned iw = a->a[0]->w; if (sx(mkConst(b->c, iw)->c, iw) == sx(b->c, b->w)) return mkSlt(a->a[0], mkConst(b->c, iw)); }
  if (b->k == KSExt && isC(a)) { unsigned iw = b->a[0]->w; if (sx(mkConst(a->c, iw)->c, iw) == sx(a->c, a->w)) return mkSlt(mkConst(a->c, iw), b->a[0]); }
  if (E r = cmpIte(KSlt, a, b)) return r;
  return intern(KSlt, 1, 0, 0, a, b);
}
E mkSle(E a, E b) {
  if (a == b) return T(); if (isC(a) && isC(b)) return fold2(KSle, 1, a, b);
  if (a->w == 1) return mkOr1(a, mkNot(b));
  i128 l, h, l2, h2; if (a->w <= 64) { srange(a, l, h); srange(b, l2, h2); if (h <= l2) return T(); if (l > h2) return Fa(); if (l >= 0 && l2 >= 0) return mkUle(a, b); }
  if (a->k == KSExt && b->k == KSExt) { unsigned m = std::max(a->a[0]->w, b->a[0]->w); return mkSle(mkSExt(a->a[0], m), mkSExt(b->a[0], m)); }
  if (a->k == KSExt && isC(b)) { unsigned iw = a->a[0]->w; if (sx(mkConst(b->c, iw)->c, iw) == sx(b->c, b->w)) return mkSle(a->a[0], mkConst(b->c, iw)); }
  if (b->k == KSExt && isC(a)) { unsigned iw = b->a[0]->w; if (sx(mkConst(a->c, iw)->c, iw) == sx(a->c, a->w)) return mkSle(mkConst(a->c, iw), b->a[0]); }
  if (E r = cmpIte(KSle, a, b)) return r;
  return intern(KSle, 1, 0, 0, a, b);
}
// ---- floating point ---------------------------------------------------------
static double cD(E e) { return e->w == 32 ? (double)asF(e->c) : asD(e->c); }
// e is exactly (returned 64-bit integer) * 2^-s; negz set if e may be -0.0 when the integer is 0
static bool within(E e, i128 m) { i128 l, h; srange(e, l, h); return l >= -m && h <= m; }
static E shl64(E x, unsigned d) { return d ? mkBin(KMul, x, mkConst((u128)1 << d, 64)) : x; }
struct FixR { E e; bool nz; unsigned s; };
static std::unordered_map<uint32_t, FixR> fixMemo;
static E asFix(E e, bool& negz, unsigned& s) {
  negz = false; s = 0;
  if (e->k == KConst) { double d = cD(e); if (d != d || std::fabs(d) > 9007199254740992.0) return nullptr; while (d != std::floor(d) && s < 40) { d *= 2; s++; } if (d != std::floor(d) || std::fabs(d) > 9007199254740992.0) return nullptr; if (d == 0 && std::signbit(d)) negz = true; return mkConst((u128)(i128)(i64)d, 64); }
  i128 m = (i128)1 << (e->w == 32 ? 24 : 53);
  if (e->k == KSIToF) return within(e->a[0], m) ? e->a[0] : nullptr;
  if (e->k != KFMul && e->k != KIte && e->k != KFExt) return nullptr;
  auto it = fixMemo.find(e->id); if (it != fixMemo.end()) { negz = it->second.nz; s = it->second.s; return it->second.e; }
  E r = nullptr; bool n1, n2; unsigned s1, s2; E x, y;
  if (e->k == KFMul) { if ((x = asFix(e->a[0], n1, s1)) && (y = asFix(e->a[1], n2, s2)) && s1 + s2 <= 60 && within(x, (i128)1 << 53) && within(y, (i128)1 << 53)) {
      i128 a0, a1, b0, b1; srange(x, a0, a1); srange(y, b0, b1); i128 p = std::max(a1, -a0) * std::max(b1, -b0); if (p <= m) { r = mkBin(KMul, x, y); s = s1 + s2; negz = n1 || n2 || !((a0 >= 0 && b0 >= 0) || a0 > 0 || b0 > 0); } } }
  else if (e->k == KIte) { if ((x = asFix(e->a[1], n1, s1)) && (y = asFix(e->a[2], n2, s2))) { unsigned q = std::max(s1, s2); i128 lim = (i128)1 << 62; if (q == std::min(s1, s2) || (within(x, lim >> (q - s1)) && within(y, lim >> (q - s2)))) { s = q; negz = n1 || n2; r = mkIte(e->a[0], shl64(x, q - s1), shl64(y, q - s2)); } } }
  else r = asFix(e->a[0], negz, s);
  if (!r) { negz = false; s = 0; } fixMemo[e->id] = {r, negz, s}; return r;
}
static E asInt(E e, bool& negz) { unsigned s; E r = asFix(e, negz, s); return s ? nullptr : r; }
// both at the same scale
static bool asFix2(E a, E b, E& x, E& y, bool& na, bool& nb, unsigned& s) {
  unsigned s1, s2; if (!(x = asFix(a, na, s1)) || !(y = asFix(b, nb, s2))) return false; s = std::max(s1, s2); i128 lim = (i128)1 << 60; if (!within(x, lim >> (s - s1)) || !within(y, lim >> (s - s2))) return false; x = shl64(x, s - s1); y = shl64(y, s - s2); return true;
}
static E mkFix(E r, unsigned s, unsigned w) {
  E f = mkSIToF(r, w); if (!s) return f; E c = mkF(std::ldexp(1.0, -(int)s), w); if (isC(f)) return fold2(KFMul, w, f, c);
  if (f->k == KIte) return mkIte(f->a[0], mkFBin(KFMul, f->a[1], c), mkFBin(KFMul, f->a[2], c));
  E a = f, b = c; if (a->id > b->id) std::swap(a, b); return intern(KFMul, w, 0, 0, a, b);
}
static E fixFloor(E x, unsigned s) { return mkBin(KAShr, x, mkConst(s, 64)); }
static E fixRne(E x, unsigned s) { E q = fixFloor(x, s), rem = mkBin(KAnd, x, mkConst(((u128)1 << s) - 1, 64)), half = mkConst((u128)1 << (s - 1), 64), up = mkOr1(mkSlt(half, rem), mkAnd1(mkEq(rem, half), mkExtract(q, 0, 1))); return mkBin(KAdd, q, mkZExt(up, 64)); }
static E fixTrunc(E x, unsigned s) { i128 l, h; srange(x, l, h); E z = mkConst(0, 64); if (l >= 0) return fixFloor(x, s); return mkIte(mkSlt(x, z), mkBin(KSub, z, fixFloor(mkBin(KSub, z, x), s)), fixFloor(x, s)); }
static bool fitsF(E i, unsigned w) { i128 l, h; srange(i, l, h); i128 m = (i128)1 << (w == 32 ? 24 : 53); return l >= -m && h <= m; }
// conservative bounds of a floating-point term; false when it may be NaN/infinite or nothing is known
static std::unordered_map<uint32_t, std::pair<double, double>> frMemo; static int frDepth = 0;
static bool frange(E e, double& lo, double& hi) {
  if (e->k == KConst) { lo = hi = cD(e); return std::isfinite(lo); }
  auto it = frMemo.find(e->id); if (it != frMemo.end()) { lo = it->second.first; hi = it->second.second; return lo <= hi; }
  if (frDepth > 1500) return false; frDepth++; bool ok = false; double a, b, c, d;
  switch (e->k) {
    case KSIToF: { i128 l, h; srange(e->a[0], l, h); lo = (double)(i64)l; hi = (double)(i64)h; ok = true; break; }
    case KUIToF: lo = 0; hi = 1.9e19; ok = true; break;
    case KFExt: case KFTrunc: ok = frange(e->a[0], lo, hi); break;
    case KFAdd: ok = frange(e->a[0], a, b) && frange(e->a[1], c, d); lo = a + c; hi = b + d; break;
    case KFSub: ok = frange(e->a[0], a, b) && frange(e->a[1], c, d); lo = a - d; hi = b - c; break;
    case KFMul: ok = frange(e->a[0], a, b) && frange(e->a[1], c, d); if (ok) { double p[4] = {a * c, a * d, b * c, b * d}; lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4); if (e->a[0] == e->a[1]) lo = std::max(lo, 0.0); } break;
    case KFDiv: ok = frange(e->a[0], a, b) && frange(e->a[1], c, d) && (c > 1e-300 || d < -1e-300); if (ok) { double p[4] = {a / c, a / d, b / c, b / d}; lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4); } break;
    case KFSqrt: ok = frange(e->a[0], a, b) && a >= 0; lo = ok ? std::sqrt(a) : 0; hi = ok ? std::sqrt(b) : 0; break;
    case KFRnd: ok = frange(e->a[0], lo, hi); lo = std::floor(lo); hi = std::ceil(hi); break;
    case KIte: ok = frange(e->a[1], a, b) && frange(e->a[2], c, d); lo = std::min(a, c); hi = std::max(b, d); break;
    default: break;
  }
  frDepth--;
  if (ok && e->k != KIte && e->k != KFExt) { double m = std::max(std::fabs(lo), std::fabs(hi)) * 1e-6 + 1e-37; bool z = lo >= 0, y = hi <= 0; lo -= m; hi += m; if (z) lo = std::max(lo, 0.0); if (y) hi = std::min(hi, 0.0); }   // rounding is monotone and keeps zero
  if (ok && !(std::fabs(lo) < (e->w == 32 ? 1e38 : 1e300) && std::fabs(hi) < (e->w == 32 ? 1e38 : 1e300))) ok = false;
  frMemo[e->id] = ok ? std::make_pair(lo, hi) : std::make_pair(1.0, 0.0); return ok;
}
static bool nonNan(E e) {
  double a, b; if (isC(e)) { double d = cD(e); return d == d; } if (frange(e, a, b)) return true;
  if (e->k == KFExt || e->k == KFTrunc || e->k == KFRnd) return nonNan(e->a[0]);
  if (e->k == KIte) return nonNan(e->a[1]) && nonNan(e->a[2]);
  bool nz; return asInt(e, nz) != nullptr;
}
E mkFBin(K k, E a, E b) {
  unsigned w = a->w; if (isC(a) && isC(b)) return fold2(k, w, a, b);
  if ((k == KFAdd || k == KFMul) && a->id > b->id) std::swap(a, b);   // commutative (NaN payload ignored)
  if (k == KFMul && a == b) {   // squares: |v|*|v| = (-v)*(-v) = v*v, (x-y)^2 = (y-x)^2 (NaN sign ignored)
    for (int q = 0; q < 2; q++) if ((a->k == KAnd || a->k == KXor) && a->a[q] && isC(a->a[q])) { u128 sg = (u128)1 << (w - 1); if (a->a[q]->c == (a->k == KAnd ? sg - 1 : sg)) return mkFBin(KFMul, a->a[1 - q], a->a[1 - q]); }
    if (a->k == KFSub && a->a[0]->id > a->a[1]->id) { E d = mkFBin(KFSub, a->a[1], a->a[0]); return mkFBin(KFMul, d, d); }
  }
  bool na, nb; E x, y; unsigned sc;
  if (k == KFDiv && isC(b)) { int ex; double fr = std::frexp(std::fabs(cD(b)), &ex); if (fr == 0.5 && ex > -60 && ex < 60) return mkFBin(KFMul, a, mkF(1 / cD(b), w)); }
  if (k == KFAdd || k == KFSub) if (asFix2(a, b, x, y, na, nb, sc)) {
    E r = mkBin(k == KFAdd ? KAdd : KSub, x, y);
    if (fitsF(r, w) && (k == KFAdd ? !(na && nb) : !na)) return mkFix(r, sc, w);
  }
  unsigned s1, s2;
  if (k == KFMul) if ((x = asFix(a, na, s1)) && (y = asFix(b, nb, s2)) && s1 + s2 <= 60) {
    i128 xl, xh, yl, yh; srange(x, xl, xh); srange(y, yl, yh); i128 m = (i128)1 << (w == 32 ? 24 : 53), lim = (i128)1 << 53;
    if (xl >= -lim && xh <= lim && yl >= -lim && yh <= lim && std::max(xh, -xl) * std::max(yh, -yl) <= m)
      if (!na && !nb && (x == y || (xl >= 0 && yl >= 0) || xl > 0 || yl > 0)) return mkFix(mkBin(KMul, x, y), s1 + s2, w);
  }
  if (k == KFMul) { if (isC(a) && cD(a) == 1.0 && nonNan(b)) return b; if (isC(b) && cD(b) == 1.0 && nonNan(a)) return a; }
  if (k == KFDiv && isC(b) && cD(b) == 1.0 && nonNan(a)) return a;
  if (k == KFSub && isC(b) && b->c == 0 && nonNan(a)) return a;
  // distribute over ite with const leaves against const
  if (isC(b) && constLeaves(a)) return mkIte(a->a[0], mkFBin(k, a->a[1], b), mkFBin(k, a->a[2], b));
  if (isC(a) && constLeaves(b)) return mkIte(b->a[0], mkFBin(k, a, b->a[1]), mkFBin(k, a, b->a[2]));
  return intern(k, w, 0, 0, a, b);
}
E mkFSqrt(E a) { if (isC(a)) return fold1(KFSqrt, a->w, a); if (constLeaves(a)) return mkIte(a->a[0], mkFSqrt(a->a[1]), mkFSqrt(a->a[2])); return intern(KFSqrt, a->w, 0, 0, a); }
E mkFRnd(E a, int mode) { if (isC(a)) return fold1(KFRnd, a->w, a, mode); if (a->k == KSIToF) return a; bool nz; unsigned sc; if (E x = asFix(a, nz, sc)) { if (!sc) return a; i128 l, h; srange(x, l, h); if (!nz && (l >= 0 || mode == 1)) { E z = mkConst(0, 64); return mkSIToF(mode == 0 ? fixRne(x, sc) : mode == 2 ? mkBin(KSub, z, fixFloor(mkBin(KSub, z, x), sc)) : mode == 4 ? fixFloor(mkBin(KAdd, x, mkConst((u128)1 << (sc - 1), 64)), sc) : fixFloor(x, sc), a->w); } } if (a->k == KFRnd) return a; if (constLeaves(a)) return mkIte(a->a[0], mkFRnd(a->a[1], mode), mkFRnd(a->a[2], mode)); return intern(KFRnd, a->w, mode, 0, a); }
static E fcmp(K k, E a, E b) {
  if (isC(a) && isC(b)) return fold2(k, 1, a, b);
  bool n1, n2; unsigned sc, s1, s2; E x, y;
  if (asFix2(a, b, x, y, n1, n2, sc)) return k == KFOeq ? mkEq(x, y) : k == KFOlt ? mkSlt(x, y) : mkSle(x, y);
  auto FC = [](E e) { return isC(e) && !(cD(e) != cD(e)); };
  x = asFix(a, n1, s1); y = asFix(b, n2, s2);
  if (x && FC(b)) { // int vs non-integer (or huge) constant
    double d = cD(b); if (std::fabs(d) < 1e250) d = std::ldexp(d, s1); if (k == KFOeq && std::fabs(d) < 9e15) return Fa();
    if (d > 9e15) return k == KFOeq ? Fa() : T(); if (d < -9e15) return Fa();
    return mkSle(x, mkConst((u128)(i128)(i64)std::floor(d), 64)); }
  if (y && FC(a)) { double d = cD(a); if (std::fabs(d) < 1e250) d = std::ldexp(d, s2); if (k == KFOeq && std::fabs(d) < 9e15) return Fa();
    if (d > 9e15) return Fa(); if (d < -9e15) return k == KFOeq ? Fa() : T();
    return mkSle(mkConst((u128)(i128)(i64)std::ceil(d), 64), y); }
  if (isC(a) && !FC(a)) return Fa(); if (isC(b) && !FC(b)) return Fa();
  { double al, ah, bl, bh; if (a != b && frange(a, al, ah) && frange(b, bl, bh)) { if (ah < bl) return k == KFOeq ? Fa() : T(); if (bh < al) return Fa(); if (k == KFOle && ah <= bl) return T(); } }
  if (a->k == KFExt && b->k == KFExt) return fcmp(k, a->a[0], b->a[0]);
  if (a->k == KFExt && isC(b) && (double)(float)cD(b) == cD(b)) return fcmp(k, a->a[0], mkF(cD(b), 32));
  if (b->k == KFExt && isC(a) && (double)(float)cD(a) == cD(a)) return fcmp(k, mkF(cD(a), 32), b->a[0]);
  if (k == KFOeq && a->id > b->id) std::swap(a, b);
  if (a == b) { if (k == KFOlt) return Fa(); return mkNot(mkFNan(a)); }
  if (isC(b) && constLeaves(a)) return mkIte(a->a[0], fcmp(k, a->a[1], b), fcmp(k, a->a[2], b));
  if (isC(a) && constLeaves(b)) return mkIte(b->a[0], fcmp(k, a, b->a[1]), fcmp(k, a, b->a[2]));
  return intern(k, 1, 0, 0, a, b);
}
E mkFOeq(E a, E b) { return fcmp(KFOeq, a, b); }
E mkFOlt(E a, E b) { return fcmp(KFOlt, a, b); }
E mkFOle(E a, E b) { return fcmp(KFOle, a, b); }
E mkFNan(E a) { if (isC(a)) return fold1(KFNan, 1, a); if (nonNan(a)) return Fa(); if (a->k == KFExt) return mkFNan(a->a[0]); return intern(KFNan, 1, 0, 0, a); }
E mkFUno(E a, E b) { return mkOr1(mkFNan(a), mkFNan(b)); }
E mkFToSI(E a, unsigned w, int rne) {
  if (isC(a)) return fold1(KFToSI, w, a, rne);
  bool nz; unsigned sc; if (E x = asFix(a, nz, sc)) { if (sc) x = rne ? fixRne(x, sc) : fixTrunc(x, sc); i128 l, h; srange(x, l, h); if (w == 64) return x; if (l >= -((i128)1 << 31) && h < ((i128)1 << 31)) return mkTrunc(x, w); }
  if (constLeaves(a)) return mkIte(a->a[0], mkFToSI(a->a[1], w, rne), mkFToSI(a->a[2], w, rne));
  if (a->k == KFExt) return mkFToSI(a->a[0], w, rne);
  return intern(KFToSI, w, rne, 0, a);
}
E mkSIToF(E a, unsigned w) { E x = polyCanon(mkSExt(a, 64)); if (isC(x)) return fold1(KSIToF, w, x); if (constLeaves(x)) return mkIte(x->a[0], mkSIToF(x->a[1], w), mkSIToF(x->a[2], w)); return intern(KSIToF, w, 0, 0, x); }
E mkUIToF(E a, unsigned w) { if (a->w < 64) return mkSIToF(mkZExt(a, 64), w); if (nonneg(a)) return mkSIToF(a, w); if (isC(a)) return fold1(KUIToF, w, a); return intern(KUIToF, w, 0, 0, a); }
E mkFExt(E a) { if (isC(a)) return fold1(KFExt, 64, a); if (a->k == KSIToF && fitsF(a->a[0], 32)) return mkSIToF(a->a[0], 64); { bool nz; unsigned sc; E x; if (a->k == KFMul && (x = asFix(a, nz, sc)) && !nz) return mkFix(x, sc, 64); } if (a->k == KIte && (constLeaves(a) || isC(a->a[1]) || isC(a->a[2]))) return mkIte(a->a[0], mkFExt(a->a[1]), mkFExt(a->a[2])); return intern(KFExt, 64, 0, 0, a); }
E mkFTrunc(E a) { if (isC(a)) return fold1(KFTrunc, 32, a); if (a->k == KFExt) return a->a[0]; if (a->k == KFSqrt && a->a[0]->k == KFExt) return mkFSqrt(a->a[0]->a[0]);   // 53 >= 2*24+2: rounding twice is innocuous for the root
  if (a->k == KSIToF && fitsF(a->a[0], 32)) return mkSIToF(a->a[0], 32); { bool nz; unsigned sc; E x; if (a->k == KFMul && (x = asFix(a, nz, sc)) && !nz && within(x, 1 << 24)) return mkFix(x, sc, 32); } if (a->k == KIte && (constLeaves(a) || isC(a->a[1]) || isC(a->a[2]))) return mkIte(a->a[0], mkFTrunc(a->a[1]), mkFTrunc(a->a[2])); return intern(KFTrunc, 32, 0, 0, a); }
E mkUF(const std::string& fn, const std::vector<E>& args, unsigned w) {
  bool all = true; for (E e : args) if (!isC(e)) all = false;
  if (all) { std::vector<u128> v; for (E e : args) v.push_back(e->c); return mkConst(ufConcrete(fn, v, w), w); }
  size_t i = 0; for (; i < g_ufname.size(); i++) if (g_ufname[i] == fn) break; if (i == g_ufname.size()) g_ufname.push_back(fn);
  return intern(KUF, w, i, 0, args[0], args.size() > 1 ? args[1] : nullptr, args.size() > 2 ? args[2] : nullptr);
}
