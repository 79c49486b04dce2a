#include "solver.h"
#include <z3.h>
#include <unordered_set>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <set>
SolverStats g_ss; unsigned g_query_timeout_ms = 120000;
static Z3_context C; static Z3_sort F32, F64; static Z3_ast RNE, RTZ, RTN, RTP, RNA;
static std::unordered_map<uint32_t, Z3_ast> bvc, fpc; static std::vector<E> keepSyms;
static Z3_error_code lasterr; 
static void onerr(Z3_context c, Z3_error_code e) { lasterr = e; fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
static void init() {
  if (C) return; Z3_config cfg = Z3_mk_config(); C = Z3_mk_context(cfg); Z3_set_error_handler(C, onerr);
  F32 = Z3_mk_fpa_sort_32(C); F64 = Z3_mk_fpa_sort_64(C);
  RNE = Z3_mk_fpa_round_nearest_ties_to_even(C); RTZ = Z3_mk_fpa_round_toward_zero(C); RTN = Z3_mk_fpa_round_toward_negative(C); RTP = Z3_mk_fpa_round_toward_positive(C); RNA = Z3_mk_fpa_round_nearest_ties_to_away(C);
}
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(C, w); }
static Z3_ast num(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(C, (u64)v, bvs(w));
  return Z3_mk_concat(C, Z3_mk_unsigned_int64(C, (u64)(v >> 64), bvs(w - 64)), Z3_mk_unsigned_int64(C, (u64)v, bvs(64)));
}
static Z3_ast bv(E e); static Z3_ast fp(E e);
static Z3_ast boolOf(E e) { return bv(e); }  // width-1 terms are Bool
static Z3_ast bvOf(E e) { Z3_ast r = bv(e); if (e->w == 1) return Z3_mk_ite(C, r, num(1, 1), num(0, 1)); return r; }
static const int TAB = 11;
static int supportBits(E e, std::vector<E>& syms, int cap) { syms.clear(); for (E s : symsOf(e)) if (s->k != KUF) syms.push_back(s); int n = 0; for (E s : syms) { n += s->w; if (n > cap) return n; } return n; }
static std::unordered_map<uint32_t, bool> tabbed;
// exact truth-table compilation of small-support FP subterms
static Z3_ast table(E e, const std::vector<E>& syms, int nbits) {
  std::vector<u128> vals((size_t)1 << nbits);
  { // the nodes in dependency order, evaluated together for every value of the inputs
    std::vector<E> order, st{e}; std::unordered_map<uint32_t, int> idx; while (!st.empty()) { E x = st.back(); if (idx.count(x->id)) { st.pop_back(); continue; } bool rdy = true; for (int i = 0; i < x->nk; i++) if (!idx.count(x->a[i]->id)) { st.push_back(x->a[i]); rdy = false; } if (!rdy) continue; idx[x->id] = (int)order.size(); order.push_back(x); st.pop_back(); }
    struct N { E e; int a[3]; uint16_t kw[3]; int sh; }; std::vector<N> nd(order.size()); std::vector<u128> v(order.size());
    for (size_t i = 0; i < order.size(); i++) { E x = order[i]; nd[i].e = x; nd[i].sh = -1; for (int j = 0; j < x->nk; j++) { nd[i].a[j] = idx[x->a[j]->id]; nd[i].kw[j] = x->a[j]->w; } if (x->k == KConst) v[i] = x->c; if (x->k == KSym) { int sh = 0; for (E s : syms) { if (s == x) nd[i].sh = sh; sh += s->w; } } }
    for (u64 t = 0; t < ((u64)1 << nbits); t++) { for (size_t i = 0; i < nd.size(); i++) { N& n = nd[i]; E x = n.e; if (x->k == KConst) continue; if (x->k == KSym) { v[i] = n.sh < 0 ? 0 : (t >> n.sh) & (u64)maskw(x->w); continue; } if (x->k == KIte) { v[i] = v[n.a[0]] ? v[n.a[1]] : v[n.a[2]]; continue; } u128 q[3]; for (int j = 0; j < x->nk; j++) q[j] = v[n.a[j]]; v[i] = x->k == KUF ? ufConcrete(g_ufname[x->aux], std::vector<u128>(q, q + x->nk), x->w) : foldOp(x->k, x->w, x->aux, q, n.kw, x->c); } vals[t] = v.back(); } }
  std::vector<Z3_ast> bits; for (E s : syms) for (unsigned b = 0; b < s->w; b++) bits.push_back(s->w == 1 ? bv(s) : Z3_mk_eq(C, Z3_mk_extract(C, b, b, bv(s)), num(1, 1)));
  std::function<Z3_ast(u64, int)> rec = [&](u64 base, int lvl) -> Z3_ast {
    u64 n = (u64)1 << lvl; bool same = true; for (u64 i = 1; i < n; i++) if (vals[base + i] != vals[base]) { same = false; break; }
    if (same) return e->w == 1 ? (vals[base] ? Z3_mk_true(C) : Z3_mk_false(C)) : num(vals[base], e->w);
    return Z3_mk_ite(C, bits[lvl - 1], rec(base + n / 2, lvl - 1), rec(base, lvl - 1)); };
  return rec(0, nbits);
}
// FP terms over one integer subterm of small range: exact table over that subterm
static bool cutLeaf(E root, E& leaf, i128& lo, i128& hi) {
  static std::unordered_map<uint32_t, E> memo; static E BAD = mkConst(1, 1), NONE = mkConst(0, 1);
  std::function<E(E)> go = [&](E e) -> E { auto it = memo.find(e->id); if (it != memo.end()) return it->second; E r = NONE;
    if (e->k == KConst) r = NONE; else if (e->k == KSIToF) { i128 l, h; srange(e->a[0], l, h); r = h - l < 4096 ? e->a[0] : BAD; }
    else if ((e->k >= KFAdd && e->k != KUIToF) || e->k == KIte || (e->w == 1 && (e->k == KAnd || e->k == KOr || e->k == KXor))) { for (int i = 0; i < e->nk && r != BAD; i++) { E c = go(e->a[i]); if (c == BAD) r = BAD; else if (c != NONE) { if (r == NONE) r = c; else if (r != c) r = BAD; } } }
    else r = BAD; return memo[e->id] = r; };
  leaf = go(root); if (leaf == BAD || leaf == NONE) return false; srange(leaf, lo, hi); return hi - lo < 4096;
}
static u128 evalCut(E e, E leaf, u128 v, std::unordered_map<uint32_t, u128>& memo) {
  if (e == leaf) return v; if (e->k == KConst) return e->c; auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  u128 a[3]; uint16_t kw[3]; for (int i = 0; i < e->nk; i++) { a[i] = evalCut(e->a[i], leaf, v, memo); kw[i] = e->a[i]->w; } if (e->k == KUF) return memo[e->id] = ufConcrete(g_ufname[e->aux], std::vector<u128>(a, a + e->nk), e->w); return memo[e->id] = foldOp(e->k, e->w, e->aux, a, kw, e->c);
}
static Z3_ast bvOf(E e);
static Z3_ast cutTable(E e, E leaf, i128 lo, i128 hi) {
  int n = (int)(hi - lo) + 1; std::vector<u128> vals(n); for (int i = 0; i < n; i++) { std::unordered_map<uint32_t, u128> m; vals[i] = evalCut(e, leaf, (u128)(lo + i) & maskw(leaf->w), m); }
  int nb = 0; while ((1 << nb) < n) nb++; Z3_ast x = bvOf(mkExtract(mkBin(KSub, leaf, mkConst((u128)lo & maskw(leaf->w), leaf->w)), 0, nb ? nb : 1)); vals.resize((size_t)1 << nb, vals.back());
  auto cst = [&](u128 v) { return e->w == 1 ? (v ? Z3_mk_true(C) : Z3_mk_false(C)) : num(v, e->w); };
  std::function<Z3_ast(u64, int)> rec = [&](u64 b, int l) -> Z3_ast { u64 k = (u64)1 << l; bool same = true; for (u64 i = 1; i < k; i++) if (vals[b + i] != vals[b]) { same = false; break; } if (same) return cst(vals[b]);
    return Z3_mk_ite(C, Z3_mk_eq(C, Z3_mk_extract(C, l - 1, l - 1, x), num(1, 1)), rec(b + k / 2, l - 1), rec(b, l - 1)); };
  return rec(0, nb);
}
static Z3_ast intToFp(E i, unsigned w, bool uns) {
  // narrow the integer for a small circuit
  Z3_sort s = w == 32 ? F32 : F64;
  if (!uns) { i128 l, h; srange(i, l, h); unsigned n = 2; while (n < 64 && !(l >= -((i128)1 << (n - 1)) && h < ((i128)1 << (n - 1)))) n++; E t = mkExtract(i, 0, n); return Z3_mk_fpa_to_fp_signed(C, RNE, bv(t), s); }
  return Z3_mk_fpa_to_fp_unsigned(C, RNE, bv(i), s);
}
static Z3_ast fp(E e) {
  auto it = fpc.find(e->id); if (it != fpc.end()) return it->second;
  Z3_ast r; Z3_sort s = e->w == 32 ? F32 : F64;
  std::vector<E> sy; int nb; E cl; i128 c0, c1;
  if (e->k >= KFAdd && (nb = supportBits(e, sy, TAB)) <= TAB) r = Z3_mk_fpa_to_fp_bv(C, bv(e), s);
  else if (e->k >= KFAdd && e->k != KSIToF && cutLeaf(e, cl, c0, c1)) r = Z3_mk_fpa_to_fp_bv(C, bv(e), s);
  else switch (e->k) {
    case KFAdd: r = Z3_mk_fpa_add(C, RNE, fp(e->a[0]), fp(e->a[1])); break;
    case KFSub: r = Z3_mk_fpa_sub(C, RNE, fp(e->a[0]), fp(e->a[1])); break;
    case KFMul: r = Z3_mk_fpa_mul(C, RNE, fp(e->a[0]), fp(e->a[1])); break;
    case KFDiv: r = Z3_mk_fpa_div(C, RNE, fp(e->a[0]), fp(e->a[1])); break;
    case KFRem: { // fmod: x - y*trunc(x/y) has no direct op; z3 rem is IEEE remainder. Use rem-based correction is intricate: leave uninterpreted (fresh)
      r = Z3_mk_fpa_to_fp_bv(C, Z3_mk_fresh_const(C, "fmod", bvs(e->w)), s); break; }
    case KFSqrt: r = Z3_mk_fpa_sqrt(C, RNE, fp(e->a[0])); break;
    case KFRnd: r = Z3_mk_fpa_round_to_integral(C, e->aux == 0 ? RNE : e->aux == 1 ? RTN : e->aux == 2 ? RTP : e->aux == 3 ? RTZ : RNA, fp(e->a[0])); break;
    case KSIToF: r = intToFp(e->a[0], e->w, false); break;
    case KUIToF: r = intToFp(e->a[0], e->w, true); break;
    case KFExt: r = Z3_mk_fpa_to_fp_float(C, RNE, fp(e->a[0]), F64); break;
    case KFTrunc: r = Z3_mk_fpa_to_fp_float(C, RNE, fp(e->a[0]), F32); break;
    case KIte: r = Z3_mk_ite(C, boolOf(e->a[0]), fp(e->a[1]), fp(e->a[2])); break;
    default: r = Z3_mk_fpa_to_fp_bv(C, bv(e), s);
  }
  fpc[e->id] = r; return r;
}
static Z3_ast bv(E root) {
  auto it0 = bvc.find(root->id); if (it0 != bvc.end()) return it0->second;
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back(); if (bvc.count(e->id)) { st.pop_back(); continue; }
    if (e->k == KConst) { bvc[e->id] = e->w == 1 ? (e->c ? Z3_mk_true(C) : Z3_mk_false(C)) : num(e->c, e->w); st.pop_back(); continue; }
    if (e->k == KSym) { std::string n = (e->k == KSym ? g_symname[e->aux] : "uf") + "#" + std::to_string(e->id); bvc[e->id] = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), e->w == 1 ? Z3_mk_bool_sort(C) : bvs(e->w)); st.pop_back(); continue; }
    std::vector<E> sy; int nb;
    if (e->hasfp && (e->k >= KFAdd) && (nb = supportBits(e, sy, TAB)) <= TAB) { bvc[e->id] = table(e, sy, nb); st.pop_back(); continue; }
    { E cl; i128 c0, c1; if (e->hasfp && e->k >= KFAdd && cutLeaf(e, cl, c0, c1)) { Z3_ast t = cutTable(e, cl, c0, c1); bvc[e->id] = t; st.pop_back(); continue; } }
    if (e->k == KUF) { std::string n = std::string("uf") + "#" + std::to_string(e->id); bvc[e->id] = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), e->w == 1 ? Z3_mk_bool_sort(C) : bvs(e->w)); st.pop_back(); continue; }
    if (e->k >= KFAdd) { // FP op: children through fp()
      Z3_ast r;
      switch (e->k) {
        case KFOeq: r = Z3_mk_fpa_eq(C, fp(e->a[0]), fp(e->a[1])); break;
        case KFOlt: r = Z3_mk_fpa_lt(C, fp(e->a[0]), fp(e->a[1])); break;
        case KFOle: r = Z3_mk_fpa_leq(C, fp(e->a[0]), fp(e->a[1])); break;
        case KFNan: r = Z3_mk_fpa_is_nan(C, fp(e->a[0])); break;
        case KFToSI: { Z3_ast x = Z3_mk_fpa_round_to_integral(C, e->aux ? RNE : RTZ, fp(e->a[0])); E a = e->a[0]; Z3_sort s = a->w == 32 ? F32 : F64;
          double lo = e->w == 32 ? -2147483648.0 : -9223372036854775808.0, hi = e->w == 32 ? 2147483648.0 : 9223372036854775808.0;
          Z3_ast L = Z3_mk_fpa_numeral_double(C, lo, s), H = Z3_mk_fpa_numeral_double(C, hi, s);
          Z3_ast in[2] = {Z3_mk_fpa_leq(C, L, x), Z3_mk_fpa_lt(C, x, H)};
          r = Z3_mk_ite(C, Z3_mk_and(C, 2, in), Z3_mk_fpa_to_sbv(C, RTZ, x, e->w), num((u128)1 << (e->w - 1), e->w)); break; }
        default: r = Z3_mk_fpa_to_ieee_bv(C, fp(e));
      }
      bvc[e->id] = r; st.pop_back(); continue;
    }
    bool rdy = true; for (int i = 0; i < e->nk; i++) if (!bvc.count(e->a[i]->id)) { st.push_back(e->a[i]); rdy = false; }
    if (!rdy) continue;
    E x = e->a[0], y = e->a[1]; Z3_ast r;
    #define B(z) bvOf(z)
    switch (e->k) {
      case KAdd: if (e->w == 1) r = Z3_mk_xor(C, bv(x), bv(y)); else r = Z3_mk_bvadd(C, bv(x), bv(y)); break;
      case KSub: if (e->w == 1) r = Z3_mk_xor(C, bv(x), bv(y)); else r = Z3_mk_bvsub(C, bv(x), bv(y)); break;
      case KMul: if (e->w == 1) { Z3_ast q[2] = {bv(x), bv(y)}; r = Z3_mk_and(C, 2, q); } else r = Z3_mk_bvmul(C, bv(x), bv(y)); break;
      case KUDiv: r = Z3_mk_bvudiv(C, bv(x), bv(y)); break; case KSDiv: r = Z3_mk_bvsdiv(C, bv(x), bv(y)); break;
      case KURem: r = Z3_mk_bvurem(C, bv(x), bv(y)); break; case KSRem: r = Z3_mk_bvsrem(C, bv(x), bv(y)); break;
      case KAnd: { Z3_ast q[2] = {bv(x), bv(y)}; r = e->w == 1 ? Z3_mk_and(C, 2, q) : Z3_mk_bvand(C, q[0], q[1]); break; }
      case KOr: { Z3_ast q[2] = {bv(x), bv(y)}; r = e->w == 1 ? Z3_mk_or(C, 2, q) : Z3_mk_bvor(C, q[0], q[1]); break; }
      case KXor: r = e->w == 1 ? (isC(y, 1) ? Z3_mk_not(C, bv(x)) : Z3_mk_xor(C, bv(x), bv(y))) : Z3_mk_bvxor(C, bv(x), bv(y)); break;
      case KShl: r = Z3_mk_bvshl(C, B(x), B(y)); break; case KLShr: r = Z3_mk_bvlshr(C, B(x), B(y)); break; case KAShr: r = Z3_mk_bvashr(C, B(x), B(y)); break;
      case KConcat: r = Z3_mk_concat(C, B(x), B(y)); break;
      case KExtract: r = Z3_mk_extract(C, e->aux + e->w - 1, e->aux, B(x)); if (e->w == 1) r = Z3_mk_eq(C, r, num(1, 1)); break;
      case KZExt: if (x->w == 1) r = Z3_mk_ite(C, bv(x), num(1, e->w), num(0, e->w)); else r = Z3_mk_zero_ext(C, e->w - x->w, bv(x)); break;
      case KSExt: if (x->w == 1) r = Z3_mk_ite(C, bv(x), num(~(u128)0, e->w), num(0, e->w)); else r = Z3_mk_sign_ext(C, e->w - x->w, bv(x)); break;
      case KIte: r = Z3_mk_ite(C, bv(x), bv(y), bv(e->a[2])); break;
      case KEq: r = x->w == 1 ? Z3_mk_iff(C, bv(x), bv(y)) : Z3_mk_eq(C, bv(x), bv(y)); break;
      case KUlt: r = Z3_mk_bvult(C, bv(x), bv(y)); break; case KUle: r = Z3_mk_bvule(C, bv(x), bv(y)); break;
      case KSlt: r = Z3_mk_bvslt(C, bv(x), bv(y)); break; case KSle: r = Z3_mk_bvsle(C, bv(x), bv(y)); break;
      default: fprintf(stderr, "bad kind %d\n", e->k); abort();
    }
    bvc[e->id] = r; st.pop_back();
  }
  return bvc[root->id];
}
// large integer conditions over a few input bits: exact table
static void smallTab(E c) {
  if (bvc.count(c->id) || c->k == KConst || c->k == KSym) return; std::vector<E> sy; int nb = supportBits(c, sy, TAB); if (nb > TAB || nb == 0) return; for (E s : symsOf(c)) if (s->k == KUF) return;
  std::unordered_set<uint32_t> seen; std::vector<E> st{c}; while (!st.empty() && seen.size() <= 400) { E e = st.back(); st.pop_back(); if (!seen.insert(e->id).second) continue; for (int i = 0; i < e->nk; i++) st.push_back(e->a[i]); }
  if (seen.size() > 400) bvc[c->id] = table(c, sy, nb);
}
static std::map<std::vector<uint32_t>, std::pair<SRes, std::shared_ptr<Model>>> qcache;
static void flatten(E e, std::vector<E>& out) { if (e->w == 1 && e->k == KAnd) { flatten(e->a[0], out); flatten(e->a[1], out); } else out.push_back(e); }
SRes solve(const std::vector<E>& pc, E cond, const std::shared_ptr<Model>& base, std::shared_ptr<Model>* out) {
  init();
  if (isC(cond)) { g_ss.trivial++; if (!cond->c) return UNSAT; if (out) *out = base; return SAT; }
  if (base && base->eval(cond)) { g_ss.modelhits++; if (out) *out = base; return SAT; }
  // slice
  std::vector<E> cs; flatten(cond, cs);
  std::set<uint32_t> syms; for (E c : cs) for (E s : symsOf(c)) syms.insert(s->id);
  std::vector<char> used(pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!used[i]) { bool hit = false; for (E s : symsOf(pc[i])) if (syms.count(s->id)) { hit = true; break; } if (hit) { used[i] = 1; ch = true; cs.push_back(pc[i]); for (E s : symsOf(pc[i])) syms.insert(s->id); } } }
  std::vector<uint32_t> key; for (E c : cs) key.push_back(c->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto build = [&](const std::shared_ptr<Model>& m) { auto r = std::make_shared<Model>(); if (base) r->val = base->val; for (auto& p : m->val) r->val[p.first] = p.second; return r; };
  auto qc = qcache.find(key); if (qc != qcache.end()) { g_ss.cachehits++; if (qc->second.first == SAT && out) *out = build(qc->second.second); return qc->second.first; }
  // cheap attempts at a model before the solver is asked
  std::vector<E> sl; { std::set<uint32_t> dn; for (E c : cs) for (E y : symsOf(c)) if (y->k == KSym && dn.insert(y->id).second) sl.push_back(y); }
  static u64 rs = 88172645463325252ull; auto rnd = [&]() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
  auto guess = [&](int tries, double secs) -> std::shared_ptr<Model> { auto g0 = std::chrono::steady_clock::now(); if (sl.empty() || sl.size() > 4000) return nullptr;
    for (int t = 0; t < tries; t++) { auto m = std::make_shared<Model>(); int mode = t % 4; if (mode == 1 && base) m->val = base->val;
      for (E y : sl) { u64 r = rnd(); u128 v; if (mode == 1 && (r >> 40) % sl.size() > 1) continue; if (mode == 0) v = rnd(); else if (mode == 2) v = (r & 3) == 0 ? 0 : (r & 3) == 1 ? ~(u128)0 : (r & 3) == 2 ? (r >> 8) & 3 : rnd(); else v = rnd(); m->val[y->id] = v & maskw(y->w); }
      bool ok = true; for (E c : cs) if (!m->eval(c)) { ok = false; break; } if (ok) return m;
      if (std::chrono::duration<double>(std::chrono::steady_clock::now() - g0).count() > secs) break; }
    return nullptr; };
  bool hasuf = false; for (E c : cs) for (E y : symsOf(c)) if (y->k == KUF) hasuf = true;
  if (!hasuf) if (auto m = guess(12, 0.05)) { m->memo.clear(); g_ss.modelhits++; qcache[key] = {SAT, m}; if (out) *out = build(m); return SAT; }
  g_ss.queries++; auto t0 = std::chrono::steady_clock::now();
  bool anyfp = false; for (E c : cs) if (c->hasfp) anyfp = true;
  Z3_solver S = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, anyfp ? "QF_FPBV" : "QF_BV")); Z3_solver_inc_ref(C, S);
  Z3_params P = Z3_mk_params(C); Z3_params_inc_ref(C, P); Z3_params_set_uint(C, P, Z3_mk_string_symbol(C, "timeout"), g_query_timeout_ms); Z3_solver_set_params(C, S, P);
  for (E c : cs) { smallTab(c); Z3_solver_assert(C, S, boolOf(c)); }
  // Ackermann constraints for uninterpreted applications
  std::vector<E> ufs; for (E c : cs) for (E s : symsOf(c)) if (s->k == KUF) ufs.push_back(s); std::sort(ufs.begin(), ufs.end(), [](E a, E b) { return a->id < b->id; }); ufs.erase(std::unique(ufs.begin(), ufs.end()), ufs.end());
  for (size_t i = 0; i < ufs.size(); i++) for (size_t j = i + 1; j < ufs.size(); j++) if (ufs[i]->aux == ufs[j]->aux && ufs[i]->nk == ufs[j]->nk && ufs[i]->w == ufs[j]->w) { E g = mkConst(1, 1); for (int q = 0; q < ufs[i]->nk; q++) g = mkAnd1(g, mkEq(ufs[i]->a[q], ufs[j]->a[q])); Z3_solver_assert(C, S, boolOf(mkOr1(mkNot(g), mkEq(ufs[i], ufs[j])))); }
  static int dump = getenv("SX_DUMP") ? atoi(getenv("SX_DUMP")) : 0; static int qn = 0; qn++;
  if (dump) { char fn[64]; snprintf(fn, 64, "/tmp/q%d.smt2", qn); FILE* f = fopen(fn, "w"); fprintf(f, "%s(check-sat)\n", Z3_solver_to_string(C, S)); fclose(f); }
  Z3_lbool r = Z3_solver_check(C, S); SRes res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
  std::shared_ptr<Model> mm;
  if (res == UNKNOWN && !hasuf && (mm = guess(20000, 10))) { mm->memo.clear(); res = SAT; }
  else if (res == SAT) {
    mm = std::make_shared<Model>(); Z3_model M = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, M);
    std::set<uint32_t> done; for (E c : cs) for (E s : symsOf(c)) if (done.insert(s->id).second) {
      Z3_ast v; u128 x = 0; if (Z3_model_eval(C, M, bv(s), true, &v)) {
        if (s->w == 1) x = Z3_get_bool_value(C, v) == Z3_L_TRUE; else { std::string str = Z3_get_numeral_string(C, v); for (char ch2 : str) x = x * 10 + (ch2 - '0'); } }
      mm->val[s->id] = x; }
    Z3_model_dec_ref(C, M);
    for (E c : cs) if (!mm->eval(c)) { g_ss.mismatches++; if (getenv("SX_VERBOSE")) fprintf(stderr, "model mismatch\n"); break; }
  }
  Z3_params_dec_ref(C, P); Z3_solver_dec_ref(C, S);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); g_ss.time += dt; g_ss.maxtime = std::max(g_ss.maxtime, dt);
  if (getenv("SX_VERBOSE") && dt > 0.5) fprintf(stderr, "query %d: %.2fs %s (fp=%d)\n", qn, dt, res == SAT ? "sat" : res == UNSAT ? "unsat" : "unknown", anyfp);
  if (res == SAT) g_ss.sat++; else if (res == UNSAT) g_ss.unsat++; else g_ss.unknown++;
  if (res != UNKNOWN) qcache[key] = {res, mm};
  if (res == SAT && out) *out = build(mm);
  return res;
}
