// Randomised self-test of the term builder: every simplification must keep the value of the term.
#include "expr.h"
#include <cstdio>
#include <cstdlib>
static u64 rs = 0x9e3779b97f4a7c15ull; static u64 rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
struct P { E e; u128 v[4]; };
int main(int argc, char** argv) {
  int rounds = argc > 1 ? atoi(argv[1]) : 300; if (argc > 2) rs ^= strtoull(argv[2], 0, 10) * 0x12345678abcdefull; long n = 0;
  for (int r = 0; r < rounds; r++) {
    std::vector<P> pool; Model m[4]; static int sc = 0;
    unsigned ws[] = {1, 8, 8, 8, 16, 32, 64, 64};
    for (int i = 0; i < 8; i++) { P p; p.e = mkSym("s" + std::to_string(sc++), ws[i]); for (int k = 0; k < 4; k++) { u128 v = rnd(); if (k == 1) v &= 3; if (k == 2) v |= ~(u128)3; p.v[k] = v & maskw(ws[i]); m[k].val[p.e->id] = p.v[k]; } pool.push_back(p); }
    auto cst = [&](unsigned w) { P p; u64 x = rnd(); u128 v = (x & 7) < 4 ? (x >> 8) & 7 : (x & 7) < 6 ? ~(u128)((x >> 8) & 7) : (u128)1 << ((x >> 8) % w); if ((x & 7) == 7) v = rnd(); p.e = mkConst(v, w); for (int k = 0; k < 4; k++) p.v[k] = v & maskw(w); return p; };
    auto pick = [&](unsigned w) -> P { if (rnd() % 5 == 0) return cst(w); for (int t = 0; t < 40; t++) { P& p = pool[rnd() % pool.size()]; if (p.e->w == w) return p; } return cst(w); };
    auto add = [&](E e, K k, unsigned w, uint32_t aux, std::vector<P> a) {
      P p; p.e = e; if (e->w != w) { printf("width %d op %d\n", e->w, k); exit(1); }
      for (int q = 0; q < 4; q++) { u128 v[3]; uint16_t kw[3]; for (size_t i = 0; i < a.size(); i++) { v[i] = a[i].v[q]; kw[i] = a[i].e->w; } p.v[q] = k == KConst ? (~v[0] & maskw(w)) : foldOp(k, w, aux, v, kw, 0) & maskw(w); u128 g = m[q].eval(e);
        bool fp = k >= KFAdd; bool bothnan = false; if (fp && (k <= KFRnd || k == KFExt || k == KFTrunc)) { if (w == 32) bothnan = asF(g) != asF(g) && asF(p.v[q]) != asF(p.v[q]); else bothnan = asD(g) != asD(g) && asD(p.v[q]) != asD(p.v[q]); if (bothnan) p.v[q] = g; }
        if (g != p.v[q] && !bothnan) { printf("MISMATCH op %d w %d aux %u: got %llx want %llx\n", k, w, aux, (unsigned long long)g, (unsigned long long)p.v[q]); for (auto& x : a) printf("  kid op %d w %d v %llx\n", x.e->k, x.e->w, (unsigned long long)x.v[q]); exit(1); }
        i128 lo, hi; if (w <= 64 && srange(e, lo, hi)) { i128 s = w == 1 ? (i128)g : sx(g, w); if (s < lo || s > hi) { printf("RANGE op %d w %d\n", k, w); exit(1); } } }
      n++; pool.push_back(p); };
    for (int i = 0; i < 250; i++) {
      unsigned W[] = {8, 16, 32, 64}; unsigned w = W[rnd() % 4]; int op = rnd() % 28;
      if (op < 9) { K ks[] = {KAdd, KSub, KMul, KAnd, KOr, KXor, KAdd, KSub, KMul}; P a = pick(w), b = pick(w); K k = ks[op]; add(mkBin(k, a.e, b.e), k, w, 0, {a, b}); }
      else if (op == 9) { K ks[] = {KUDiv, KSDiv, KURem, KSRem}; K k = ks[rnd() % 4]; P a = pick(w), b = pick(w); bool z = false; for (int q = 0; q < 4; q++) if (!b.v[q] || (b.v[q] == maskw(w))) z = true; if (!z) add(mkBin(k, a.e, b.e), k, w, 0, {a, b}); }
      else if (op == 10) { K ks[] = {KShl, KLShr, KAShr}; K k = ks[rnd() % 3]; P a = pick(w), b = cst(w); b.e = mkConst(rnd() % w, w); for (int q = 0; q < 4; q++) b.v[q] = b.e->c; add(mkBin(k, a.e, b.e), k, w, 0, {a, b}); }
      else if (op == 11) { P a = pick(w / 2 < 8 ? 8 : w / 2), b = pick(a.e->w); add(mkConcat(a.e, b.e), KConcat, 2 * a.e->w, 0, {a, b}); }
      else if (op == 12) { P a = pick(w); unsigned x = 8 * (1 + rnd() % (w / 8)), off = w == x ? 0 : 8 * (rnd() % ((w - x) / 8 + 1)); add(mkExtract(a.e, off, x), KExtract, x, off, {a}); }
      else if (op == 13) { P a = pick(rnd() & 1 ? 8 : 32); add(mkZExt(a.e, 64), KZExt, 64, 0, {a}); P b = pick(1); add(mkZExt(b.e, w), KZExt, w, 0, {b}); }
      else if (op == 14) { P a = pick(rnd() & 1 ? 8 : 32); add(mkSExt(a.e, 64), KSExt, 64, 0, {a}); if (w > 8) { P b = pick(8); add(mkZExt(b.e, w), KZExt, w, 0, {b}); } }
      else if (op < 17) { P c = pick(1), a = pick(w), b = pick(w); add(mkIte(c.e, a.e, b.e), KIte, w, 0, {c, a, b}); }
      else if (op < 22) { K ks[] = {KEq, KUlt, KUle, KSlt, KSle}; K k = ks[op - 17]; P a = pick(w), b = pick(w); E e = k == KEq ? mkEq(a.e, b.e) : k == KUlt ? mkUlt(a.e, b.e) : k == KUle ? mkUle(a.e, b.e) : k == KSlt ? mkSlt(a.e, b.e) : mkSle(a.e, b.e); add(e, k, 1, 0, {a, b}); }
      else if (op == 22) { P a = pick(1), b = pick(1); add(mkAnd1(a.e, b.e), KAnd, 1, 0, {a, b}); add(mkOr1(a.e, b.e), KOr, 1, 0, {a, b}); add(mkNot(a.e), KConst, 1, 0, {a}); }
      else { unsigned f = rnd() & 1 ? 32 : 64; int o = rnd() % 9;
        if (rnd() % 3 == 0) { P b = pick(8); add(mkZExt(b.e, 64), KZExt, 64, 0, {b}); P c = pool.back(); add(mkSIToF(c.e, f), KSIToF, f, 0, {c}); P d = pool.back(), q; static const double cs[] = {0.5, 0.25, -0.375, 0.109375, 3.5, -2, 0, 1.0 / 64, 0.3, -0.0, 1, 127.5}; double v = cs[rnd() % 12]; q.e = mkF(v, f); for (int k = 0; k < 4; k++) q.v[k] = q.e->c; K ks[] = {KFMul, KFMul, KFDiv, KFAdd}; K k = ks[rnd() % 4]; if (rnd() & 1) pool.push_back(q); add(mkFBin(k, d.e, q.e), k, f, 0, {d, q}); P x = pool.back(), y = pick(f); if (rnd() & 1) add(mkFBin(KFAdd, x.e, y.e), KFAdd, f, 0, {x, y}); else add(mkFBin(KFSub, x.e, y.e), KFSub, f, 0, {x, y}); P g = pool.back(); add(mkFOlt(g.e, q.e), KFOlt, 1, 0, {g, q}); add(mkFOle(q.e, g.e), KFOle, 1, 0, {q, g}); add(mkFOeq(g.e, y.e), KFOeq, 1, 0, {g, y}); int md = rnd() % 5, rn = rnd() & 1; add(mkFRnd(g.e, md), KFRnd, f, md, {g}); add(mkFToSI(g.e, 32, rn), KFToSI, 32, rn, {g}); if (f == 32) add(mkFExt(g.e), KFExt, 64, 0, {g}); else add(mkFTrunc(g.e), KFTrunc, 32, 0, {g}); }
        if (o == 0) { P a = pick(64); add(mkSIToF(a.e, f), KSIToF, f, 0, {a}); P b = pick(8); add(mkSExt(b.e, 64), KSExt, 64, 0, {b}); P c = pool.back(); add(mkSIToF(c.e, f), KSIToF, f, 0, {c}); }
        else if (o < 5) { K ks[] = {KFAdd, KFSub, KFMul, KFDiv}; K k = ks[o - 1]; P a = pick(f), b = pick(f); add(mkFBin(k, a.e, b.e), k, f, 0, {a, b}); P d = pool.back(); if (rnd() & 1) add(mkFBin(KFMul, d.e, d.e), KFMul, f, 0, {d, d}); }
        else if (o == 5) { { P a = pick(32); add(mkFExt(a.e), KFExt, 64, 0, {a}); P b = pool.back(); add(mkFSqrt(b.e), KFSqrt, 64, 0, {b}); P c = pool.back(); add(mkFTrunc(c.e), KFTrunc, 32, 0, {c}); } P a = pick(32); add(mkFExt(a.e), KFExt, 64, 0, {a}); P b = pick(64); add(mkFTrunc(b.e), KFTrunc, 32, 0, {b}); }
        else if (o == 6) { P a = pick(f); int md = rnd() % 5; add(mkFRnd(a.e, md), KFRnd, f, md, {a}); }
        else if (o == 7) { P a = pick(f), b = pick(f); add(mkFOeq(a.e, b.e), KFOeq, 1, 0, {a, b}); add(mkFOlt(a.e, b.e), KFOlt, 1, 0, {a, b}); add(mkFOle(a.e, b.e), KFOle, 1, 0, {a, b}); add(mkFNan(a.e), KFNan, 1, 0, {a}); }
        else { P a = pick(f); unsigned iw = rnd() & 1 ? 32 : 64; int rn = rnd() & 1; add(mkFToSI(a.e, iw, rn), KFToSI, iw, rn, {a}); } }
    }
  }
  printf("term builder self-test: %ld terms, no mismatch\n", n); return 0;
}
