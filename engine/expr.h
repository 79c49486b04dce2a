// Hash-consed bit-vector / IEEE-754 expression DAG with constant folding.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <cfenv>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <functional>
#include <algorithm>
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;

enum K : uint8_t {
  KConst, KSym,
  KAdd, KSub, KMul, KUDiv, KSDiv, KURem, KSRem, KAnd, KOr, KXor, KShl, KLShr, KAShr,
  KConcat, KExtract, KZExt, KSExt, KIte, KEq, KUlt, KUle, KSlt, KSle,
  KFAdd, KFSub, KFMul, KFDiv, KFRem, KFSqrt, KFRnd /*aux: 0 rne 1 floor 2 ceil 3 trunc 4 away*/,
  KFOeq, KFOlt, KFOle, KFNan, KFToSI /*w: 32/64, aux: 0 trunc, 1 rne*/, KSIToF /*kid i64*/, KUIToF /*kid u64*/, KFExt, KFTrunc,
  KUF /* uninterpreted function, aux = function id */
};
struct Expr {
  K k; uint8_t nk; uint16_t w; uint32_t id; uint32_t aux; u128 c;
  const Expr* a[3];
  mutable bool rng_ok; mutable bool hasfp; mutable i128 lo, hi;
};
typedef const Expr* E;

extern std::vector<std::string> g_symname;     // by Sym aux
extern std::vector<std::string> g_ufname;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sx(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ m) - m); }

E mkConst(u128 v, unsigned w);
E mkSym(const std::string& name, unsigned w);
E mkBin(K k, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned off, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E a, E b);
E mkEq(E a, E b);
E mkUlt(E a, E b);
E mkUle(E a, E b);
E mkSlt(E a, E b);
E mkSle(E a, E b);
static inline E mkTrunc(E a, unsigned w) { return w == a->w ? a : mkExtract(a, 0, w); }
E mkNot(E a);        // width 1
E mkAnd1(E a, E b);
E mkOr1(E a, E b);
E mkFBin(K k, E a, E b);
E mkFSqrt(E a);
E mkFRnd(E a, int mode);
E mkFOeq(E a, E b);
E mkFOlt(E a, E b);
E mkFOle(E a, E b);
E mkFNan(E a);
E mkFUno(E a, E b);
E mkFToSI(E a, unsigned w, int rne);
E mkSIToF(E a, unsigned w);     // signed int any width -> float width w
E mkUIToF(E a, unsigned w);
E mkFExt(E a);
E mkFTrunc(E a);
E mkUF(const std::string& fn, const std::vector<E>& args, unsigned w);
static inline bool isC(E e) { return e->k == KConst; }
static inline bool isC(E e, u64 v) { return e->k == KConst && e->c == v; }
bool srange(E e, i128& lo, i128& hi);   // signed range (w<=64), always valid
unsigned tzeros(E e);
bool constDiff(E a, E b, u128& d);   // a - b is the constant d
E rebuild(K k, unsigned w, uint32_t aux, E* a);
u128 foldOp(K k, unsigned w, uint32_t aux, const u128* v, const uint16_t* kw, u128 c);
uint32_t exprCount();

static inline float asF(u128 v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
static inline double asD(u128 v) { u64 x = (u64)v; double f; memcpy(&f, &x, 8); return f; }
static inline u128 fromF(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static inline u128 fromD(double f) { u64 x; memcpy(&x, &f, 8); return x; }
E mkF(double v, unsigned w);
u128 ufConcrete(const std::string& fn, const std::vector<u128>& a, unsigned w);

struct Model {
  std::unordered_map<uint32_t, u128> val;              // Sym id(expr id) -> value
  mutable std::unordered_map<uint32_t, u128> memo;
  u128 eval(E e) const;
};
void collectSyms(E e, std::vector<E>& out);  // appends unique symbols (memoised)
const std::vector<E>& symsOf(E e);
