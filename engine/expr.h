// Hash-consed bit-vector / IEEE-754 expression DAG, with constant folding, interval analysis and
// a concrete (true IEEE) evaluator.
#pragma once
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;

enum Op : uint8_t {
  O_Const, O_Var,
  O_Add, O_Sub, O_Mul, O_UDiv, O_SDiv, O_URem, O_SRem, O_And, O_Or, O_Xor, O_Shl, O_LShr, O_AShr,
  O_Not, O_Eq, O_Ult, O_Slt, O_Ite, O_Concat, O_Extract, O_ZExt, O_SExt,
  O_FAdd, O_FSub, O_FMul, O_FDiv, O_FRem, O_FNeg, O_FAbs, O_FSqrt, O_FFloor, O_FCeil, O_FTrunc,
  O_FRound, O_FRint, O_FIsNan, O_FEq, O_FLt, O_FLe, O_FToU, O_FToS, O_UToF, O_SToF, O_FExt,
  O_FTruncF, O_Fun1, O_Fun2, O_Fma,
};
static const char *OPN[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or",
  "xor","shl","lshr","ashr","not","eq","ult","slt","ite","concat","extract","zext","sext","fadd",
  "fsub","fmul","fdiv","frem","fneg","fabs","fsqrt","ffloor","fceil","ftrunc","fround","frint",
  "fisnan","feq","flt","fle","ftou","ftos","utof","stof","fext","ftruncf","fun1","fun2","fma"};
// aux values of Fun1 / Fun2
enum { F_LOG, F_LOG10, F_EXP, F_LOG2, F_EXP2, F_SIN, F_COS, F_TAN, F_LOG1P, F_EXPM1, F_CBRT, F_TANH, F_ASIN, F_ACOS, F_ATAN };
enum { F_POW, F_POWI, F_ATAN2, F_HYPOT };

struct Iv { double lo, hi; bool nan; };

struct Expr {
  Op op; uint16_t w; int32_t aux; uint32_t id;
  const Expr *k[3];
  u128 c;
  mutable bool hasIv = false, hasUr = false;
  mutable Iv iv; mutable u128 umin, umax;
};
typedef const Expr *E;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sx(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 m = (u128)1 << (w - 1);
  return (i128)((v ^ m)) - (i128)m;
}
static inline double b2d(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static inline u64 d2b(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static inline float b2f(uint32_t b) { float d; memcpy(&d, &b, 4); return d; }
static inline uint32_t f2b(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }
static inline double fval(u128 c, unsigned w) { return w == 32 ? (double)b2f((uint32_t)c) : b2d((u64)c); }
static inline u128 fbits(double d, unsigned w) { return w == 32 ? (u128)f2b((float)d) : (u128)d2b(d); }

struct VarInfo { std::string kind; unsigned w; bool fl; double lo, hi; u128 ulo, uhi; long seq; u64 key1, key2; };
static std::vector<VarInfo> VARS;

// ---- concrete semantics -------------------------------------------------------------------
static double fun1(int f, double x) {
  switch (f) {
  case F_LOG: return log(x); case F_LOG10: return log10(x); case F_EXP: return exp(x);
  case F_LOG2: return log2(x); case F_EXP2: return exp2(x); case F_SIN: return sin(x);
  case F_COS: return cos(x); case F_TAN: return tan(x); case F_LOG1P: return log1p(x);
  case F_EXPM1: return expm1(x); case F_CBRT: return cbrt(x); case F_TANH: return tanh(x);
  case F_ASIN: return asin(x); case F_ACOS: return acos(x); case F_ATAN: return atan(x);
  }
  abort();
}
static double fun2(int f, double x, double y) {
  switch (f) { case F_POW: return pow(x, y); case F_POWI: return pow(x, y); case F_ATAN2: return atan2(x, y); case F_HYPOT: return hypot(x, y); }
  abort();
}
static double froundhalf(double x) { return round(x); }

static u128 evalOp(Op op, unsigned w, int aux, unsigned kw, u128 a, u128 b, u128 c) {
  u128 m = maskw(w);
  switch (op) {
  case O_Add: return (a + b) & m;
  case O_Sub: return (a - b) & m;
  case O_Mul: return (a * b) & m;
  case O_UDiv: return b ? a / b : m;
  case O_URem: return b ? a % b : a;
  case O_SDiv: { i128 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
  case O_SRem: { i128 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
  case O_And: return a & b; case O_Or: return a | b; case O_Xor: return a ^ b;
  case O_Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
  case O_LShr: return b >= w ? 0 : a >> (unsigned)b;
  case O_AShr: return (u128)(sx(a, w) >> (unsigned)(b >= w ? w - 1 : (unsigned)b)) & m;
  case O_Not: return !a;
  case O_Eq: return a == b; case O_Ult: return a < b; case O_Slt: return sx(a, kw) < sx(b, kw);
  case O_Ite: return a ? b : c;
  case O_Extract: return (a >> aux) & m;
  case O_ZExt: return a;
  case O_SExt: return (u128)sx(a, kw) & m;
  default: break;
  }
#define FB(expr64, expr32) (w == 32 ? (u128)f2b(expr32) : (u128)d2b(expr64))
  float fa = b2f((uint32_t)a), fb_ = b2f((uint32_t)b), fc = b2f((uint32_t)c);
  double da = b2d((u64)a), db = b2d((u64)b), dc = b2d((u64)c);
  switch (op) {
  case O_FAdd: return FB(da + db, fa + fb_);
  case O_FSub: return FB(da - db, fa - fb_);
  case O_FMul: return FB(da * db, fa * fb_);
  case O_FDiv: return FB(da / db, fa / fb_);
  case O_FRem: return FB(fmod(da, db), fmodf(fa, fb_));
  case O_FNeg: return a ^ ((u128)1 << (w - 1));
  case O_FAbs: return a & ~((u128)1 << (w - 1)) & m;
  case O_FSqrt: return FB(sqrt(da), sqrtf(fa));
  case O_FFloor: return FB(floor(da), floorf(fa));
  case O_FCeil: return FB(ceil(da), ceilf(fa));
  case O_FTrunc: return FB(trunc(da), truncf(fa));
  case O_FRound: return FB(froundhalf(da), roundf(fa));
  case O_FRint: return FB(nearbyint(da), nearbyintf(fa));
  case O_Fun1: return FB(fun1(aux, da), (float)fun1(aux, fa));
  case O_Fun2: return FB(fun2(aux, da, db), (float)fun2(aux, fa, fb_));
  case O_Fma: return FB(fma(da, db, dc), fmaf(fa, fb_, fc));
  case O_FIsNan: return kw == 32 ? std::isnan(fa) : std::isnan(da);
  case O_FEq: return kw == 32 ? fa == fb_ : da == db;
  case O_FLt: return kw == 32 ? fa < fb_ : da < db;
  case O_FLe: return kw == 32 ? fa <= fb_ : da <= db;
  case O_FToU: { // saturating
    double x = kw == 32 ? (double)fa : da;
    if (std::isnan(x) || x <= 0) return 0;
    double lim = std::ldexp(1.0, w);
    if (x >= lim) return m;
    return (u128)x & m;
  }
  case O_FToS: {
    double x = kw == 32 ? (double)fa : da;
    if (std::isnan(x)) return 0;
    double lim = std::ldexp(1.0, w - 1);
    if (x >= lim) return m >> 1;
    if (x < -lim) return (m >> 1) + 1;
    return (u128)(i128)x & m;
  }
  case O_UToF: return FB((double)a, (float)a);
  case O_SToF: { i128 s = sx(a, kw); return FB((double)s, (float)s); }
  case O_FExt: return d2b((double)fa);
  case O_FTruncF: return f2b((float)da);
  default: break;
  }
  abort();
}

// ---- hash-consing -------------------------------------------------------------------------
struct EH { size_t operator()(E e) const {
  size_t h = e->op * 1315423911u ^ e->w * 2654435761u ^ (size_t)e->aux * 40503u ^ (size_t)(u64)e->c ^ ((size_t)(u64)(e->c >> 64) * 31);
  for (int i = 0; i < 3; i++) h = h * 1000003u ^ ((size_t)e->k[i] >> 4);
  return h;
} };
struct EQ { bool operator()(E a, E b) const {
  return a->op == b->op && a->w == b->w && a->aux == b->aux && a->c == b->c && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2];
} };
static std::unordered_set<E, EH, EQ> TABLE;
static std::vector<E> ALL;
static E intern(Op op, unsigned w, int aux = 0, E a = nullptr, E b = nullptr, E c = nullptr, u128 cv = 0) {
  Expr t; t.op = op; t.w = w; t.aux = aux; t.k[0] = a; t.k[1] = b; t.k[2] = c; t.c = cv;
  auto it = TABLE.find(&t);
  if (it != TABLE.end()) return *it;
  Expr *n = new Expr(t); n->id = (uint32_t)ALL.size();
  TABLE.insert(n); ALL.push_back(n);
  return n;
}
static inline E mkc(u128 v, unsigned w) { return intern(O_Const, w, 0, 0, 0, 0, v & maskw(w)); }
static inline bool isC(E e) { return e->op == O_Const; }
static inline bool isC(E e, u128 v) { return e->op == O_Const && e->c == v; }
static bool isFloatOp(Op o) {
  switch (o) {
  case O_FAdd: case O_FSub: case O_FMul: case O_FDiv: case O_FRem: case O_FNeg: case O_FAbs: case O_FSqrt:
  case O_FFloor: case O_FCeil: case O_FTrunc: case O_FRound: case O_FRint: case O_UToF: case O_SToF:
  case O_FExt: case O_FTruncF: case O_Fun1: case O_Fun2: case O_Fma: return true;
  default: return false;
  }
}
static bool floaty(E e) { // is this bit-vector naturally a float?
  if (isFloatOp(e->op)) return true;
  if (e->op == O_Var) return VARS[e->aux].fl;
  if (e->op == O_Ite) return floaty(e->k[1]) || floaty(e->k[2]);
  return false;
}

// ---- unsigned range -----------------------------------------------------------------------
static u128 smear(u128 v) { for (int i = 1; i < 128; i <<= 1) v |= v >> i; return v; }
static void urange(E e, u128 &lo, u128 &hi) {
  if (e->hasUr) { lo = e->umin; hi = e->umax; return; }
  u128 m = maskw(e->w); lo = 0; hi = m;
  u128 al, ah, bl, bh;
  switch (e->op) {
  case O_Const: lo = hi = e->c; break;
  case O_Var: if (!VARS[e->aux].fl) { lo = VARS[e->aux].ulo; hi = VARS[e->aux].uhi; } break;
  case O_Add: urange(e->k[0], al, ah); urange(e->k[1], bl, bh); if (ah + bh <= m && ah + bh >= ah) { lo = al + bl; hi = ah + bh; } else if (e->w <= 64 && al + bl > m && ah + bh <= m + m + 1) { lo = al + bl - m - 1; hi = ah + bh - m - 1; } break;
  case O_Sub: urange(e->k[0], al, ah); urange(e->k[1], bl, bh); if (al >= bh) { lo = al - bh; hi = ah - bl; } else if (ah < bl) { lo = (al - bh) & m; hi = (ah - bl) & m; } break;
  case O_Mul: urange(e->k[0], al, ah); urange(e->k[1], bl, bh);
    if (ah == 0 || bh <= m / ah) { lo = al * bl; hi = ah * bh; } break;
  case O_UDiv: urange(e->k[0], al, ah); urange(e->k[1], bl, bh); if (bl > 0) { lo = al / bh; hi = ah / bl; } break;
  case O_URem: urange(e->k[0], al, ah); urange(e->k[1], bl, bh); if (bl > 0) { hi = ah < bh - 1 ? ah : bh - 1; if (ah < bl) { lo = al; } } break;
  case O_And: urange(e->k[0], al, ah); urange(e->k[1], bl, bh); hi = ah < bh ? ah : bh; break;
  case O_Or: urange(e->k[0], al, ah); urange(e->k[1], bl, bh); lo = al > bl ? al : bl; hi = smear(ah | bh) & m; {
      // constant | value confined to its zero bits
      for (int s = 0; s < 2; s++) { E c = e->k[s], x = e->k[1 - s]; if (isC(c)) { u128 xl, xh; urange(x, xl, xh); if ((smear(xh) & c->c) == 0) { lo = c->c + xl; hi = c->c + xh; } } }
    } break;
  case O_Xor: urange(e->k[0], al, ah); urange(e->k[1], bl, bh); hi = smear(ah | bh) & m; break;
  case O_LShr: urange(e->k[0], al, ah); if (isC(e->k[1]) && e->k[1]->c < e->w) { lo = al >> (unsigned)e->k[1]->c; hi = ah >> (unsigned)e->k[1]->c; } else hi = ah; break;
  case O_Shl: urange(e->k[0], al, ah); if (isC(e->k[1]) && e->k[1]->c < e->w) { unsigned s = (unsigned)e->k[1]->c; if (ah <= (m >> s)) { lo = al << s; hi = ah << s; } } break;
  case O_ZExt: urange(e->k[0], lo, hi); break;
  case O_Extract: urange(e->k[0], al, ah); if (e->aux == 0 && ah <= m) { lo = al; hi = ah; } else if ((ah >> e->aux) <= m) { lo = al >> e->aux; hi = ah >> e->aux; } break;
  case O_Concat: urange(e->k[0], al, ah); urange(e->k[1], bl, bh); lo = (al << e->k[1]->w) + bl; hi = (ah << e->k[1]->w) + bh; break;
  case O_Ite: urange(e->k[1], al, ah); urange(e->k[2], bl, bh); lo = al < bl ? al : bl; hi = ah > bh ? ah : bh; break;
  default: break;
  }
  e->umin = lo; e->umax = hi; e->hasUr = true;
}

// ---- float intervals (sound under round-to-nearest: RN is monotone) -------------------------
static const double INF = std::numeric_limits<double>::infinity();
static int gridOf(E e, int d);
static Iv fiv(E e);
static Iv ivmk(double lo, double hi, bool nan) { if (std::isnan(lo) || std::isnan(hi)) return {-INF, INF, true}; return {lo, hi, nan}; }
static bool hasInf(const Iv &v) { return v.lo == -INF || v.hi == INF; }
static double rw(double d, unsigned w) { return w == 32 ? (double)(float)d : d; }
static Iv fiv(E e) {
  if (e->hasIv) return e->iv;
  unsigned w = e->w; Iv r{-INF, INF, true};
  if (w == 32 || w == 64) switch (e->op) {
  case O_Const: { double d = fval(e->c, w); r = std::isnan(d) ? Iv{INF, -INF, true} : Iv{d, d, false}; break; }
  case O_Var: if (VARS[e->aux].fl) r = {VARS[e->aux].lo, VARS[e->aux].hi, false}; else goto bits; break;
  case O_FAdd: case O_FSub: {
    Iv a = fiv(e->k[0]), b = fiv(e->k[1]); if (e->op == O_FSub) b = {-b.hi, -b.lo, b.nan};
    bool nan = a.nan || b.nan || (a.hi == INF && b.lo == -INF) || (a.lo == -INF && b.hi == INF);
    double lo = (a.lo == -INF || b.lo == -INF) ? -INF : rw(a.lo + b.lo, w), hi = (a.hi == INF || b.hi == INF) ? INF : rw(a.hi + b.hi, w);
    r = ivmk(lo, hi, nan);
    if (e->op == O_FSub && e->aux && !r.nan) { double q = std::ldexp(1.0, std::max(gridOf(e, 60), -1074)); // order of the operands known on this path: 1 >, 2 <, 3 >=, 4 <=
      if (e->aux == 1) r.lo = std::fmax(r.lo, q); else if (e->aux == 2) r.hi = std::fmin(r.hi, -q); else if (e->aux == 3) r.lo = std::fmax(r.lo, 0); else r.hi = std::fmin(r.hi, 0);
      if (r.lo > r.hi) r = ivmk(lo, hi, nan); }
    break; }
  case O_FMul: {
    Iv a = fiv(e->k[0]), b = fiv(e->k[1]);
    if (a.lo > a.hi || b.lo > b.hi) break;
    bool nan = a.nan || b.nan || (hasInf(a) && b.lo <= 0 && b.hi >= 0) || (hasInf(b) && a.lo <= 0 && a.hi >= 0);
    double p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}; double lo = INF, hi = -INF;
    for (double x : p) { if (std::isnan(x)) x = 0; x = rw(x, w); if (x < lo) lo = x; if (x > hi) hi = x; }
    if (e->k[0] == e->k[1] && lo < 0) lo = 0;
    r = ivmk(lo, hi, nan); break; }
  case O_FDiv: {
    Iv a = fiv(e->k[0]), b = fiv(e->k[1]);
    if (a.lo > a.hi || b.lo > b.hi) break;
    if (e->aux == 1) { int g = gridOf(e->k[1], 60); double q = std::ldexp(1.0, g); // divisor known to be nonzero on this path
      if (b.lo >= 0) b.lo = std::fmax(b.lo, q); else if (b.hi <= 0) b.hi = std::fmin(b.hi, -q);
      else { double m = std::fmax(std::fabs(a.lo), std::fabs(a.hi)) / q; m = rw(m, w); r = ivmk(-m, m, a.nan || b.nan || (hasInf(a) && hasInf(b))); break; } }
    bool bz = b.lo <= 0 && b.hi >= 0, az = a.lo <= 0 && a.hi >= 0;
    bool nan = a.nan || b.nan || (bz && az) || (hasInf(a) && hasInf(b));
    if (bz) { double lo = -INF, hi = INF;
      // a quotient with zero divisor may have either sign of infinity unless zero cannot be negative
      r = ivmk(lo, hi, nan); break; }
    double p[4] = {a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi}; double lo = INF, hi = -INF;
    for (double x : p) { if (std::isnan(x)) x = 0; x = rw(x, w); if (x < lo) lo = x; if (x > hi) hi = x; }
    r = ivmk(lo, hi, nan); break; }
  case O_FRem: { Iv a = fiv(e->k[0]), b = fiv(e->k[1]); bool nan = a.nan || b.nan || hasInf(a) || (b.lo <= 0 && b.hi >= 0);
    double m = std::fmax(std::fabs(b.lo), std::fabs(b.hi)); r = {a.lo >= 0 ? 0 : std::fmax(a.lo, -m), a.hi <= 0 ? 0 : std::fmin(a.hi, m), nan}; break; }
  case O_FNeg: { Iv a = fiv(e->k[0]); r = {-a.hi, -a.lo, a.nan}; break; }
  case O_FAbs: { Iv a = fiv(e->k[0]); double x = std::fabs(a.lo), y = std::fabs(a.hi); bool z = a.lo <= 0 && a.hi >= 0; r = {z ? 0 : std::fmin(x, y), std::fmax(x, y), a.nan}; break; }
  case O_FSqrt: { Iv a = fiv(e->k[0]); r = {a.lo > 0 ? rw(std::sqrt(a.lo), w) : 0, a.hi > 0 ? rw(std::sqrt(a.hi), w) : 0, a.nan || a.lo < 0}; if (a.lo <= 0) r.lo = -0.0; break; }
  case O_FFloor: { Iv a = fiv(e->k[0]); r = {std::floor(a.lo), std::floor(a.hi), a.nan}; break; }
  case O_FCeil: { Iv a = fiv(e->k[0]); r = {std::ceil(a.lo), std::ceil(a.hi), a.nan}; break; }
  case O_FTrunc: { Iv a = fiv(e->k[0]); r = {std::trunc(a.lo), std::trunc(a.hi), a.nan}; break; }
  case O_FRound: { Iv a = fiv(e->k[0]); r = {std::round(a.lo), std::round(a.hi), a.nan}; break; }
  case O_FRint: { Iv a = fiv(e->k[0]); r = {std::nearbyint(a.lo), std::nearbyint(a.hi), a.nan}; break; }
  case O_UToF: { u128 l, h; urange(e->k[0], l, h); r = {fval(evalOp(O_UToF, w, 0, e->k[0]->w, l, 0, 0), w), fval(evalOp(O_UToF, w, 0, e->k[0]->w, h, 0, 0), w), false}; break; }
  case O_SToF: { u128 l, h; urange(e->k[0], l, h); unsigned kw = e->k[0]->w;
    if (h < ((u128)1 << (kw - 1))) r = {fval(evalOp(O_UToF, w, 0, kw, l, 0, 0), w), fval(evalOp(O_UToF, w, 0, kw, h, 0, 0), w), false};
    else { double m = std::ldexp(1.0, kw - 1); r = {-m, m, false}; } break; }
  case O_FExt: r = fiv(e->k[0]); break;
  case O_FTruncF: { Iv a = fiv(e->k[0]); r = {(double)(float)a.lo, (double)(float)a.hi, a.nan}; break; }
  case O_Fun1: { Iv a = fiv(e->k[0]);
    auto mono = [&](double wd) { double lo = fun1(e->aux, a.lo), hi = fun1(e->aux, a.hi); if (std::isnan(lo)) lo = -INF; if (std::isnan(hi)) hi = INF;
      for (int i = 0; i < 4; i++) { lo = std::nextafter(lo, -INF); hi = std::nextafter(hi, INF); } (void)wd; return std::pair<double,double>(lo, hi); };
    switch (e->aux) {
    case F_LOG: case F_LOG10: case F_LOG2: { if (a.lo >= 0) { auto p = mono(0); r = {a.lo >= 1 ? std::fmax(0.0, p.first) : p.first, a.hi <= 1 ? std::fmin(0.0, p.second) : p.second, a.nan}; } else if (a.hi > 0 && std::isfinite(a.hi)) r.hi = mono(0).second; break; }
    case F_EXP: case F_EXP2: { auto p = mono(0); r = {std::fmax(0.0, p.first), p.second, a.nan}; break; }
    case F_SIN: case F_COS: r = {-1, 1, a.nan || hasInf(a)}; break;
    default: break; }
    break; }
  case O_Fun2: { Iv a = fiv(e->k[0]); Iv b = fiv(e->k[1]); if ((e->aux == F_POW || e->aux == F_POWI) && a.lo >= 0 && !a.nan && !b.nan) {
      double p[4] = {pow(a.lo, b.lo), pow(a.lo, b.hi), pow(a.hi, b.lo), pow(a.hi, b.hi)}; double lo = INF, hi = 0; bool bad = false;
      for (double x : p) { if (std::isnan(x)) bad = true; if (x < lo) lo = x; if (x > hi) hi = x; }
      if (a.lo <= 1 && a.hi >= 1) { lo = std::fmin(lo, 1); hi = std::fmax(hi, 1); }
      if (b.lo <= 0 && b.hi >= 0) { lo = std::fmin(lo, 1); hi = std::fmax(hi, 1); }
      for (int i = 0; i < 8; i++) { lo = std::nextafter(lo, -INF); hi = std::nextafter(hi, INF); }
      if (bad) r = {0, INF, false}; else r = {std::fmax(0.0, lo), hi, false}; } break; }
  case O_Ite: { Iv a = fiv(e->k[1]), b = fiv(e->k[2]);
    // max / min selection: ite(x<y, y, x), ite(x<y, x, y)
    E c = e->k[0];
    if ((c->op == O_FLt || c->op == O_FLe) && !a.nan && !b.nan) {
      if (c->k[0] == e->k[2] && c->k[1] == e->k[1]) { r = {std::fmax(a.lo, b.lo), std::fmax(a.hi, b.hi), false}; break; }
      if (c->k[0] == e->k[1] && c->k[1] == e->k[2]) { r = {std::fmin(a.lo, b.lo), std::fmin(a.hi, b.hi), false}; break; }
    }
    // clamp against a constant / other bound: ite(x<K, A, x) has x>=K in the else branch
    if (c->op == O_FLt || c->op == O_FLe) {
      Iv l = fiv(c->k[0]), h = fiv(c->k[1]);
      auto cut = [&](Iv v, E x, bool taken) { // refine v = iv(x) if x is compared in c
        if (taken && c->k[0]->op == O_FAbs && c->k[0]->k[0] == x) { double m = h.hi == INF && c->op == O_FLt ? std::numeric_limits<double>::max() : h.hi; v.lo = std::fmax(v.lo, -m); v.hi = std::fmin(v.hi, m); v.nan = false; return v; }
        if (l.nan || h.nan) { if (!taken) return v; }
        if (x == c->k[0]) { if (taken) v.hi = std::fmin(v.hi, h.hi), v.nan = false; else v.lo = std::fmax(v.lo, h.lo); }
        else if (x == c->k[1]) { if (taken) v.lo = std::fmax(v.lo, l.lo), v.nan = false; else v.hi = std::fmin(v.hi, l.hi); }
        return v; };
      a = cut(a, e->k[1], true); b = cut(b, e->k[2], false);
      if (a.lo > a.hi && !a.nan) { r = b; break; }
      if (b.lo > b.hi && !b.nan) { r = a; break; }
    }
    r = {std::fmin(a.lo, b.lo), std::fmax(a.hi, b.hi), a.nan || b.nan}; break; }
  default: bits: {
    u128 l, h; urange(e, l, h);
    u128 infb = w == 32 ? (u128)0x7f800000u : (u128)0x7ff0000000000000ull;
    if (h <= infb) r = {fval(l, w), fval(h, w), false};
    break; }
  }
  e->iv = r; e->hasIv = true; return r;
}

// ---- grid: every value of the (double) expression is a multiple of 2^k
static std::unordered_map<int, int> GRID;
static int gridOf(E e, int d) {
  const int LO = -1074;
  if (e->w != 64 || d == 0) return LO;
  auto it = GRID.find(e->id); if (it != GRID.end()) return it->second;
  int r = LO;
  auto cl = [&](int x) { return x < LO ? LO : x; };
  auto mag = [&](E x) { Iv v = fiv(x); return v.nan ? INF : std::fmax(std::fabs(v.lo), std::fabs(v.hi)); };
  switch (e->op) {
  case O_Const: { double v = fval(e->c, 64); if (!std::isfinite(v)) break; if (v == 0) { r = 900; break; } int k; double m = std::frexp(v, &k); k -= 53; u64 q = (u64)std::fabs(std::ldexp(m, 53)); while (!(q & 1)) q >>= 1, k++; r = k; break; }
  case O_Var: if (VARS[e->aux].fl && VARS[e->aux].lo > 0) { int k; std::frexp(VARS[e->aux].lo, &k); r = k - 53; } break;
  case O_FAdd: case O_FSub: r = std::min(gridOf(e->k[0], d - 1), gridOf(e->k[1], d - 1)); break;
  case O_FMul: r = cl(gridOf(e->k[0], d - 1) + gridOf(e->k[1], d - 1)); break;
  case O_FNeg: case O_FAbs: r = gridOf(e->k[0], d - 1); break;
  case O_Ite: r = std::min(gridOf(e->k[1], d - 1), gridOf(e->k[2], d - 1)); break;
  case O_UToF: case O_SToF: case O_FFloor: case O_FCeil: case O_FTrunc: case O_FRound: case O_FRint: r = 0; break;
  case O_FDiv: { double m = mag(e->k[1]); if (!std::isfinite(m) || m == 0) break; int k; std::frexp(m, &k); r = cl(gridOf(e->k[0], d - 1) - k - 54); break; }
  default: break;
  }
  GRID[e->id] = r; return r;
}

// the (double) expression is never -0
static std::unordered_map<int, bool> NZ;
static bool neverNegZero(E e, int d = 40) {
  if (e->w != 64 || d == 0) return false;
  auto it = NZ.find(e->id); if (it != NZ.end()) return it->second;
  Iv v = fiv(e); bool r = false;
  if (e->op == O_Const) r = e->c != (u128)1 << 63;
  else if (!v.nan && (v.lo > 0 || v.hi < 0)) r = true;
  else switch (e->op) {
  case O_FAdd: r = neverNegZero(e->k[0], d - 1) || neverNegZero(e->k[1], d - 1); break;
  case O_FSub: r = neverNegZero(e->k[0], d - 1); break;
  case O_FMul: if (gridOf(e->k[0], 60) + gridOf(e->k[1], 60) >= -1074 && !v.nan) r = (fiv(e->k[1]).lo > 0 && neverNegZero(e->k[0], d - 1)) || (fiv(e->k[0]).lo > 0 && neverNegZero(e->k[1], d - 1)); break; // no underflow
  case O_Ite: r = neverNegZero(e->k[1], d - 1) && neverNegZero(e->k[2], d - 1); break;
  case O_UToF: case O_FAbs: r = true; break;
  default: break;
  }
  NZ[e->id] = r; return r;
}

// ---- constructors with simplification -------------------------------------------------------
static E mkNot(E a);
static E mkIte(E c, E a, E b);
static E mk1(Op op, unsigned w, E a, int aux = 0);
static E mk2(Op op, unsigned w, E a, E b, int aux = 0);
static E TRUE_, FALSE_;

static E mkNot(E a) {
  if (isC(a)) return a->c ? FALSE_ : TRUE_;
  if (a->op == O_Not) return a->k[0];
  if (a->op == O_FLt || a->op == O_FLe) {
    if (!fiv(a->k[0]).nan && !fiv(a->k[1]).nan) return mk2(a->op == O_FLt ? O_FLe : O_FLt, 1, a->k[1], a->k[0]);
  }
  return intern(O_Not, 1, 0, a);
}
static E mkAnd1(E a, E b) {
  if (isC(a)) return a->c ? b : FALSE_;
  if (isC(b)) return b->c ? a : FALSE_;
  if (a == b) return a;
  if (mkNot(a) == b) return FALSE_;
  if (a->op == O_And && (a->k[0] == b || a->k[1] == b)) return a;
  if (b->op == O_And && (b->k[0] == a || b->k[1] == a)) return b;
  if (a->id > b->id) std::swap(a, b);
  return intern(O_And, 1, 0, a, b);
}
static E mkOr1(E a, E b) {
  for (int i = 0; i < 2; i++, std::swap(a, b)) if (a->op == O_FEq && b->op == O_FLe && ((a->k[0] == b->k[0] && a->k[1] == b->k[1]) || (a->k[0] == b->k[1] && a->k[1] == b->k[0]))) return b;
  if (isC(a)) return a->c ? TRUE_ : b;
  if (isC(b)) return b->c ? TRUE_ : a;
  if (a == b) return a;
  if (mkNot(a) == b) return TRUE_;
  if (a->id > b->id) std::swap(a, b);
  return intern(O_Or, 1, 0, a, b);
}
// e, given that the condition c holds (val) or not; looks d levels deep
static E assumeIn(E e, E c, bool val, int d) {
  if (e == c) return val ? TRUE_ : FALSE_;
  if (e->op == O_Not && e->k[0] == c) return val ? FALSE_ : TRUE_;
  if (c->op == O_Not && c->k[0] == e) return val ? FALSE_ : TRUE_;
  if (c->op == O_FLe && e->op == O_FLt && c->k[0] == e->k[1] && c->k[1] == e->k[0]) { if (val) return FALSE_; if (!fiv(e->k[0]).nan && !fiv(e->k[1]).nan) return TRUE_; }
  if (c->op == O_FLt && e->op == O_FLe && c->k[0] == e->k[1] && c->k[1] == e->k[0]) { if (val) return FALSE_; if (!fiv(e->k[0]).nan && !fiv(e->k[1]).nan) return TRUE_; }
  if (d == 0) return e;
  switch (e->op) {
  case O_FAdd: case O_FSub: case O_FMul: case O_FDiv: case O_FNeg: case O_FAbs: case O_FSqrt: case O_Ite: break;
  default: return e;
  }
  if (e->op == O_FSub && e->aux == 0 && (c->op == O_FLt || c->op == O_FLe)) {
    bool same = c->k[0] == e->k[0] && c->k[1] == e->k[1], flip = c->k[0] == e->k[1] && c->k[1] == e->k[0];
    if (same || flip) { bool nn = fiv(e->k[0]).nan || fiv(e->k[1]).nan; bool strict = (c->op == O_FLt) == val; int k = 0;
      if (val) k = same ? (strict ? 2 : 4) : (strict ? 1 : 3); else if (!nn) k = same ? (strict ? 1 : 3) : (strict ? 2 : 4);
      Iv v = fiv(e); if (k && !v.nan && v.lo < 0 && v.hi > 0) return mk2(O_FSub, e->w, e->k[0], e->k[1], k); }
  }
  if (e->op == O_FDiv && e->aux == 0 && c->op == O_FEq && !val && c->k[0] == e->k[1] && isC(c->k[1]) && fval(c->k[1]->c, c->k[1]->w) == 0) { Iv y = fiv(e->k[1]); if (!y.nan) return mk2(O_FDiv, e->w, e->k[0], e->k[1], 1); }
  E k[3] = {0, 0, 0}; bool ch = false;
  for (int i = 0; i < 3; i++) if (e->k[i]) { k[i] = assumeIn(e->k[i], c, val, d - 1); ch |= k[i] != e->k[i]; }
  if (!ch) return e;
  if (e->op == O_Ite) return mkIte(k[0], k[1], k[2]);
  if (!k[1]) return mk1(e->op, e->w, k[0], e->aux);
  return mk2(e->op, e->w, k[0], k[1], e->aux);
}
static E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == O_Not) { c = c->k[0]; std::swap(a, b); }
  if (a->op == O_Ite && a->k[0] == c) a = a->k[1];
  if (b->op == O_Ite && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  if (a->w == 64 && (floaty(a) || floaty(b))) { a = assumeIn(a, c, true, 3); b = assumeIn(b, c, false, 3); if (a == b) return a; }
  if (b->op == O_Ite && b->k[1] == a && c->op == O_Ult && b->k[0]->op == O_Ult && c->k[0] == b->k[0]->k[0] && isC(c->k[1]) && isC(b->k[0]->k[1]) && c->k[1]->c <= b->k[0]->k[1]->c) return b;
  if (a->w == 1) {
    if (isC(a)) return a->c ? mkOr1(c, b) : mkAnd1(mkNot(c), b);
    if (isC(b)) return b->c ? mkOr1(mkNot(c), a) : mkAnd1(c, a);
  }
  if (c->op == O_Eq && c->k[0]->w == a->w && !floaty(a)) { if (c->k[0] == a && c->k[1] == b) return b; if (c->k[1] == a && c->k[0] == b) return b; }
  return intern(O_Ite, a->w, 0, c, a, b);
}
static E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkc(a->c >> lo, w);
  if (a->op == O_Extract) return mkExtract(a->k[0], a->aux + lo, w);
  if (lo && !floaty(a)) { u128 l, h; urange(a, l, h); if (!(h >> lo)) return mkc(0, w); }
  if (a->op == O_Ite && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
  if (a->op == O_Or && a->w > 1) { E x = mkExtract(a->k[0], lo, w), y = mkExtract(a->k[1], lo, w); if (isC(x) || isC(y)) return mk2(O_Or, w, x, y); }
  if (a->op == O_Concat) {
    unsigned lw = a->k[1]->w;
    if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
    if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
  }
  if (a->op == O_ZExt) {
    unsigned kw = a->k[0]->w;
    if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
    if (lo >= kw) return mkc(0, w);
    if (lo == 0) return intern(O_ZExt, w, 0, a->k[0]);
  }
  if (a->op == O_SExt && lo + w <= a->k[0]->w) return mkExtract(a->k[0], lo, w);
  if (a->op == O_Ite && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
  if (lo == 0 && (a->op == O_And || a->op == O_Or || a->op == O_Xor || a->op == O_Add || a->op == O_Sub || a->op == O_Mul) ) {
    // truncation distributes over modular operators; helps collapse widen-then-narrow arithmetic
    E x = a->k[0], y = a->k[1];
    if ((x->op == O_ZExt || x->op == O_SExt || isC(x)) && (y->op == O_ZExt || y->op == O_SExt || isC(y)))
      return mk2(a->op, w, mkExtract(x, 0, w), mkExtract(y, 0, w));
  }
  if (w == 1 && lo == a->w - 1 && floaty(a)) { Iv v = fiv(a); if (!v.nan && v.lo > 0) return mkc(0, 1); }
  return intern(O_Extract, w, lo, a);
}
static E mkConcat(E hi, E lo) {
  if (isC(hi) && isC(lo)) return mkc((hi->c << lo->w) | lo->c, hi->w + lo->w);
  if (hi->op == O_Extract && lo->op == O_Extract && hi->k[0] == lo->k[0] && hi->aux == (int)(lo->aux + lo->w))
    return mkExtract(hi->k[0], lo->aux, hi->w + lo->w);
  if (isC(hi, 0)) return intern(O_ZExt, hi->w + lo->w, 0, lo);
  return intern(O_Concat, hi->w + lo->w, 0, hi, lo);
}
static E mk1(Op op, unsigned w, E a, int aux) {
  if (op == O_Not) return mkNot(a);
  if (op == O_Extract) return mkExtract(a, aux, w);
  if (op == O_ZExt || op == O_SExt) { if (w == a->w) return a; if (a->op == O_ZExt) { a = a->k[0]; op = O_ZExt; } else if (op == O_SExt && a->op == O_SExt) a = a->k[0]; if (op == O_SExt && a->w > 1) { u128 l, h; urange(a, l, h); if (h < ((u128)1 << (a->w - 1))) op = O_ZExt; }
    if (isC(a)) return mkc(evalOp(op, w, 0, a->w, a->c, 0, 0), w);
    if (op == O_ZExt && w == 64 && a->op == O_Extract && a->aux == 0 && a->w == 63 && a->k[0]->w == 64 && floaty(a->k[0])) return mk1(O_FAbs, 64, a->k[0]);
    if (op == O_ZExt && a->op == O_Ite && ((isC(a->k[1]) && isC(a->k[2])) || (a->w == 63 && (isC(a->k[1]) || isC(a->k[2]))))) return mkIte(a->k[0], mk1(O_ZExt, w, a->k[1]), mk1(O_ZExt, w, a->k[2])); }
  if (isC(a)) return mkc(evalOp(op, w, aux, a->w, a->c, 0, 0), w);
  switch (op) {
  case O_FIsNan: if (!fiv(a).nan) return FALSE_; if (a->op == O_FAdd || a->op == O_FSub) { Iv p = fiv(a->k[0]), q = fiv(a->k[1]); if (a->op == O_FSub) q = {-q.hi, -q.lo, q.nan}; if (!(p.hi == INF && q.lo == -INF) && !(p.lo == -INF && q.hi == INF)) return mkOr1(mk1(O_FIsNan, 1, a->k[0]), mk1(O_FIsNan, 1, a->k[1])); } if (a->op == O_Fun1 && (a->aux == F_LOG || a->aux == F_LOG10)) return mkOr1(mk1(O_FIsNan, 1, a->k[0]), mk2(O_FLt, 1, a->k[0], mkc(0, a->k[0]->w))); if (a->op == O_Ite) return mkIte(a->k[0], mk1(O_FIsNan, 1, a->k[1]), mk1(O_FIsNan, 1, a->k[2])); break;
  case O_FNeg: if (a->op == O_FNeg) return a->k[0]; break;
  case O_FAbs: { if (a->op == O_Ite && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mk1(O_FAbs, w, a->k[1]), mk1(O_FAbs, w, a->k[2])); Iv v = fiv(a); if (!v.nan && v.lo > 0) return a; if (!v.nan && v.hi < 0) return mk1(O_FNeg, w, a); if (a->op == O_FAbs) return a; if (a->op == O_FNeg) return mk1(O_FAbs, w, a->k[0]);
    if (a->op == O_FSub && a->k[0]->id > a->k[1]->id) return mk1(O_FAbs, w, intern(O_FSub, w, 0, a->k[1], a->k[0])); break; }
  case O_FFloor: case O_FCeil: case O_FTrunc: case O_FRound: case O_FRint:
    if (a->op >= O_FFloor && a->op <= O_FRint) return a;
    if (a->op == O_UToF || a->op == O_SToF) return a;
    break;
  case O_FTruncF: if (a->op == O_FExt) return a->k[0]; break;
  case O_FToU: case O_FToS: {
    Iv v = fiv(a); if (!v.nan && v.lo == v.hi) return mkc(evalOp(op, w, aux, a->w, fbits(v.lo, a->w), 0, 0), w);
    if (!v.nan && v.lo >= 0 && std::floor(v.lo) == std::floor(v.hi) && v.hi < 1e18) return mkc((u128)std::floor(v.lo), w);
    if (a->op == O_UToF && a->k[0]->w <= w) { u128 l, h; urange(a->k[0], l, h); if (h < ((u128)1 << (a->w == 32 ? 24 : 53)) && h <= (op == O_FToS ? maskw(w) >> 1 : maskw(w))) return mk1(O_ZExt, w, a->k[0]); }
    break; }
  default: break;
  }
  return intern(op, w, aux, a);
}
// a float that is exactly a whole number of magnitude <= 2^53 for every input, as a 64-bit integer (sg: may be negative).
// hard: a remainder or a rounded quotient is involved, which is where going back to integers pays off.
static E toInt(E e, bool &sg, bool &hard, int d = 10) {
  const u128 LIM = (u128)1 << 53; u128 l, h, l2, h2;
  if (e->w != 64 || d == 0) return nullptr;
  auto ok = [&](E x) { urange(x, l, h); return h <= LIM; };
  switch (e->op) {
  case O_Const: { double v = fval(e->c, 64); if (v != std::floor(v) || std::fabs(v) > 9e15 || std::signbit(v)) return nullptr; return mkc((u128)(u64)v, 64); }
  case O_UToF: return e->k[0]->w <= 64 && ok(e->k[0]) ? mk1(O_ZExt, 64, e->k[0]) : nullptr;
  case O_SToF: return e->k[0]->w <= 64 && ok(e->k[0]) ? mk1(O_SExt, 64, e->k[0]) : nullptr;
  case O_Ite: { bool s1 = false, s2 = false; E a = toInt(e->k[1], s1, hard, d - 1); if (!a) return nullptr; E b = toInt(e->k[2], s2, hard, d - 1); if (!b) return nullptr; sg |= s1 | s2; return mkIte(e->k[0], a, b); }
  case O_FAdd: case O_FSub: case O_FMul: case O_FRem: {
    bool s1 = false, s2 = false; E a = toInt(e->k[0], s1, hard, d - 1); if (!a) return nullptr; E b = toInt(e->k[1], s2, hard, d - 1); if (!b || s2) return nullptr;
    if (s1 && e->op != O_FRem) return nullptr;
    urange(a, l, h); urange(b, l2, h2);
    if (e->op == O_FAdd) return h + h2 <= LIM ? mk2(O_Add, 64, a, b) : nullptr;
    if (e->op == O_FSub) { if (l < h2) sg = true; return mk2(O_Sub, 64, a, b); }
    if (e->op == O_FMul) return !h || h2 <= LIM / h ? mk2(O_Mul, 64, a, b) : nullptr;
    if (!l2) return nullptr; // a remainder of zero may carry a sign, which no comparison sees
    hard = true; sg |= s1; return mk2(s1 ? O_SRem : O_URem, 64, a, b); }
  case O_FFloor: case O_FCeil: { E q = e->k[0]; if (q->op != O_FDiv) { E r = toInt(q, sg, hard, d - 1); hard = true; return r; }
    bool s1 = false, s2 = false; E a = toInt(q->k[0], s1, hard, d - 1); if (!a || s1) return nullptr; E b = toInt(q->k[1], s2, hard, d - 1); if (!b || s2) return nullptr;
    urange(a, l, h); urange(b, l2, h2); if (!l2 || h >= LIM / 4 || h2 >= LIM / 4) return nullptr; // the rounded quotient cannot reach the next integer
    hard = true; if (e->op == O_FCeil) a = mk2(O_Add, 64, a, mk2(O_Sub, 64, b, mkc(1, 64)));
    return mk2(O_UDiv, 64, a, b); }
  default: return nullptr;
  }
}
static E intCmp(Op op, E a, E b) {
  bool sg = false, hard = false; E x = toInt(a, sg, hard); if (!x) return nullptr; E y = toInt(b, sg, hard); if (!y || !hard) return nullptr;
  if (op == O_FEq) return mk2(O_Eq, 1, x, y);
  if (op == O_FLt) return mk2(sg ? O_Slt : O_Ult, 1, x, y);
  return mkNot(mk2(sg ? O_Slt : O_Ult, 1, y, x));
}
static void splitAdd(E e, E &x, u128 &c) { if (e->op == O_Add && isC(e->k[1])) { x = e->k[0]; c = e->k[1]->c; } else { x = e; c = 0; } }
static bool commut(Op o) { return o == O_Add || o == O_Mul || o == O_And || o == O_Or || o == O_Xor || o == O_Eq || o == O_FAdd || o == O_FMul || o == O_FEq; }
// a (as a signed number) is a multiple of c for every input; sums stay far from wrapping
static bool divisible(E e, u128 c, int d = 8) {
  if (isC(e)) return e->c % c == 0;
  if (d == 0) return false;
  u128 l, h;
  switch (e->op) {
  case O_Mul: urange(e->k[0], l, h); return isC(e->k[1]) && e->k[1]->c % c == 0 && e->k[1]->c && h <= ((u128)1 << 60) / e->k[1]->c;
  case O_Ite: return divisible(e->k[1], c, d - 1) && divisible(e->k[2], c, d - 1);
  case O_ZExt: return divisible(e->k[0], c, d - 1);
  default: return false;
  }
}
static bool divSum(E e, u128 c) {
  if (e->w < 64) return false;
  if (e->op == O_Ite) return divSum(e->k[1], c) && divSum(e->k[2], c);
  u128 l, h;
  if (e->op == O_Add && isC(e->k[1])) { u128 k = e->k[1]->c, n = (maskw(e->w) - k) + 1; urange(e->k[0], l, h); return h < ((u128)1 << 60) && ((k < ((u128)1 << 60) && k % c == 0) || (n < ((u128)1 << 60) && n % c == 0)) && divisible(e->k[0], c); }
  if (e->op == O_Add || e->op == O_Sub) { u128 l2, h2; urange(e->k[0], l, h); urange(e->k[1], l2, h2); return h < ((u128)1 << 60) && h2 < ((u128)1 << 60) && divisible(e->k[0], c) && divisible(e->k[1], c); }
  return divisible(e, c);
}
static E mk2(Op op, unsigned w, E a, E b, int aux) {
  if (op == O_Concat) return mkConcat(a, b);
  if (isC(a) && isC(b)) return mkc(evalOp(op, w, aux, a->w, a->c, b->c, 0), w);
  if (w == 1) { if (op == O_And) return mkAnd1(a, b); if (op == O_Or) return mkOr1(a, b);
    if (op == O_Xor) { if (isC(a)) return a->c ? mkNot(b) : b; if (isC(b)) return b->c ? mkNot(a) : a; if (a == b) return FALSE_; } }
  if (commut(op)) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); }
  u128 m = maskw(w);
  unsigned kw = a->w;
  switch (op) {
  case O_Add: if (isC(b, 0)) return a;
    if (isC(b) && a->op == O_Add && isC(a->k[1])) return mk2(O_Add, w, a->k[0], mkc(a->k[1]->c + b->c, w));
    if (isC(b) && a->op == O_Ite && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkc(a->k[1]->c + b->c, w), mkc(a->k[2]->c + b->c, w));
    if (a->op == O_Sub && a->k[1] == b) return a->k[0];
    if (b->op == O_Sub && b->k[1] == a) return b->k[0];
    break;
  case O_Sub: if (isC(b, 0)) return a; if (a == b) return mkc(0, w); if (isC(b)) return mk2(O_Add, w, a, mkc(-b->c, w));
    if (a->op == O_Add && a->k[0] == b) return a->k[1];
    if (a->op == O_Add && a->k[1] == b) return a->k[0];
    if (a->op == O_Add && b->op == O_Add && isC(a->k[1]) && isC(b->k[1]) && a->k[0] == b->k[0]) return mkc(a->k[1]->c - b->k[1]->c, w);
    break;
  case O_Mul: if (isC(b, 0)) return b; if (isC(b, 1)) return a; break;
  case O_UDiv: if (isC(b, 1)) return a;
    if (isC(b) && a->op == O_Mul && isC(a->k[1]) && b->c && a->k[1]->c % b->c == 0) { u128 l, h; urange(a->k[0], l, h); if (h <= m / a->k[1]->c) return mk2(O_Mul, w, a->k[0], mkc(a->k[1]->c / b->c, w)); }
    if (isC(b) && a->op == O_Mul && isC(a->k[1]) && a->k[1]->c && b->c % a->k[1]->c == 0) { u128 l, h; urange(a->k[0], l, h); if (h <= m / a->k[1]->c) return mk2(O_UDiv, w, a->k[0], mkc(b->c / a->k[1]->c, w)); }
    { u128 al, ah, bl, bh; urange(a, al, ah); urange(b, bl, bh); if (bl > 0 && ah < bl) return mkc(0, w); if (bl > 0 && al / bh == ah / bl) return mkc(al / bh, w); }
    if (isC(b) && a->op == O_UDiv && isC(a->k[1]) && a->k[1]->c && b->c && b->c <= m / a->k[1]->c) return mk2(O_UDiv, w, a->k[0], mkc(a->k[1]->c * b->c, w));
    break;
  case O_SDiv: case O_SRem: if (op == O_SRem && isC(b) && b->c && b->c < ((u128)1 << 60) && divSum(a, b->c)) return mkc(0, w);
    if (isC(b, 1)) return op == O_SRem ? mkc(0, w) : a;
    if (isC(b) && b->c && w > 1) { u128 l, h, half = (u128)1 << (w - 1); urange(a, l, h);
      if (h < half && b->c < half) return mk2(op == O_SDiv ? O_UDiv : O_URem, w, a, b);
      if (h < half && b->c > half) { E nb = mkc((m - b->c) + 1, w); return op == O_SRem ? mk2(O_URem, w, a, nb) : mk2(O_Sub, w, mkc(0, w), mk2(O_UDiv, w, a, nb)); } }
    break;
  case O_URem: if (isC(b, 1)) return mkc(0, w);
    if (isC(b) && b->c && w >= 64 && divisible(a, b->c)) return mkc(0, w);
    { u128 al, ah, bl, bh; urange(a, al, ah); urange(b, bl, bh); if (bl > 0 && ah < bl) return a; }
    if (isC(b) && b->c && w <= 64) { u128 al, ah; urange(a, al, ah); if (al / b->c == ah / b->c) return mk2(O_Sub, w, a, mkc(al / b->c * b->c, w)); }
    if (isC(b) && a->op == O_Mul && isC(a->k[1]) && b->c && a->k[1]->c % b->c == 0) { u128 l, h; urange(a->k[0], l, h); if (h <= m / a->k[1]->c) return mkc(0, w); }
    break;
  case O_And: if (isC(b, 0)) return b; if (isC(b, m)) return a; if (a == b) return a;
    if (isC(b)) { // low mask
      u128 l, h; urange(a, l, h); if ((smear(h) & b->c) == smear(h) ) return a;
      if ((smear(h) & b->c) == 0) return mkc(0, w);
      u128 mm = b->c; if (((mm + 1) & mm) == 0) { unsigned n = 0; while ((mm >> n) & 1) n++; if (n < w) return mk1(O_ZExt, w, mkExtract(a, 0, n)); }
    } break;
  case O_Or: if (isC(b, 0)) return a; if (isC(b, m)) return b; if (a == b) return a; if (isC(b) && w <= 64) { u128 xl, xh; urange(a, xl, xh); if ((smear(xh) & b->c) == 0) return mk2(O_Add, w, a, b); } break;
  case O_Xor: if (isC(b, 0)) return a; if (a == b) return mkc(0, w);
    if (isC(b) && b->c == ((u128)1 << (w - 1)) && floaty(a)) return mk1(O_FNeg, w, a); break;
  case O_Shl: if (isC(b, 0)) return a; if (isC(b) && b->c >= w) return mkc(0, w); 
    if (isC(b)) return mkConcat(mkExtract(a, 0, w - (unsigned)b->c), mkc(0, (unsigned)b->c)); break;
  case O_LShr: if (isC(b, 0)) return a; if (isC(b) && b->c >= w) return mkc(0, w);
    if (isC(b)) return mk1(O_ZExt, w, mkExtract(a, (unsigned)b->c, w - (unsigned)b->c)); break;
  case O_AShr: if (isC(b, 0)) return a; break;
  case O_Eq: if (a == b) return TRUE_;
    { E x, y; u128 cx, cy; splitAdd(a, x, cx); splitAdd(b, y, cy); if (x == y && !isC(x)) return cx == cy ? TRUE_ : FALSE_; }
    if (kw == 1) { if (isC(b)) return b->c ? a : mkNot(a); }
    if (isC(b)) {
      if (a->op == O_Ite && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mk2(O_Eq, 1, a->k[1], b), mk2(O_Eq, 1, a->k[2], b));
      if (a->op == O_ZExt) { if (b->c > maskw(a->k[0]->w)) return FALSE_; return mk2(O_Eq, 1, a->k[0], mkc(b->c, a->k[0]->w)); }
      if (a->op == O_Add && isC(a->k[1])) return mk2(O_Eq, 1, a->k[0], mkc(b->c - a->k[1]->c, kw));
      if (a->op == O_Concat) { unsigned lw = a->k[1]->w; return mkAnd1(mk2(O_Eq, 1, a->k[0], mkc(b->c >> lw, a->k[0]->w)), mk2(O_Eq, 1, a->k[1], mkc(b->c, lw))); }
      u128 l, h; urange(a, l, h); if (b->c < l || b->c > h) return FALSE_; if (l == h) return TRUE_;
    } else { u128 l, h, l2, h2; urange(a, l, h); urange(b, l2, h2); if (h < l2 || h2 < l) return FALSE_; }
    break;
  case O_Ult: { if (a == b) return FALSE_; u128 l, h, l2, h2; urange(a, l, h); urange(b, l2, h2); if (h < l2) return TRUE_; if (l >= h2) return FALSE_;
    { E x, y; u128 cx, cy; splitAdd(a, x, cx); splitAdd(b, y, cy); if (x == y && !isC(x)) { u128 xl, xh; urange(x, xl, xh); u128 km = maskw(kw); if (xh <= km - cx && xh <= km - cy) return cx < cy ? TRUE_ : FALSE_; }
      // (x + c) < K with no wrap
      if (isC(b) && cx) { u128 xl, xh; urange(x, xl, xh); if (xh <= maskw(kw) - cx) { if (b->c <= cx) return FALSE_; return mk2(O_Ult, 1, x, mkc(b->c - cx, kw)); } }
      if (isC(a) && cy) { u128 xl, xh; urange(y, xl, xh); if (xh <= maskw(kw) - cy) { if (a->c < cy) return TRUE_; return mk2(O_Ult, 1, mkc(a->c - cy, kw), y); } } }
    if (a->op == O_ZExt && b->op == O_ZExt && a->k[0]->w == b->k[0]->w) return mk2(O_Ult, 1, a->k[0], b->k[0]);
    if (a->op == O_ZExt && isC(b) && b->c <= maskw(a->k[0]->w)) return mk2(O_Ult, 1, a->k[0], mkc(b->c, a->k[0]->w));
    if (b->op == O_ZExt && isC(a) && a->c <= maskw(b->k[0]->w)) return mk2(O_Ult, 1, mkc(a->c, b->k[0]->w), b->k[0]);
    if (a->op == O_Ite && isC(b) && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mk2(O_Ult, 1, a->k[1], b), mk2(O_Ult, 1, a->k[2], b));
    if (b->op == O_Ite && isC(a) && (isC(b->k[1]) || isC(b->k[2]))) return mkIte(b->k[0], mk2(O_Ult, 1, a, b->k[1]), mk2(O_Ult, 1, a, b->k[2]));
    // overflow test of an addition: (x + c) < c  <=>  x + c wraps
    break; }
  case O_Slt: { if (a == b) return FALSE_; u128 l, h, l2, h2; urange(a, l, h); urange(b, l2, h2); u128 half = (u128)1 << (kw - 1);
    if (h < half && h2 < half) return mk2(O_Ult, 1, a, b);
    if (h < half && l2 >= half) return FALSE_; if (l >= half && h2 < half) return TRUE_; if (l >= half && l2 >= half) return mk2(O_Ult, 1, a, b);
    if (isC(b, 0) && h < half) return FALSE_;
    if (isC(b, 0)) return mkExtract(a, kw - 1, 1) ;
    break; }
  case O_FAdd: { Iv x = fiv(a), y = fiv(b); (void)x;
    if (isC(b)) { double d = fval(b->c, w); if (d == 0 && (std::signbit(d) || (!x.nan && (x.lo > 0 || x.hi < 0)) )) return a;
      if (d == 0 && a->op != O_FNeg && a->op != O_FMul && a->op != O_FDiv && a->op != O_Var && (a->op == O_FAdd || a->op == O_FSub)) return a; } // x+y / x-y is never -0 unless both are -0: value unchanged
    if (isC(a)) { double d = fval(a->c, w); if (d == 0 && (std::signbit(d) || (!y.nan && (y.lo > 0 || y.hi < 0)) || neverNegZero(b))) return b; }
    if (isC(b) && fval(b->c, w) == 0 && neverNegZero(a)) return a;
    for (int i = 0; i < 2; i++) { E s = i ? b : a, o = i ? a : b; // (x + 0) + y
      if (s->op == O_FAdd) for (int j = 0; j < 2; j++) if (isC(s->k[j], 0) && (neverNegZero(o) || neverNegZero(s->k[1 - j]))) return mk2(O_FAdd, w, s->k[1 - j], o); }
    break; }
  case O_FSub: { Iv x = fiv(a);
    if (isC(b)) { double d = fval(b->c, w); if (d == 0 && !std::signbit(d)) return a; }
    if (a == b && !x.nan && !hasInf(x)) return mkc(0, w);
    break; }
  case O_FMul: if (isC(b)) { double d = fval(b->c, w); if (d == 1.0) return a; if (d == -1.0) return mk1(O_FNeg, w, a); } break;
  case O_FDiv: { if (isC(b)) { double d = fval(b->c, w); if (d == 1.0) return a; }
    Iv x = fiv(a); if (a == b && !x.nan && !hasInf(x) && (x.lo > 0 || x.hi < 0)) return mkc(fbits(1.0, w), w);
    if (isC(a) && fval(a->c, w) == 0 && !std::signbit(fval(a->c, w))) { Iv y = fiv(b); if (!y.nan && y.lo > 0) return a; }
    break; }
  case O_FEq: { if (a == b) return mkNot(mk1(O_FIsNan, 1, a)); Iv x = fiv(a), y = fiv(b); if (!x.nan && !y.nan) { if (a == b) return TRUE_; } 
    if (x.hi < y.lo || y.hi < x.lo) return FALSE_;
    if (isC(b) && a->op == O_Ite && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mk2(O_FEq, 1, a->k[1], b), mk2(O_FEq, 1, a->k[2], b));
    if (isC(b) && fval(b->c, kw) == 0 && a->op == O_FDiv && a->k[0]->op == O_UToF && isC(a->k[1]) && fval(a->k[1]->c, kw) > 0 && fval(a->k[1]->c, kw) < 1e300) return mk2(O_Eq, 1, a->k[0]->k[0], mkc(0, a->k[0]->k[0]->w));
    if (isC(b) && fval(b->c, kw) == 0 && a->op == O_FSub) { Iv p = fiv(a->k[0]), q = fiv(a->k[1]); if (!p.nan && !q.nan && !hasInf(p) && !hasInf(q)) return mk2(O_FEq, 1, a->k[0], a->k[1]); }
    break; }
  case O_FLt: case O_FLe: if (isC(b) && a->op == O_Ite && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mk2(op, 1, a->k[1], b), mk2(op, 1, a->k[2], b));
    if (isC(a) && b->op == O_Ite && (isC(b->k[1]) || isC(b->k[2]))) return mkIte(b->k[0], mk2(op, 1, a, b->k[1]), mk2(op, 1, a, b->k[2]));
    if (isC(b) && fval(b->c, kw) == 0 && a->op == O_FAdd) for (int j = 0; j < 2; j++) if (isC(a->k[j])) return mk2(op, 1, a->k[1 - j], mk1(O_FNeg, kw, a->k[j])); // the sign of a rounded sum is exact
    if (op == O_FLe) goto fle;
  { Iv x = fiv(a), y = fiv(b); if (a == b) return FALSE_; if (!x.nan && !y.nan && x.hi < y.lo) return TRUE_; if (x.lo >= y.hi) return FALSE_;
    if (isC(b) && fval(b->c, kw) == 0 && a->op == O_FSub) { Iv p = fiv(a->k[0]), q = fiv(a->k[1]); if (!p.nan && !q.nan && !hasInf(p) && !hasInf(q)) return mk2(O_FLt, 1, a->k[0], a->k[1]); }
    if (isC(a) && fval(a->c, kw) == 0 && b->op == O_FSub) { Iv p = fiv(b->k[0]), q = fiv(b->k[1]); if (!p.nan && !q.nan && !hasInf(p) && !hasInf(q)) return mk2(O_FLt, 1, b->k[1], b->k[0]); }
    break; }
  fle: { Iv x = fiv(a), y = fiv(b); if (!x.nan && !y.nan) { if (a == b) return TRUE_; if (x.hi <= y.lo) return TRUE_; } if (x.lo > y.hi) return FALSE_; 
    if (isC(b) && fval(b->c, kw) == 0 && a->op == O_FSub) { Iv p = fiv(a->k[0]), q = fiv(a->k[1]); if (!p.nan && !q.nan && !hasInf(p) && !hasInf(q)) return mk2(O_FLe, 1, a->k[0], a->k[1]); }
    if (isC(a) && fval(a->c, kw) == 0 && b->op == O_FSub) { Iv p = fiv(b->k[0]), q = fiv(b->k[1]); if (!p.nan && !q.nan && !hasInf(p) && !hasInf(q)) return mk2(O_FLe, 1, b->k[1], b->k[0]); }
    break; }
  default: break;
  }
  if ((op == O_FEq || op == O_FLt || op == O_FLe) && kw == 64) if (E r = intCmp(op, a, b)) return r;
  return intern(op, w, aux, a, b);
}
static E mkFma(unsigned w, E a, E b, E c) {
  if (isC(a) && isC(b) && isC(c)) return mkc(evalOp(O_Fma, w, 0, w, a->c, b->c, c->c), w);
  return intern(O_Fma, w, 0, a, b, c);
}
static void initExpr() { TRUE_ = mkc(1, 1); FALSE_ = mkc(0, 1); }

static std::unordered_map<std::string, int> VARTAB;
static E mkVar(const VarInfo &vi) {
  char buf[256]; snprintf(buf, sizeof buf, "%s:%u:%ld:%a:%a:%llx:%llx:%llx:%llx", vi.kind.c_str(), vi.w, vi.seq, vi.lo, vi.hi,
    (unsigned long long)vi.ulo, (unsigned long long)vi.uhi, (unsigned long long)vi.key1, (unsigned long long)vi.key2);
  auto it = VARTAB.find(buf); int idx;
  if (it == VARTAB.end()) { idx = (int)VARS.size(); VARS.push_back(vi); VARTAB[buf] = idx; } else idx = it->second;
  return intern(O_Var, vi.w, idx);
}

// ---- concrete evaluation --------------------------------------------------------------------
struct Evaluator {
  std::vector<u128> val; std::vector<uint32_t> stamp; uint32_t epoch = 0;
  const std::unordered_map<int, u128> *asg = nullptr;
  void begin(const std::unordered_map<int, u128> &a) { asg = &a; epoch++; if (val.size() < ALL.size()) { val.resize(ALL.size() + 1024); stamp.resize(ALL.size() + 1024, 0); } }
  u128 get(E root) {
    if (val.size() < ALL.size()) { val.resize(ALL.size() + 1024); stamp.resize(ALL.size() + 1024, 0); }
    if (stamp[root->id] == epoch) return val[root->id];
    std::vector<E> st{root};
    while (!st.empty()) {
      E e = st.back();
      if (stamp[e->id] == epoch) { st.pop_back(); continue; }
      if (e->op == O_Const) { val[e->id] = e->c; stamp[e->id] = epoch; st.pop_back(); continue; }
      if (e->op == O_Var) { auto it = asg->find(e->aux); u128 v; if (it != asg->end()) v = it->second; else { const VarInfo &vi = VARS[e->aux]; v = vi.fl ? fbits(vi.lo, vi.w) : vi.ulo; } val[e->id] = v; stamp[e->id] = epoch; st.pop_back(); continue; }
      bool ready = true;
      for (int i = 0; i < 3; i++) if (e->k[i] && stamp[e->k[i]->id] != epoch) { st.push_back(e->k[i]); ready = false; }
      if (!ready) continue;
      u128 a = e->k[0] ? val[e->k[0]->id] : 0, b = e->k[1] ? val[e->k[1]->id] : 0, c = e->k[2] ? val[e->k[2]->id] : 0;
      u128 r;
      if (e->op == O_Concat) r = (a << e->k[1]->w) | b; else r = evalOp(e->op, e->w, e->aux, e->k[0] ? e->k[0]->w : 0, a, b, c);
      val[e->id] = r & maskw(e->w); stamp[e->id] = epoch; st.pop_back();
    }
    return val[root->id];
  }
};

static std::string estr(E e, int d = 6) {
  if (e->op == O_Const) { char b[64]; if (e->w == 64) { double x = b2d((u64)e->c); if (std::fabs(x) > 1e-30 && std::fabs(x) < 1e30) snprintf(b, 64, "%g", x); else snprintf(b, 64, "%llu", (unsigned long long)e->c); } else snprintf(b, 64, "%llu", (unsigned long long)e->c); return b; }
  if (e->op == O_Var) return VARS[e->aux].kind + std::to_string(VARS[e->aux].seq);
  if (d == 0) return "..";
  std::string s = "(" + std::string(OPN[e->op]); if (e->aux) s += "#" + std::to_string(e->aux);
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + estr(e->k[i], d - 1);
  return s + ")";
}
