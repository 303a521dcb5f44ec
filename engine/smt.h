// Lowering of the expression DAG to Z3, and an incremental solver aligned with the path condition.
#pragma once
#include "expr.h"
#include <z3++.h>
#include <chrono>
#include <functional>
#include <map>
#include <unistd.h>

// Float semantics of a lowering:
//  UF  : floats are reals (exact values of the doubles), arithmetic is uninterpreted + sound axioms
//  LIN : + - and multiplication/division by constants are exact real arithmetic, rest uninterpreted
//  NRA : all rational arithmetic is exact real arithmetic
//  FP  : exact IEEE-754 (SMT FloatingPoint)
enum Mode { M_UF, M_LIN, M_NRA, M_FP };
static const char *MODEN[] = {"UF", "LIN", "NRA", "FP"};

struct Stats { long queries = 0; double solver_s = 0; long byMode[4] = {0,0,0,0}; double timeMode[4] = {0,0,0,0}; } ST;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Lower {
  z3::context &c; Mode mode;
  z3::sort R;
  struct FV { z3::expr r; z3::expr nan; bool hasNan; };
  std::unordered_map<uint32_t, z3::expr> bvc; std::unordered_map<uint32_t, FV> flc; std::unordered_map<uint32_t, z3::expr> fpc;
  std::map<std::string, z3::func_decl> uf;
  std::vector<z3::expr> axioms;               // produced by the current lowering
  z3::expr pinf, ninf;
  Lower(z3::context &cc, Mode m) : c(cc), mode(m), R(cc.real_sort()), pinf(cc), ninf(cc) {
    z3::expr two = c.real_val(2); (void)two;
    std::string s = "1"; pinf = realc(std::ldexp(1.0, 1023)) * 2; ninf = -pinf; pinf = pinf.simplify(); ninf = ninf.simplify();
  }
  z3::expr realc(double d) {
    if (d == INF) return pinf; if (d == -INF) return ninf;
    int ex; double m = std::frexp(d, &ex); // d = m*2^ex
    int64_t mi = (int64_t)std::ldexp(m, 53); ex -= 53;
    while (mi && !(mi & 1)) { mi >>= 1; ex++; }
    if (mi == 0) return c.real_val(0);
    z3::expr r = c.real_val(std::to_string(mi).c_str());
    static std::map<int, std::string> p2;
    auto pw = [&](int n) -> std::string & { auto it = p2.find(n); if (it != p2.end()) return it->second; std::vector<int> dig{1};
      for (int i = 0; i < n; i++) { int cy = 0; for (auto &x : dig) { x = x * 2 + cy; cy = x / 10; x %= 10; } if (cy) dig.push_back(cy); }
      std::string s; for (auto i = dig.rbegin(); i != dig.rend(); ++i) s += char('0' + *i); return p2[n] = s; };
    if (ex == 0) return r;
    if (ex > 0) return (r * c.real_val(pw(ex).c_str())).simplify();
    return c.real_val((std::to_string(mi) + "/" + pw(-ex)).c_str());
  }
  z3::func_decl fn(const std::string &n, const std::vector<z3::sort> &d, z3::sort r) {
    auto it = uf.find(n); if (it != uf.end()) return it->second;
    z3::sort_vector sv(c); for (auto &s : d) sv.push_back(s);
    z3::func_decl f = c.function(n.c_str(), sv, r); uf.emplace(n, f); return f;
  }
  static z3::expr mkz(z3::context &c, Z3_ast a) { c.check_error(); return z3::expr(c, a); }
  z3::expr F() { return c.bool_val(false); }
  z3::expr bvnum(u128 v, unsigned w) {
    if (w <= 64) return c.bv_val((uint64_t)v, w);
    return z3::concat(c.bv_val((uint64_t)(v >> 64), w - 64), c.bv_val((uint64_t)v, 64));
  }
  std::string sfx(E e) { return e->w == 32 ? "32" : "64"; }

  // ------------------------------ bit-vectors / booleans ------------------------------------
  std::unordered_map<uint32_t, std::vector<z3::expr>> ax; // sound axioms per DAG node
  struct AxScope { Lower &l; uint32_t id; std::vector<z3::expr> tmp;
    AxScope(Lower &ll, uint32_t i) : l(ll), id(i) { tmp.swap(l.axioms); }
    ~AxScope() { if (!l.axioms.empty()) { auto &v = l.ax[id]; v.insert(v.end(), l.axioms.begin(), l.axioms.end()); } l.axioms.swap(tmp); } };
  z3::expr bv(E e) {
    auto it = bvc.find(e->id); if (it != bvc.end()) return it->second;
    AxScope sc(*this, e->id);
    z3::expr r = bv_(e); bvc.emplace(e->id, r); return r;
  }
  z3::expr bv_(E e) {
    unsigned w = e->w;
    auto B = [&](int i) { return bv(e->k[i]); };
    auto b2v = [&](z3::expr x) { return x; };
    (void)b2v;
    if (mode == M_FP) {
      if (isFloatOp(e->op)) { return mkz(c, Z3_mk_fpa_to_ieee_bv(c, fp(e))); }
      if (e->op == O_Var && VARS[e->aux].fl) return c.bv_const(("v" + std::to_string(e->aux)).c_str(), w);
      switch (e->op) {
      case O_FIsNan: return mkz(c, Z3_mk_fpa_is_nan(c, fp(e->k[0])));
      case O_FEq: return mkz(c, Z3_mk_fpa_eq(c, fp(e->k[0]), fp(e->k[1])));
      case O_FLt: return mkz(c, Z3_mk_fpa_lt(c, fp(e->k[0]), fp(e->k[1])));
      case O_FLe: return mkz(c, Z3_mk_fpa_leq(c, fp(e->k[0]), fp(e->k[1])));
      case O_FToU: case O_FToS: {
        E a = e->k[0]; z3::expr x = fp(a); z3::expr rtz = c.fpa_rounding_mode(); rtz = mkz(c, Z3_mk_fpa_rtz(c));
        bool u = e->op == O_FToU; z3::expr conv = mkz(c, u ? Z3_mk_fpa_to_ubv(c, rtz, x, w) : Z3_mk_fpa_to_sbv(c, rtz, x, w));
        double hi = std::ldexp(1.0, u ? w : w - 1), lo = u ? -1.0 : -hi;
        z3::expr H = fp(mkc(fbits(hi, a->w), a->w)), L = fp(mkc(fbits(lo, a->w), a->w));
        z3::expr isn = mkz(c, Z3_mk_fpa_is_nan(c, x)); z3::expr ge = mkz(c, Z3_mk_fpa_geq(c, x, H)), le = mkz(c, Z3_mk_fpa_leq(c, x, L));
        u128 m = maskw(w);
        return z3::ite(isn, bvnum(0, w), z3::ite(ge, bvnum(u ? m : m >> 1, w), z3::ite(le, bvnum(u ? 0 : (m >> 1) + 1, w), conv))); }
      default: break;
      }
    } else {
      if (isFloatOp(e->op)) return f2b(fl(e), e);
      if (e->op == O_Var && VARS[e->aux].fl) return f2b(fl(e), e);
      switch (e->op) {
      case O_FIsNan: { FV a = fl(e->k[0]); return a.hasNan ? a.nan : F(); }
      case O_FEq: { FV a = fl(e->k[0]), b = fl(e->k[1]); return ok2(a, b, a.r == b.r); }
      case O_FLt: { FV a = fl(e->k[0]), b = fl(e->k[1]); return ok2(a, b, a.r < b.r); }
      case O_FLe: { FV a = fl(e->k[0]), b = fl(e->k[1]); return ok2(a, b, a.r <= b.r); }
      case O_Eq: if ((e->k[0]->w == 64 || e->k[0]->w == 32) && (floaty(e->k[0]) || floaty(e->k[1]))) {
          FV a = fl(e->k[0]), b = fl(e->k[1]); z3::expr q = a.r == b.r;
          if (a.hasNan || b.hasNan) { z3::expr an = a.hasNan ? a.nan : F(), bn = b.hasNan ? b.nan : F(); return (an && bn) || (!an && !bn && q); }
          return q; } break;
      case O_FToU: case O_FToS: {
        // uninterpreted conversion with a range axiom
        FV a = fl(e->k[0]); std::string n = std::string(e->op == O_FToU ? "ftou" : "ftos") + sfx(e->k[0]) + "_" + std::to_string(w);
        z3::expr r = fn(n, {R}, c.bv_sort(w))(a.r);
        Iv v = fiv(e->k[0]);
        if (!v.nan && v.lo >= 0 && v.hi < 9e18 && w <= 64) axioms.push_back(z3::ule(r, bvnum((u128)v.hi, w)) && z3::uge(r, bvnum((u128)v.lo, w)));
        // exact relation through integers for small ranges
        if (!v.nan && v.lo >= 0 && v.hi < 4096 && w <= 64) {
          z3::expr ir = z3::to_real(mkz(c, Z3_mk_bv2int(c, r, false))); axioms.push_back(ir <= a.r && a.r < ir + 1); }
        return r; }
      default: break;
      }
    }
    switch (e->op) {
    case O_Const: return w == 1 ? c.bool_val(e->c != 0) : bvnum(e->c, w);
    case O_Var: {
      const VarInfo &vi = VARS[e->aux]; std::string n = "v" + std::to_string(e->aux);
      if (w == 1) return c.bool_const(n.c_str());
      z3::expr r = c.bv_const(n.c_str(), w);
      if (vi.ulo > 0) axioms.push_back(z3::uge(r, bvnum(vi.ulo, w)));
      if (vi.uhi < maskw(w)) axioms.push_back(z3::ule(r, bvnum(vi.uhi, w)));
      return r; }
    case O_Add: return B(0) + B(1);
    case O_Sub: return B(0) - B(1);
    case O_Mul: return B(0) * B(1);
    case O_UDiv: return z3::udiv(B(0), B(1));
    case O_URem: return z3::urem(B(0), B(1));
    case O_SDiv: return B(0) / B(1);
    case O_SRem: return z3::srem(B(0), B(1));
    case O_And: return w == 1 ? (B(0) && B(1)) : (B(0) & B(1));
    case O_Or: return w == 1 ? (B(0) || B(1)) : (B(0) | B(1));
    case O_Xor: return w == 1 ? (B(0) != B(1)) : (B(0) ^ B(1));
    case O_Shl: return z3::shl(B(0), B(1));
    case O_LShr: return z3::lshr(B(0), B(1));
    case O_AShr: return z3::ashr(B(0), B(1));
    case O_Not: return !B(0);
    case O_Eq: return B(0) == B(1);
    case O_Ult: if (e->k[0]->w == 1) return !B(0) && B(1); return z3::ult(B(0), B(1));
    case O_Slt: if (e->k[0]->w == 1) return B(0) && !B(1); return z3::slt(B(0), B(1));
    case O_Ite: return z3::ite(B(0), B(1), B(2));
    case O_Concat: return z3::concat(B1(e->k[0]), B1(e->k[1]));
    case O_Extract: { z3::expr x = B(0).extract(e->aux + w - 1, e->aux); return w == 1 ? (x == c.bv_val(1, 1)) : x; }
    case O_ZExt: return z3::zext(B1(e->k[0]), w - e->k[0]->w);
    case O_SExt: return z3::sext(B1(e->k[0]), w - e->k[0]->w);
    default: break;
    }
    fprintf(stderr, "bv lowering: %s\n", OPN[e->op]); abort();
  }
  z3::expr B1(E e) { z3::expr x = bv(e); if (e->w == 1) return z3::ite(x, c.bv_val(1, 1), c.bv_val(0, 1)); return x; }
  z3::expr ok2(const FV &a, const FV &b, z3::expr q) { if (a.hasNan) q = !a.nan && q; if (b.hasNan) q = !b.nan && q; return q; }
  z3::expr f2b(const FV &a, E e) { z3::expr r = fn("f2b" + sfx(e), {R}, c.bv_sort(e->w))(a.r);
    Iv v = fiv(e); if (!v.nan && v.lo >= 0) axioms.push_back(z3::ule(r, bvnum(fbits(v.hi, e->w), e->w)));
    axioms.push_back(fn("b2f" + sfx(e), {c.bv_sort(e->w)}, R)(r) == a.r); return r; }

  // outward rounding of derived bounds to short rationals (sound: only weakens)
  static double shorten(double d, bool up) { if (d == 0 || !std::isfinite(d)) return d; int ex; double m = std::frexp(d, &ex); double k = std::ldexp(m, 10); double r = up ? std::ceil(k) : std::floor(k); double y = std::ldexp(r, ex - 10); if (!std::isfinite(y)) return d; if (std::fabs(y) < 1e-30 && y != 0) return up ? (d > 0 ? std::fmax(y, 1e-30) : 0) : (d > 0 ? 0 : std::fmin(y, -1e-30)); return y; }
  // three-valued comparison used to simplify axioms
  struct C3 { int k; z3::expr e; };
  C3 geC(const Iv &v, const z3::expr &r, double x) { if (!v.nan && v.lo >= x) return {1, c.bool_val(true)}; if (v.hi < x) return {0, c.bool_val(false)}; return {-1, r >= realc(x)}; }
  C3 leC(const Iv &v, const z3::expr &r, double x) { if (!v.nan && v.hi <= x) return {1, c.bool_val(true)}; if (v.lo > x) return {0, c.bool_val(false)}; return {-1, r <= realc(x)}; }
  C3 gtC(const Iv &v, const z3::expr &r, double x) { if (!v.nan && v.lo > x) return {1, c.bool_val(true)}; if (v.hi <= x) return {0, c.bool_val(false)}; return {-1, r > realc(x)}; }
  C3 eqC(const Iv &v, const z3::expr &r, double x) { if (!v.nan && v.lo == x && v.hi == x) return {1, c.bool_val(true)}; if (v.hi < x || v.lo > x) return {0, c.bool_val(false)}; return {-1, r == realc(x)}; }
  C3 raw(const z3::expr &e) { return {-1, e}; }
  void imp(std::vector<z3::expr> &out, std::initializer_list<C3> cs, z3::expr con) {
    z3::expr_vector h(c); for (auto &x : cs) { if (x.k == 0) return; if (x.k < 0) h.push_back(x.e); }
    if (h.size() == 0) out.push_back(con); else if (h.size() == 1) out.push_back(z3::implies(h[0], con)); else out.push_back(z3::implies(z3::mk_and(h), con)); }
  void emit(std::vector<z3::expr> &v, bool guarded, const z3::expr &g) { for (auto &x : v) axioms.push_back(guarded ? z3::implies(g, x) : x); }

  // ------------------------------ floats as reals --------------------------------------------
  FV fl(E e) { auto it = flc.find(e->id); if (it != flc.end()) return it->second; AxScope sc(*this, e->id); FV r = fl_(e); flc.emplace(e->id, r); return r; }
  FV mk(z3::expr r) { return FV{r, F(), false}; }
  FV mkn(z3::expr r, bool has, z3::expr n) { return FV{r, has ? n : F(), has}; }
  z3::expr nanOf(const FV &a) { return a.hasNan ? a.nan : F(); }
  FV fl_(E e) {
    Iv v = fiv(e); bool inf = hasInf(v);
    auto A = [&](int i) { return fl(e->k[i]); };
    auto bound = [&](z3::expr r) { // interval axioms for opaque terms
      if (v.lo > v.hi) return;
      if (v.lo == v.hi && std::isfinite(v.lo) && !v.nan) { axioms.push_back(r == realc(v.lo)); return; }
      axioms.push_back(r >= realc(shorten(v.lo, false))); axioms.push_back(r <= realc(shorten(v.hi, true))); };
    switch (e->op) {
    case O_Const: { double d = fval(e->c, e->w); if (std::isnan(d)) return FV{c.real_val(0), c.bool_val(true), true}; return mk(realc(d)); }
    case O_Var: if (VARS[e->aux].fl) { z3::expr r = c.real_const(("v" + std::to_string(e->aux)).c_str()); bound(r); return mk(r); } break;
    case O_Ite: { FV a = A(1), b = A(2); z3::expr q = bv(e->k[0]); bool hn = (a.hasNan || b.hasNan) && v.nan; return mkn(z3::ite(q, a.r, b.r), hn, z3::ite(q, nanOf(a), nanOf(b))); }
    case O_FNeg: { FV a = A(0); return mkn(-a.r, a.hasNan, nanOf(a)); }
    case O_FAbs: { FV a = A(0); return mkn(z3::ite(a.r >= 0, a.r, -a.r), a.hasNan, nanOf(a)); }
    case O_FExt: return A(0);
    case O_FAdd: case O_FSub: {
      FV a = A(0), b = A(1); bool sub = e->op == O_FSub; Iv x = fiv(e->k[0]), y = fiv(e->k[1]);
      bool inInf = hasInf(x) || hasInf(y);
      z3::expr br = sub ? -b.r : b.r;
      bool hn = v.nan; z3::expr nn = F();
      if (hn) { nn = nanOf(a) || nanOf(b); if (inInf) nn = nn || (a.r >= pinf && br <= ninf) || (a.r <= ninf && br >= pinf); }
      if (mode >= M_LIN && !inf && !inInf) return mkn(a.r + br, hn, nn);
      z3::expr r = fn(std::string(sub ? "fsub" : "fadd") + sfx(e), {R, R}, R)(a.r, b.r);
      if (mode >= M_LIN) { // finite result: exact
        z3::expr fin = a.r < pinf && a.r > ninf && b.r < pinf && b.r > ninf, rf = r < pinf && r > ninf;
        axioms.push_back(z3::implies(fin && rf, r == a.r + br)); axioms.push_back(z3::implies(fin && r >= pinf, a.r + br >= realc(1e300))); axioms.push_back(z3::implies(fin && r <= ninf, a.r + br <= realc(-1e300))); }
      bound(r);
      z3::expr fin = c.bool_val(true); if (inInf) fin = a.r < pinf && a.r > ninf && b.r < pinf && b.r > ninf;
      std::vector<z3::expr> ax; Iv yb = sub ? Iv{-y.hi, -y.lo, y.nan} : y;
      imp(ax, {geC(yb, br, 0)}, r >= a.r); imp(ax, {leC(yb, br, 0)}, r <= a.r);
      imp(ax, {geC(x, a.r, 0)}, r >= br); imp(ax, {leC(x, a.r, 0)}, r <= br);
      if (sub) { if (x.lo <= y.hi) imp(ax, {raw(a.r <= b.r)}, r <= 0); if (x.hi >= y.lo) imp(ax, {raw(a.r >= b.r)}, r >= 0);
        if (x.lo < y.hi) imp(ax, {raw(a.r < b.r)}, r < 0); if (x.hi > y.lo) imp(ax, {raw(a.r > b.r)}, r > 0); }
      emit(ax, inInf, fin);
      return mkn(r, hn, nn); }
    case O_FMul: {
      FV a = A(0), b = A(1); Iv x = fiv(e->k[0]), y = fiv(e->k[1]); bool inInf = hasInf(x) || hasInf(y);
      bool hn = v.nan; z3::expr nn = F();
      if (hn) { nn = nanOf(a) || nanOf(b); if (inInf) nn = nn || (a.r == 0 && (b.r >= pinf || b.r <= ninf)) || (b.r == 0 && (a.r >= pinf || a.r <= ninf)); }
      bool cst = isC(e->k[0]) || isC(e->k[1]);
      if (!inf && !inInf && ((mode == M_LIN && cst) || mode == M_NRA)) return mkn(a.r * b.r, hn, nn);
      z3::expr r = fn("fmul" + sfx(e), {R, R}, R)(a.r, b.r);
      bound(r);
      if (mode == M_NRA || (mode == M_LIN && cst)) {
        z3::expr fin = a.r < pinf && a.r > ninf && b.r < pinf && b.r > ninf, rf = r < pinf && r > ninf;
        axioms.push_back(z3::implies(fin && rf, r == a.r * b.r)); axioms.push_back(z3::implies(fin && r >= pinf, a.r * b.r >= realc(1e300))); axioms.push_back(z3::implies(fin && r <= ninf, a.r * b.r <= realc(-1e300))); }
      std::vector<z3::expr> ax;
      auto side = [&](const FV &p, Iv pi, const FV &q, Iv qi) {
        imp(ax, {geC(pi, p.r, 0), geC(qi, q.r, 0), leC(qi, q.r, 1)}, r <= p.r); imp(ax, {geC(pi, p.r, 0), geC(qi, q.r, 1)}, r >= p.r);
        if (pi.lo < 0) { imp(ax, {leC(pi, p.r, 0), geC(qi, q.r, 0), leC(qi, q.r, 1)}, r >= p.r); imp(ax, {leC(pi, p.r, 0), geC(qi, q.r, 1)}, r <= p.r); }
      };
      if (!isC(e->k[0])) side(a, x, b, y); if (e->k[0] != e->k[1] && !isC(e->k[1])) side(b, y, a, x);
      if (x.lo < 0 || y.lo < 0 || x.nan || y.nan) {
        imp(ax, {geC(x, a.r, 0), geC(y, b.r, 0)}, r >= 0); imp(ax, {leC(x, a.r, 0), leC(y, b.r, 0)}, r >= 0);
        imp(ax, {geC(x, a.r, 0), leC(y, b.r, 0)}, r <= 0); imp(ax, {leC(x, a.r, 0), geC(y, b.r, 0)}, r <= 0);
      } else { imp(ax, {eqC(x, a.r, 0)}, r == 0); imp(ax, {eqC(y, b.r, 0)}, r == 0); }
      emit(ax, hn, !nn);
      return mkn(r, hn, nn); }
    case O_FDiv: {
      FV a = A(0), b = A(1); Iv x = fiv(e->k[0]), y = fiv(e->k[1]); bool inInf = hasInf(x) || hasInf(y); bool bz = y.lo <= 0 && y.hi >= 0; if (e->aux == 1 && !v.nan && !inf) bz = false; // aux 1: divisor known nonzero on this path
      bool hn = v.nan; z3::expr nn = F();
      if (hn) { nn = nanOf(a) || nanOf(b) || (a.r == 0 && b.r == 0); if (inInf) nn = nn || ((a.r >= pinf || a.r <= ninf) && (b.r >= pinf || b.r <= ninf)); }
      if (!inf && !inInf && !bz) { if (mode == M_LIN && isC(e->k[1])) return mkn(a.r / b.r, hn, nn); if (mode == M_NRA) return mkn(a.r / b.r, hn, nn); }
      z3::expr r = fn("fdiv" + sfx(e), {R, R}, R)(a.r, b.r);
      bound(r);
      if (mode == M_NRA || (mode == M_LIN && isC(e->k[1]))) {
        z3::expr fin = b.r != 0 && a.r < pinf && a.r > ninf && b.r < pinf && b.r > ninf, rf = r < pinf && r > ninf; z3::expr K = c.real_val("1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000");
        axioms.push_back(z3::implies(fin && rf, r * b.r == a.r));
        axioms.push_back(z3::implies(fin && !rf, z3::ite(a.r >= 0, a.r, -a.r) >= K * z3::ite(b.r >= 0, b.r, -b.r))); } // only a huge quotient overflows
      std::vector<z3::expr> ax;
      if (bz) imp(ax, {raw(b.r == 0 && a.r != 0)}, r == pinf || r == ninf);
      C3 p = gtC(y, b.r, 0);
      imp(ax, {p, geC(x, a.r, 0)}, r >= 0); imp(ax, {p, leC(x, a.r, 0)}, r <= 0);
      if (y.lo < 0) { C3 ng{-1, b.r < 0}; imp(ax, {ng, geC(x, a.r, 0)}, r <= 0); imp(ax, {ng, leC(x, a.r, 0)}, r >= 0); }
      if (bz) imp(ax, {eqC(x, a.r, 0), raw(b.r != 0)}, r == 0);
      imp(ax, {p, geC(x, a.r, 0), geC(y, b.r, 1)}, r <= a.r); imp(ax, {p, geC(x, a.r, 0), leC(y, b.r, 1)}, r >= a.r);
      if (x.hi > 0 && x.lo <= y.hi) imp(ax, {p, raw(a.r <= b.r)}, r <= 1); if (x.hi >= y.lo) imp(ax, {p, raw(a.r >= b.r)}, r >= 1);
      if (x.lo < 0) { imp(ax, {p, leC(x, a.r, 0), geC(y, b.r, 1)}, r >= a.r); imp(ax, {p, leC(x, a.r, 0), leC(y, b.r, 1)}, r <= a.r); }
      emit(ax, hn, !nn);
      return mkn(r, hn, nn); }
    case O_FFloor: case O_FCeil: case O_FTrunc: case O_FRound: case O_FRint: {
      FV a = A(0); std::string n = std::string(OPN[e->op]) + sfx(e);
      z3::expr r = fn(n, {R}, R)(a.r); bound(r);
      z3::expr fin = c.bool_val(true); if (hasInf(fiv(e->k[0]))) fin = a.r < pinf && a.r > ninf;
      z3::expr ax = c.bool_val(true);
      bool fl_ = e->op == O_FFloor || (e->op == O_FTrunc && v.lo >= 0), ce = e->op == O_FCeil || (e->op == O_FTrunc && v.hi <= 0);
      if (fl_) ax = r <= a.r && a.r - 1 < r; else if (ce) ax = r >= a.r && r < a.r + 1;
      else if (e->op == O_FTrunc) ax = r - a.r < 1 && a.r - r < 1 && z3::implies(a.r >= 0, r >= 0 && r <= a.r) && z3::implies(a.r <= 0, r <= 0 && r >= a.r);
      else { z3::expr h = c.real_val("1/2"); ax = r - a.r <= h && a.r - r <= h && z3::implies(a.r >= 0, r >= 0) && z3::implies(a.r <= 0, r <= 0); }
      if (mode >= M_LIN && !hasInf(fiv(e->k[0]))) { z3::expr i = mkz(c, Z3_mk_real2int(c, r)); ax = ax && z3::to_real(i) == r;
        if (e->op == O_FRound) { z3::expr h = c.real_val("1/2"); ax = ax && z3::implies(a.r >= 0, a.r - r < h) && z3::implies(a.r <= 0, r - a.r < h); } }
      axioms.push_back(z3::implies(fin, ax));
      return mkn(r, a.hasNan, nanOf(a)); }
    case O_FSqrt: { FV a = A(0); z3::expr r = fn("fsqrt" + sfx(e), {R}, R)(a.r); bound(r);
      if (mode == M_NRA && !inf) axioms.push_back(z3::implies(a.r >= 0, r * r == a.r && r >= 0));
      axioms.push_back(z3::implies(a.r > 0, r > 0) && z3::implies(a.r == 0, r == 0) && z3::implies(a.r >= 1, r <= a.r && r >= 1) && z3::implies(a.r >= 0 && a.r <= 1, r >= a.r && r <= 1));
      bool hn = v.nan; return mkn(r, hn, hn ? (nanOf(a) || a.r < 0) : F()); }
    case O_FTruncF: { FV a = A(0); z3::expr r = (mode >= M_LIN && !inf) ? a.r : fn("ftruncf", {R}, R)(a.r); if (mode == M_UF || inf) bound(r); return mkn(r, a.hasNan, nanOf(a)); }
    case O_UToF: case O_SToF: { E k = e->k[0]; z3::expr b = bv(k); u128 l, h; urange(k, l, h); bool exact = h < ((u128)1 << (e->w == 32 ? 24 : 53)) ;
      if (k->w == 1) return mk(z3::ite(b, c.real_val(1), c.real_val(0)));
      if (exact && h < ((u128)1 << 52)) { z3::expr r = z3::to_real(mkz(c, Z3_mk_bv2int(c, b, false))); return mk(r); }
      z3::expr r = fn(std::string(OPN[e->op]) + sfx(e) + "_" + std::to_string(k->w), {c.bv_sort(k->w)}, R)(b); bound(r); return mk(r); }
    case O_Fun1: { FV a = A(0); z3::expr r = fn("fun1_" + std::to_string(e->aux) + sfx(e), {R}, R)(a.r); bound(r); bool hn = v.nan; z3::expr nn = nanOf(a);
      if (e->aux == F_LOG || e->aux == F_LOG10 || e->aux == F_LOG2) { nn = nn || a.r < 0; axioms.push_back(z3::implies(a.r > 1, r > 0) && z3::implies(a.r == 1, r == 0) && z3::implies(a.r < 1 && a.r > 0, r < 0) && z3::implies(a.r == 0, r == ninf)); }
      else if (e->aux == F_EXP || e->aux == F_EXP2) axioms.push_back(z3::implies(a.r > 0, r >= 1) && z3::implies(a.r < 0, r <= 1) && z3::implies(a.r == 0, r == 1));
      else if (hn) { z3::expr q = fn("fun1nan_" + std::to_string(e->aux), {R}, c.bool_sort())(a.r); nn = nn || q; }
      return mkn(r, hn, nn); }
    case O_Fun2: case O_FRem: case O_Fma: {
      FV a = A(0), b = A(1); 
      std::string n = std::string(OPN[e->op]) + "_" + std::to_string(e->aux) + sfx(e);
      if (e->op == O_Fun2 && (e->aux == F_POW || e->aux == F_POWI) && isC(e->k[1]) && fval(e->k[1]->c, e->w) == 2.0 && mode == M_NRA && !inf) return mkn(a.r * a.r, a.hasNan, nanOf(a));
      z3::expr_vector av(c); av.push_back(a.r); av.push_back(b.r); std::vector<z3::sort> ss{R, R};
      z3::expr nn = nanOf(a) || nanOf(b);
      if (e->op == O_Fma) { FV d = A(2); av.push_back(d.r); ss.push_back(R); nn = nn || nanOf(d); if (mode == M_NRA && !inf) return mkn(a.r * b.r + d.r, v.nan, nn); }
      z3::expr r = fn(n, ss, R)(av); bound(r);
      if (v.nan) { z3::expr q = fn(n + "nan", ss, c.bool_sort())(av); nn = nn || q; }
      return mkn(r, v.nan, nn); }
    default: break;
    }
    // generic bit-vector read as a float
    z3::expr b = bv(e);
    z3::expr r = fn("b2f" + sfx(e), {c.bv_sort(e->w)}, R)(b); bound(r);
    if (v.nan) { z3::expr q = fn("b2fnan" + sfx(e), {c.bv_sort(e->w)}, c.bool_sort())(b); return FV{r, q, true}; }
    return mk(r);
  }

  // ------------------------------ exact floating point ---------------------------------------
  z3::expr fp(E e) { auto it = fpc.find(e->id); if (it != fpc.end()) return it->second; AxScope sc(*this, e->id); z3::expr r = fp_(e); fpc.emplace(e->id, r); return r; }
  z3::sort fps(unsigned w) { return w == 32 ? c.fpa_sort<32>() : c.fpa_sort<64>(); }
  z3::expr fp_(E e) {
    z3::expr rne = mkz(c, Z3_mk_fpa_rne(c));
    auto X = [&](int i) { return fp(e->k[i]); };
    auto rti = [&](Z3_ast rm0) { z3::expr rm = mkz(c, rm0); z3::expr x = X(0); return mkz(c, Z3_mk_fpa_round_to_integral(c, rm, x)); };
    switch (e->op) {
    case O_FAdd: return mkz(c, Z3_mk_fpa_add(c, rne, X(0), X(1)));
    case O_FSub: return mkz(c, Z3_mk_fpa_sub(c, rne, X(0), X(1)));
    case O_FMul: return mkz(c, Z3_mk_fpa_mul(c, rne, X(0), X(1)));
    case O_FDiv: return mkz(c, Z3_mk_fpa_div(c, rne, X(0), X(1)));
    case O_FNeg: return mkz(c, Z3_mk_fpa_neg(c, X(0)));
    case O_FAbs: return mkz(c, Z3_mk_fpa_abs(c, X(0)));
    case O_FSqrt: return mkz(c, Z3_mk_fpa_sqrt(c, rne, X(0)));
    case O_Fma: return mkz(c, Z3_mk_fpa_fma(c, rne, X(0), X(1), X(2)));
    case O_FFloor: return rti(Z3_mk_fpa_rtn(c));
    case O_FCeil: return rti(Z3_mk_fpa_rtp(c));
    case O_FTrunc: return rti(Z3_mk_fpa_rtz(c));
    case O_FRound: return rti(Z3_mk_fpa_rna(c));
    case O_FRint: return rti(rne);
    case O_UToF: return mkz(c, Z3_mk_fpa_to_fp_unsigned(c, rne, B1(e->k[0]), fps(e->w)));
    case O_SToF: return mkz(c, Z3_mk_fpa_to_fp_signed(c, rne, B1(e->k[0]), fps(e->w)));
    case O_FExt: return mkz(c, Z3_mk_fpa_to_fp_float(c, rne, X(0), fps(64)));
    case O_FTruncF: return mkz(c, Z3_mk_fpa_to_fp_float(c, rne, X(0), fps(32)));
    case O_Fun1: case O_Fun2: case O_FRem: {
      std::string n = "fpu_" + std::string(OPN[e->op]) + std::to_string(e->aux) + sfx(e);
      z3::expr_vector av(c); std::vector<z3::sort> ss; for (int i = 0; i < 2; i++) if (e->k[i]) { av.push_back(X(i)); ss.push_back(fps(e->w)); }
      return fn(n, ss, fps(e->w))(av); }
    case O_Ite: if (floaty(e)) return z3::ite(bv(e->k[0]), X(1), X(2)); break;
    case O_Var: if (VARS[e->aux].fl) { z3::expr b = bv(e); z3::expr r = mkz(c, Z3_mk_fpa_to_fp_bv(c, b, fps(e->w)));
        const VarInfo &vi = VARS[e->aux];
        axioms.push_back(mkz(c, Z3_mk_fpa_leq(c, r, fp(mkc(fbits(vi.hi, e->w), e->w)))) && mkz(c, Z3_mk_fpa_geq(c, r, fp(mkc(fbits(vi.lo, e->w), e->w)))));
        return r; } break;
    default: break;
    }
    return mkz(c, Z3_mk_fpa_to_fp_bv(c, bv(e), fps(e->w)));
  }
};

// Incremental solver whose assertion stack follows the path condition.
struct Inc {
  z3::context ctx; Lower lo; z3::solver s; Mode mode;
  std::vector<E> stack;
  Inc(Mode m) : ctx(), lo(ctx, m), s(ctx), mode(m) {}
  std::unordered_set<uint32_t> live; std::vector<uint32_t> trail; std::vector<size_t> trailAt;
  std::unordered_set<uint32_t> hardIds; int hard = 0;   // integer multiplications and divisions among the live nodes
  static bool isHard(E x) { return x->w > 8 && (x->op == O_URem || x->op == O_UDiv || x->op == O_SRem || x->op == O_SDiv || x->op == O_Mul); }
  void push() { s.push(); trailAt.push_back(trail.size()); }
  void pop() { s.pop(); size_t n = trailAt.back(); trailAt.pop_back(); while (trail.size() > n) { if (hardIds.count(trail.back())) hard--; live.erase(trail.back()); trail.pop_back(); } }
  void assertE(E e) {
    z3::expr z = lo.bv(e);
    std::vector<E> st{e};
    while (!st.empty()) { E x = st.back(); st.pop_back(); if (!live.insert(x->id).second) continue; trail.push_back(x->id); if (isHard(x)) { hardIds.insert(x->id); hard++; }
      auto it = lo.ax.find(x->id); if (it != lo.ax.end()) for (auto &a : it->second) s.add(a);
      for (int i = 0; i < 3; i++) if (x->k[i]) st.push_back(x->k[i]); }
    s.add(z);
  }
  void sync(const std::vector<E> &pc) {
    size_t n = 0; while (n < stack.size() && n < pc.size() && stack[n] == pc[n]) n++;
    while (stack.size() > n) { pop(); stack.pop_back(); }
    for (; n < pc.size(); n++) { push(); assertE(pc[n]); stack.push_back(pc[n]); }
  }
  // sat=1 unsat=0 unknown=-1; fills model for variables when sat
  int check(const std::vector<E> &pc, const std::vector<E> &extra, unsigned timeout_ms, std::unordered_map<int, u128> *model) {
    double t0 = now();
    int res = -1;
    try {
      sync(pc);
      push();
      for (E e : extra) assertE(e);
      bool arith = hard > 0 && mode == M_UF;
      z3::params p(ctx); p.set("timeout", arith ? std::min(timeout_ms, 700u) : timeout_ms); s.set(p);
      z3::check_result r = s.check();
      if (arith && r == z3::unknown) { int q = external(timeout_ms, model); if (q >= 0) { pop(); double dt = now() - t0; ST.queries++; ST.solver_s += dt; ST.byMode[mode]++; ST.timeMode[mode] += dt; return q; } }
      if (getenv("VF_DUMP") && now() - t0 > atof(getenv("VF_DUMP"))) { static int dn = 0; std::string fn = "/tmp/dump_" + std::string(MODEN[mode]) + "_" + std::to_string(dn++) + ".smt2"; FILE *f = fopen(fn.c_str(), "w"); fprintf(f, "; %f s res %d\n%s", now() - t0, (int)r, s.to_smt2().c_str()); fclose(f); }
      res = r == z3::sat ? 1 : r == z3::unsat ? 0 : -1;
      if (res == 1 && model) getModel(*model);
      pop();
    } catch (z3::exception &ex) { fprintf(stderr, "z3: %s\n", ex.msg()); reset(); }
    double dt = now() - t0; ST.queries++; ST.solver_s += dt; ST.byMode[mode]++; ST.timeMode[mode] += dt;
    return res;
  }
  // integer multiplication and division: cvc5 decides over the integers what bit-blasting cannot
  int external(unsigned timeout_ms, std::unordered_map<int, u128> *model) {
    std::string q = s.to_smt2(); size_t at = q.rfind("(check-sat)"); if (at != std::string::npos) q.erase(at);
    char name[64]; snprintf(name, sizeof name, "/tmp/vfq_%d.smt2", (int)getpid()); std::string out = std::string(name) + ".out";
    FILE *f = fopen(name, "w"); if (!f) return -1;
    fprintf(f, "(set-logic ALL)\n%s(check-sat)\n(get-value (", q.c_str());
    bool any = false; std::vector<int> vs;
    for (size_t i = 0; i < VARS.size(); i++) if (q.find("(declare-fun v" + std::to_string(i) + " ") != std::string::npos) { vs.push_back(i); any = true; fprintf(f, "v%zu ", i); }
    fprintf(f, "))\n"); fclose(f); (void)any;
    std::string cmd = "timeout " + std::to_string(timeout_ms / 1000 + 3) + " cvc5 --produce-models --bv-print-consts-as-indexed-symbols --solve-bv-as-int=sum --tlimit=" + std::to_string(timeout_ms) + " " + name + " >" + out + " 2>/dev/null";
    int rc = system(cmd.c_str()); (void)rc;
    std::string o; if (FILE *g = fopen(out.c_str(), "r")) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, g)) > 0) o.append(b, n); fclose(g); }
    unlink(name); unlink(out.c_str());
    if (o.compare(0, 5, "unsat") == 0) return 0;
    if (o.compare(0, 3, "sat") != 0) return -1;
    if (model) for (int i : vs) { // (vN (_ bvK W)) or (vN true)
      std::string k = "(v" + std::to_string(i) + " "; size_t p = o.find(k); if (p == std::string::npos) continue; p += k.size();
      if (o.compare(p, 4, "true") == 0) (*model)[i] = 1; else if (o.compare(p, 5, "false") == 0) (*model)[i] = 0;
      else if (o.compare(p, 5, "(_ bv") == 0) { u128 v = 0; for (p += 5; p < o.size() && isdigit(o[p]); p++) v = v * 10 + (o[p] - '0'); if (!VARS[i].fl) (*model)[i] = v; } }
    return 1;
  }
  void reset() { hard = 0; hardIds.clear(); s.reset(); stack.clear(); live.clear(); trail.clear(); trailAt.clear(); }
  void getModel(std::unordered_map<int, u128> &out) {
    z3::model m = s.get_model();
    for (size_t i = 0; i < VARS.size(); i++) {
      const VarInfo &vi = VARS[i]; std::string n = "v" + std::to_string(i);
      if (mode != M_FP && vi.fl) {
        z3::expr r = m.eval(ctx.real_const(n.c_str()), false);
        if (r.is_const() && !r.is_numeral()) continue;
        double d;
        if (r.is_algebraic()) { std::string q = r.get_decimal_string(25); if (!q.empty() && q.back() == '?') q.pop_back(); d = strtod(q.c_str(), 0); }
        else if (r.is_numeral()) {
          std::string nu = r.numerator().get_decimal_string(0), de = r.denominator().get_decimal_string(0);
          long double x = strtold(nu.c_str(), 0), y = strtold(de.c_str(), 0); d = (double)(x / y);
        } else continue;
        if (d < vi.lo) d = vi.lo; if (d > vi.hi) d = vi.hi;
        out[(int)i] = fbits(d, vi.w);
      } else if (vi.w == 1) {
        z3::expr r = m.eval(ctx.bool_const(n.c_str()), false); if (r.is_true()) out[(int)i] = 1; else if (r.is_false()) out[(int)i] = 0;
      } else {
        z3::expr r = m.eval(ctx.bv_const(n.c_str(), vi.w), false); if (!r.is_numeral()) continue;
        if (vi.w <= 64) out[(int)i] = r.get_numeral_uint64();
        else { z3::expr h = r.extract(vi.w - 1, 64).simplify(), l = r.extract(63, 0).simplify(); out[(int)i] = ((u128)h.get_numeral_uint64() << 64) | l.get_numeral_uint64(); }
      }
    }
  }
};
