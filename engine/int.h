// Exact encoding of bit-vector terms as integers, for conditions made of additions, comparisons and
// division or remainder by constants, where bit-blasting is slow. Float comparisons become free
// booleans, so UNSAT is always sound; SAT is only answered when the query has no such atom.
#pragma once
#include "smt.h"

struct Unsupported {};
struct IntInc {
  z3::context c; z3::solver s; std::vector<E> stack;
  std::unordered_map<uint32_t, z3::expr> m; std::unordered_map<uint32_t, std::vector<z3::expr>> ax; std::vector<z3::expr> cur;
  std::unordered_set<uint32_t> live; std::vector<uint32_t> trail; std::vector<size_t> trailAt; int freeAtoms = 0; std::unordered_set<uint32_t> freeIds;
  int bad = 0; // consecutive failures: give up
  IntInc() : s(c) {}
  z3::expr num(u128 v) { std::string t; if (!v) t = "0"; while (v) { t.insert(t.begin(), char('0' + (int)(v % 10))); v /= 10; } return c.int_val(t.c_str()); }
  z3::expr pow2(unsigned w) { if (w < 128) return num((u128)1 << w); return c.int_val("340282366920938463463374607431768211456"); }
  z3::expr mod(z3::expr a, z3::expr b) { return z3::expr(c, Z3_mk_mod(c, a, b)); }
  z3::expr tr(E e) { auto it = m.find(e->id); if (it != m.end()) return it->second;
    std::vector<z3::expr> old; old.swap(cur); z3::expr r = tr_(e); if (!cur.empty()) ax[e->id] = cur; cur.swap(old); m.emplace(e->id, r); return r; }
  z3::expr I(E e) { z3::expr x = tr(e); if (e->w == 1) return z3::ite(x, c.int_val(1), c.int_val(0)); return x; }
  z3::expr sgn(E e) { z3::expr x = I(e); u128 lo, hi; urange(e, lo, hi); u128 half = (u128)1 << (e->w - 1); if (hi < half) return x; if (lo >= half) return x - pow2(e->w); return z3::ite(x >= num(half), x - pow2(e->w), x); }
  z3::expr wrap(z3::expr x, unsigned w) { return mod(x, pow2(w)); }
  z3::expr tr_(E e) {
    unsigned w = e->w; u128 al, ah, bl, bh; u128 mx = maskw(w);
    auto K = [&](int i) { return I(e->k[i]); };
    auto rg = [&]() { urange(e->k[0], al, ah); urange(e->k[1], bl, bh); };
    switch (e->op) {
    case O_Const: if (w == 1) return c.bool_val(e->c != 0); return num(e->c);
    case O_Var: { const VarInfo &v = VARS[e->aux]; if (v.fl) throw Unsupported(); std::string n = "v" + std::to_string(e->aux);
      if (w == 1) return c.bool_const(n.c_str()); z3::expr x = c.int_const(n.c_str()); cur.push_back(x >= num(v.ulo) && x <= num(v.uhi < mx ? v.uhi : mx)); return x; }
    case O_Not: return !tr(e->k[0]);
    case O_And: if (w == 1) return tr(e->k[0]) && tr(e->k[1]); for (int i = 0; i < 2; i++) if (isC(e->k[i])) { u128 k = e->k[i]->c;
        if ((k & (k + 1)) == 0) return mod(I(e->k[1 - i]), num(k + 1)); // low bits
        if (((~k & mx) & ((~k & mx) + 1)) == 0) { z3::expr x = I(e->k[1 - i]); return x - mod(x, num((~k & mx) + 1)); } } throw Unsupported();
    case O_Or: if (w == 1) return tr(e->k[0]) || tr(e->k[1]); rg(); if (isC(e->k[0]) && (smear(bh) & al) == 0) return K(0) + K(1); if (isC(e->k[1]) && (smear(ah) & bl) == 0) return K(0) + K(1); throw Unsupported();
    case O_Xor: if (w == 1) return tr(e->k[0]) != tr(e->k[1]); for (int i = 0; i < 2; i++) if (isC(e->k[i], mx)) return num(mx) - I(e->k[1 - i]);
      for (int i = 0; i < 2; i++) if (isC(e->k[i], (u128)1 << (w - 1))) { z3::expr x = I(e->k[1 - i]); z3::expr h = num((u128)1 << (w - 1)); return z3::ite(x >= h, x - h, x + h); } throw Unsupported();
    case O_Add: { rg(); z3::expr x = K(0) + K(1); if (ah <= mx - bh) return x; if (al > mx - bl && al + bl >= al) return x - pow2(w); return z3::ite(x >= pow2(w), x - pow2(w), x); }
    case O_Sub: { rg(); z3::expr x = K(0) - K(1); if (al >= bh) return x; return z3::ite(x < 0, x + pow2(w), x); }
    case O_Mul: { rg(); z3::expr x = K(0) * K(1); if (!isC(e->k[0]) && !isC(e->k[1])) throw Unsupported(); if (ah == 0 || bh <= mx / ah) return x; return wrap(x, w); }
    case O_UDiv: if (!isC(e->k[1]) || e->k[1]->c == 0) throw Unsupported(); return z3::expr(c, Z3_mk_div(c, K(0), K(1)));
    case O_URem: if (!isC(e->k[1]) || e->k[1]->c == 0) throw Unsupported(); return mod(K(0), K(1));
    case O_Shl: if (!isC(e->k[1]) || e->k[1]->c >= w) throw Unsupported(); { rg(); unsigned sh = (unsigned)e->k[1]->c; z3::expr x = K(0) * pow2(sh); return ah <= (mx >> sh) ? x : wrap(x, w); }
    case O_LShr: if (!isC(e->k[1]) || e->k[1]->c >= w) throw Unsupported(); return z3::expr(c, Z3_mk_div(c, K(0), pow2((unsigned)e->k[1]->c)));
    case O_Eq: if (floaty(e->k[0]) || floaty(e->k[1])) return atom(e); if (e->k[0]->w == 1) return tr(e->k[0]) == tr(e->k[1]); return K(0) == K(1);
    case O_Ult: return K(0) < K(1);
    case O_Slt: return sgn(e->k[0]) < sgn(e->k[1]);
    case O_Ite: if (w == 1) return z3::ite(tr(e->k[0]), tr(e->k[1]), tr(e->k[2])); return z3::ite(tr(e->k[0]), K(1), K(2));
    case O_Concat: return K(0) * pow2(e->k[1]->w) + K(1);
    case O_Extract: { urange(e->k[0], al, ah); z3::expr x = K(0); if (e->aux) x = z3::expr(c, Z3_mk_div(c, x, pow2(e->aux))); if ((ah >> e->aux) > mx) x = wrap(x, w); return w == 1 ? x == 1 : x; }
    case O_ZExt: return K(0);
    case O_SExt: { z3::expr x = sgn(e->k[0]); return z3::ite(x < 0, x + pow2(w), x); }
    case O_FIsNan: case O_FEq: case O_FLt: case O_FLe: return atom(e);
    default: throw Unsupported();
    }
  }
  z3::expr atom(E e) { freeIds.insert(e->id); return c.bool_const(("a" + std::to_string(e->id)).c_str()); }
  void pop() { s.pop(); size_t n = trailAt.back(); trailAt.pop_back(); while (trail.size() > n) { if (freeIds.count(trail.back())) freeAtoms--; live.erase(trail.back()); trail.pop_back(); } }
  void assertE(E e) { z3::expr z = tr(e); std::vector<E> st{e};
    while (!st.empty()) { E x = st.back(); st.pop_back(); if (!live.insert(x->id).second) continue; trail.push_back(x->id);
      if (freeIds.count(x->id)) { freeAtoms++; continue; }
      auto it = ax.find(x->id); if (it != ax.end()) for (auto &a : it->second) s.add(a);
      for (int i = 0; i < 3; i++) if (x->k[i]) st.push_back(x->k[i]); }
    s.add(z); }
  // a conjunct outside the fragment is dropped: fewer constraints, so only UNSAT stays valid
  std::unordered_set<uint32_t> dropped; int nDropped = 0;
  int check(const std::vector<E> &pc, const std::vector<E> &extra, unsigned to, std::unordered_map<int, u128> *model) {
    if (bad > 8) return -1;
    double t0 = now(); int res = -1;
    try {
      size_t n = 0; while (n < stack.size() && n < pc.size() && stack[n] == pc[n]) n++;
      while (stack.size() > n) { if (dropped.count(stack.back()->id)) nDropped--; pop(); stack.pop_back(); }
      for (; n < pc.size(); n++) { s.push(); trailAt.push_back(trail.size()); stack.push_back(pc[n]); if (dropped.count(pc[n]->id)) nDropped++; else try { assertE(pc[n]); } catch (Unsupported &) { cur.clear(); dropped.insert(pc[n]->id); nDropped++; } }
      s.push(); trailAt.push_back(trail.size());
      bool ok = true; try { for (E e : extra) assertE(e); } catch (Unsupported &) { cur.clear(); ok = false; }
      if (ok) {
        z3::params p(c); p.set("timeout", to); s.set(p);
        auto r = s.check();
        if (r == z3::unsat) res = 0;
        else if (r == z3::sat && freeAtoms == 0 && nDropped == 0) { res = 1;
          if (model) { z3::model mo = s.get_model(); for (size_t i = 0; i < VARS.size(); i++) { auto &v = VARS[i]; if (v.fl) continue; std::string nm = "v" + std::to_string(i);
            if (v.w == 1) { z3::expr q = mo.eval(c.bool_const(nm.c_str()), false); if (q.is_true()) (*model)[(int)i] = 1; else if (q.is_false()) (*model)[(int)i] = 0; }
            else { z3::expr q = mo.eval(c.int_const(nm.c_str()), false); if (!q.is_numeral()) continue; std::string d = q.get_decimal_string(0); u128 x = 0; for (char ch : d) if (isdigit(ch)) x = x * 10 + (ch - '0'); (*model)[(int)i] = x; } } } }
      }
      pop();
    } catch (z3::exception &ex) { fprintf(stderr, "z3 int: %s\n", ex.msg()); s.reset(); stack.clear(); live.clear(); trail.clear(); trailAt.clear(); freeAtoms = 0; nDropped = 0; }
    if (res < 0) bad++; else bad = 0;
    double dt = now() - t0; ST.queries++; ST.solver_s += dt; ST.byMode[0]++; ST.timeMode[0] += dt;
    return res;
  }
};
