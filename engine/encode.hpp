// Translation of expressions to Z3 and an incremental solver following the path condition.
#pragma once
#include "expr.hpp"
#include <z3++.h>
#include <chrono>

enum Mode { M_INT = 0, M_BV = 1, M_FP = 2 };
struct EncFail { std::string why; };

struct Stats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, fpQueries = 0; double solverTime = 0; };
extern Stats g_stats;
extern bool g_free;    // drop non-linear definitions of FP products/quotients (any value within interval)
extern bool g_log;     // add logarithm axioms

class Enc {
public:
  z3::context& c; Mode mode;
  std::vector<std::vector<z3::expr>> axioms; // per expr axIdx
  Enc(z3::context& ctx, Mode m) : c(ctx), mode(m) {}
  std::vector<z3::expr> pool;
  std::unordered_map<uint32_t, z3::expr> cache, badCache, logCache;
  std::unordered_map<uint32_t, std::vector<z3::expr>> ax;

  z3::expr iv(i128 v) { // int numeral
    bool neg = v < 0; u128 u = neg ? (u128)-v : (u128)v; std::string s; if (!u) s = "0"; while (u) { s = char('0' + (int)(u % 10)) + s; u /= 10; } if (neg) s = "-" + s; return c.int_val(s.c_str());
  }
  z3::expr bvv(i128 v, int w) { u128 u = (u128)v; if (w < 128) u &= ((u128)1 << w) - 1; std::string s; if (!u) s = "0"; while (u) { s = char('0' + (int)(u % 10)) + s; u /= 10; } return c.bv_val(s.c_str(), w); }
  z3::expr rv(double d) { // exact rational
    if (d == 0) return c.real_val(0);
    int ex; double m = std::frexp(d, &ex); m = std::ldexp(m, 53); ex -= 53; z3::expr n = c.real_val((int64_t)m);
    if (ex == 0) return n;
    std::string p = "1"; // 2^|ex| decimal
    z3::expr two = p2(std::abs(ex));
    return ex > 0 ? (n * two).simplify() : (n / two).simplify();
  }
  z3::expr p2(int k) { z3::expr r = c.real_val(1); int left = k; while (left > 0) { int s = std::min(left, 60); r = (r * c.real_val((int64_t)1 << s)).simplify(); left -= s; } return r; }
  z3::sort fps() { return c.fpa_sort(11, 53); }
  z3::expr fpv(double d) { if (std::isnan(d)) return c.fpa_nan(fps()); return c.fpa_val(d); }
  std::string nm(const char* p, E e) { return std::string(p) + std::to_string(e->id); }

  z3::expr get(E e) {
    auto it = cache.find(e->id); if (it != cache.end()) return it->second;
    z3::expr r = e->fp ? (mode == M_INT ? encReal(e) : encFP(e)) : (mode == M_INT ? encInt(e) : encBV(e));
    cache.emplace(e->id, r); return r;
  }
  z3::expr B(E e) { return get(e); } // boolean view (w==1)
  z3::expr fresh(const char* p, E e, z3::sort s) { return c.constant(nm(p, e).c_str(), s); }

  // ------------------------------------------------ integers
  z3::expr wrap(z3::expr x, int w) { z3::expr M = iv((i128)1 << w), H = iv((i128)1 << (w - 1)); return z3::mod(x + H, M) - H; }
  z3::expr uns(E e) { z3::expr x = get(e); if (e->lo >= 0) return x; if (e->hi < 0) return x + iv((i128)1 << e->w); return z3::ite(x < 0, x + iv((i128)1 << e->w), x); }
  z3::expr divT(z3::expr a, z3::expr b, E ea, E eb) { // truncating
    if (ea->lo >= 0 && eb->lo >= 0) return a / b;
    z3::expr q = (z3::ite(a < 0, -a, a)) / (z3::ite(b < 0, -b, b)); return z3::ite((a < 0) != (b < 0), -q, q);
  }
  z3::expr viaBV(E e) { // bit operations: go through bit-vectors
    int w = e->w; auto tb = [&](E x) { return z3::expr(c, Z3_mk_int2bv(c, w, get(x))); };
    z3::expr a = tb(e->a[0]), b = e->n > 1 ? tb(e->a[1]) : a; z3::expr r(c);
    switch (e->op) { case AND: r = a & b; break; case OR: r = a | b; break; case XOR: r = a ^ b; break; case SHL: r = z3::shl(a, b); break; case LSHR: r = z3::lshr(a, b); break; case ASHR: r = z3::ashr(a, b); break; default: throw EncFail{std::string("int bitop ") + opName(e->op)}; }
    return z3::expr(c, Z3_mk_bv2int(c, r, true));
  }
  z3::expr encInt(E e) {
    int w = e->w; auto A = [&](int i) { return get(e->a[i]); };
    if (w == 1) switch (e->op) {
      case ICONST: return c.bool_val(e->c != 0);
      case VAR: return c.bool_const(g_vars[(size_t)e->c].name.c_str());
      case VARDEF: { E v = e->a[0]; z3::expr x = get(v); if (v->w == 1 && !v->fp) return c.bool_val(true); if (v->fp) { z3::expr r = c.bool_val(true); if (v->flo > -INF) r = r && x >= rv(v->flo); if (v->fhi < INF) r = r && x <= rv(v->fhi); return r; } return x >= iv(v->lo) && x <= iv(v->hi); }
      case NOT: return !A(0); case AND: return A(0) && A(1); case OR: return A(0) || A(1); case XOR: return A(0) != A(1);
      case ITE: return z3::ite(A(0), A(1), A(2));
      case EQ: return A(0) == A(1); case SLT: return A(0) < A(1); case SLE: return A(0) <= A(1);
      case ULT: return uns(e->a[0]) < uns(e->a[1]); case ULE: return uns(e->a[0]) <= uns(e->a[1]);
      case TRUNC: return z3::mod(A(0), c.int_val(2)) == 1;
      case FEQ: return fcmp(e, A(0) == A(1)); case FLT: return fcmp(e, A(0) < A(1)); case FLE: return fcmp(e, A(0) <= A(1));
      case FISNAN: { z3::expr b = bad(e->a[0]); return b && fresh("nan", e, c.bool_sort()); }
      case UF: return ufApp(e, c.bool_sort());
      default: throw EncFail{std::string("bool ") + opName(e->op)};
    }
    switch (e->op) {
      case ICONST: return iv(e->c);
      case VAR: return c.int_const(g_vars[(size_t)e->c].name.c_str());
      case ADD: case SUB: case MUL: { z3::expr r = e->op == ADD ? A(0) + A(1) : e->op == SUB ? A(0) - A(1) : A(0) * A(1); return wrapsS(e) ? wrap(r, w) : r; }
      case SDIV: return divT(A(0), A(1), e->a[0], e->a[1]);
      case SREM: if (e->a[0]->lo >= 0 && e->a[1]->lo >= 0) return z3::mod(A(0), A(1)); return A(0) - divT(A(0), A(1), e->a[0], e->a[1]) * A(1);
      case UDIV: { z3::expr r = uns(e->a[0]) / uns(e->a[1]); return e->lo >= 0 ? r : wrap(r, w); }
      case UREM: { z3::expr r = z3::mod(uns(e->a[0]), uns(e->a[1])); return e->lo >= 0 ? r : wrap(r, w); }
      case AND: if (e->a[1]->isC()) { i128 v = e->a[1]->c; for (int k = 0; k < w - 1; ++k) { if (v + 1 == ((i128)1 << k)) return z3::mod(A(0), iv((i128)1 << k)); if (v == -((i128)1 << k)) return A(0) - z3::mod(A(0), iv((i128)1 << k)); if (v == ((i128)1 << k)) return z3::mod(A(0) / iv((i128)1 << k), c.int_val(2)) * iv((i128)1 << k); } } return viaBV(e);
      case XOR: if (e->a[1]->isC() && e->a[1]->c == -1) return -A(0) - 1; return viaBV(e);
      case OR: return viaBV(e);
      case SHL: if (e->a[1]->isC() && e->a[1]->c >= 0 && e->a[1]->c < w) return wrap(A(0) * iv((i128)1 << (int)e->a[1]->c), w); return viaBV(e);
      case LSHR: if (e->a[1]->isC() && e->a[1]->c >= 0 && e->a[1]->c < w) { z3::expr r = uns(e->a[0]) / iv((i128)1 << (int)e->a[1]->c); return r; } return viaBV(e);
      case ASHR: if (e->a[1]->isC() && e->a[1]->c >= 0 && e->a[1]->c < w) return A(0) / iv((i128)1 << (int)e->a[1]->c); return viaBV(e);
      case ZEXT: if (e->a[0]->w == 1) return z3::ite(A(0), c.int_val(1), c.int_val(0)); return uns(e->a[0]);
      case SEXT: if (e->a[0]->w == 1) return z3::ite(A(0), c.int_val(-1), c.int_val(0)); return A(0);
      case TRUNC: if (e->a[0]->lo >= smin(w) && e->a[0]->hi <= smax(w)) return A(0); return wrap(A(0), w);
      case ITE: return z3::ite(A(0), A(1), A(2));
      case CTTZ: case CTLZ: case CTPOP: { // small expansion
        z3::expr x = uns(e->a[0]); auto bit = [&](int i) { return z3::mod(x / iv((i128)1 << i), c.int_val(2)) == 1; }; z3::expr r = c.int_val(e->op == CTPOP ? 0 : w);
        if (e->op == CTPOP) { for (int i = 0; i < w; ++i) r = r + z3::ite(bit(i), c.int_val(1), c.int_val(0)); }
        else if (e->op == CTTZ) for (int i = w - 1; i >= 0; --i) r = z3::ite(bit(i), c.int_val(i), r);
        else for (int i = 0; i < w; ++i) r = z3::ite(bit(i), c.int_val(w - 1 - i), r);
        return r; }
      case FPTOSI: case FPTOUI: { z3::expr x = A(0); z3::expr fl = z3::expr(c, Z3_mk_real2int(c, x)); E s = e->a[0]; z3::expr r = s->flo >= 0 ? fl : z3::ite(x >= 0, fl, -z3::expr(c, Z3_mk_real2int(c, -x)));
        bool inr = s->fin && s->flo > (e->op == FPTOSI ? (double)smin(w) : -1.0) && s->fhi < (e->op == FPTOSI ? std::ldexp(1.0, w - 1) : std::ldexp(1.0, w));
        if (inr) return e->op == FPTOSI ? r : (s->fhi < std::ldexp(1.0, w - 1) ? r : wrap(r, w));
        z3::expr lim = e->op == FPTOSI ? (r < iv(smin(w)) || r > iv(smax(w))) : (r < 0 || r >= iv((i128)1 << w));
        return z3::ite(bad(s) || lim, iv(smin(w)), e->op == FPTOSI ? r : wrap(r, w)); }
      case UF: return ufApp(e, c.int_sort());
      default: throw EncFail{std::string("int ") + opName(e->op)};
    }
  }
  z3::expr ufApp(E e, z3::sort rs) {
    z3::sort_vector ss(c); z3::expr_vector as(c);
    for (int i = 0; i < e->n; ++i) { z3::expr x = get(e->a[i]); ss.push_back(x.get_sort()); as.push_back(x); }
    z3::func_decl f = c.function((g_ufnames[(size_t)e->c] + "_" + std::to_string(e->n)).c_str(), ss, rs); return f(as);
  }
  z3::expr fcmp(E e, z3::expr t) {
    E a = e->a[0], b = e->a[1]; if (a->fin && b->fin) return t;
    z3::expr bd = bad(a) || bad(b); return z3::ite(bd, fresh("fc", e, c.bool_sort()), t);
  }
  z3::expr bad(E e) {
    if (e->fin) return c.bool_val(false);
    auto it = badCache.find(e->id); if (it != badCache.end()) return it->second;
    z3::expr r = c.bool_val(false);
    if (e->op == FCONST) r = c.bool_val(!std::isfinite(e->d));
    else if (e->op == FVAR) r = fresh("bad", e, c.bool_sort());
    else if (e->op == FITE) r = z3::ite(get(e->a[0]), bad(e->a[1]), bad(e->a[2]));
    else if (e->op == UF || e->op == BITS2F || e->op == FLOG) r = fresh("bad", e, c.bool_sort());
    else {
      for (int i = 0; i < e->n; ++i) if (e->a[i]->fp) r = r || bad(e->a[i]);
      if (e->op == FDIV && !(e->a[1]->flo > 0 || e->a[1]->fhi < 0)) r = r || get(e->a[1]) == 0;
      if (e->op == FSQRT) r = r || get(e->a[0]) < 0;
      if ((e->op == FADD || e->op == FSUB || e->op == FMUL || e->op == FDIV) && (e->flo < -DMAX || e->fhi > DMAX)) r = r || fresh("ovf", e, c.bool_sort());
    }
    badCache.emplace(e->id, r); return r;
  }
  // ------------------------------------------------ doubles as reals with a rounding model
  z3::expr encReal(E e) {
    auto A = [&](int i) { return get(e->a[i]); };
    switch (e->op) {
      case FCONST: return rv(std::isfinite(e->d) ? e->d : 0.0);
      case FVAR: return c.real_const(g_vars[(size_t)e->c].name.c_str());
      case FDY: { z3::expr x = z3::to_real(A(0)); return e->c ? x / p2((int)e->c) : x; }
      case FNEG: return -A(0);
      case FABS: return z3::ite(A(0) >= 0, A(0), -A(0));
      case FITE: return z3::ite(A(0), A(1), A(2));
      default: break;
    }
    z3::expr r = fresh("r", e, c.real_sort()); std::vector<z3::expr> x;
    z3::expr u = rv(std::ldexp(1.0, -53)), eta = rv(1e-300);
    auto interval = [&]() { if (e->flo > -DMAX) x.push_back(r >= rv(e->flo)); if (e->fhi < DMAX) x.push_back(r <= rv(e->fhi)); };
    z3::expr ok = !bad(e);
    auto rounded = [&](z3::expr t, bool sgnPos, bool sgnNeg, bool under) {
      z3::expr et = under ? eta : c.real_val(0);
      if (sgnPos) { x.push_back(z3::implies(ok, r >= t * (c.real_val(1) - u) - et && r <= t * (c.real_val(1) + u) + et)); }
      else if (sgnNeg) { x.push_back(z3::implies(ok, r <= t * (c.real_val(1) - u) + et && r >= t * (c.real_val(1) + u) - et)); }
      else { z3::expr at = z3::ite(t >= 0, t, -t); x.push_back(z3::implies(ok, r - t <= u * at + et && t - r <= u * at + et)); }
    };
    E a = e->n > 0 ? e->a[0] : nullptr, b = e->n > 1 ? e->a[1] : nullptr;
    switch (e->op) {
      case FADD: rounded(A(0) + A(1), e->flo >= 0, e->fhi <= 0, false); break;
      case FSUB: rounded(A(0) - A(1), e->flo >= 0, e->fhi <= 0, false);
        x.push_back(z3::implies(ok, (A(0) >= A(1)) == (r >= 0) && (A(0) <= A(1)) == (r <= 0))); break;
      case FMUL: {
        bool lin = a->isFC() || b->isFC();
        if (a == b && a->op == FSQRT) { z3::expr t = get(a->a[0]); z3::expr tol = rv(8 * std::ldexp(1.0, -53)); x.push_back(z3::implies(ok && t >= 0, r <= t * (c.real_val(1) + tol) + eta && r >= t * (c.real_val(1) - tol) - eta)); }
        else if (lin || !g_free) rounded(A(0) * A(1), e->flo >= 0, e->fhi <= 0, true);
        if (!lin && e->mn > 0) { x.push_back(z3::implies(ok, (r == 0) == (A(0) == 0 || A(1) == 0))); }
        if (!lin && g_free && a->flo >= 0 && b->flo >= 0) { // cheap bounds
          if (a->fhi < DMAX) x.push_back(z3::implies(ok, r <= A(1) * rv(up(a->fhi)) * (c.real_val(1) + u) + eta)); if (b->fhi < DMAX) x.push_back(z3::implies(ok, r <= A(0) * rv(up(b->fhi)) * (c.real_val(1) + u) + eta)); }
        break; }
      case FDIV: {
        bool lin = b->isFC();
        if (lin) rounded(A(0) / A(1), e->flo >= 0, e->fhi <= 0, true);
        else if (!g_free) { // r*b = a(1+d)
          z3::expr t = A(0), rb = r * A(1); z3::expr at = a->flo >= 0 ? t : z3::ite(t >= 0, t, -t); z3::expr ab = b->flo >= 0 ? A(1) : z3::ite(A(1) >= 0, A(1), -A(1));
          x.push_back(z3::implies(ok && A(1) != 0, rb - t <= u * at + eta * ab && t - rb <= u * at + eta * ab)); }
        if (e->mn > 0) x.push_back(z3::implies(ok, (r == 0) == (A(0) == 0)));
        break; }
      case FSQRT: { x.push_back(r >= 0); if (!g_free) { z3::expr t = A(0), rr = r * r; z3::expr tol = rv(std::ldexp(1.0, -51)); x.push_back(z3::implies(ok && t >= 0, rr <= t * (c.real_val(1) + tol) && rr >= t * (c.real_val(1) - tol))); }
        x.push_back(z3::implies(ok, (r == 0) == (A(0) == 0))); break; }
      case SITOFP: case UITOFP: { z3::expr t = z3::to_real(e->op == SITOFP ? A(0) : uns(a)); rounded(t, a->lo >= 0 || e->op == UITOFP, false, false); break; }
      case FFLOOR: x.push_back(z3::implies(ok, r == z3::to_real(z3::expr(c, Z3_mk_real2int(c, A(0)))))); break;
      case FCEIL: x.push_back(z3::implies(ok, r == -z3::to_real(z3::expr(c, Z3_mk_real2int(c, -A(0)))))); break;
      case FTRUNC: x.push_back(z3::implies(ok, r == z3::ite(A(0) >= 0, z3::to_real(z3::expr(c, Z3_mk_real2int(c, A(0)))), -z3::to_real(z3::expr(c, Z3_mk_real2int(c, -A(0))))))); break;
      case FROUND: { z3::expr h = rv(0.5); x.push_back(z3::implies(ok, r == z3::ite(A(0) >= 0, z3::to_real(z3::expr(c, Z3_mk_real2int(c, A(0) + h))), -z3::to_real(z3::expr(c, Z3_mk_real2int(c, -A(0) + h)))))); break; }
      case UF: { z3::expr t = ufApp(e, c.real_sort()); x.push_back(r == t); break; }
      case FLOG: { x.push_back(r == logOf(e->a[0])); break; }
      case BITS2F: break;
      default: throw EncFail{std::string("real ") + opName(e->op)};
    }
    interval();
    if (!x.empty()) ax.emplace(e->id, x);
    return r;
  }
  z3::expr logOf(E e) {
    auto it = logCache.find(e->id); if (it != logCache.end()) return it->second;
    z3::expr r(c); z3::expr tol = rv(4e-16);
    if (e->op == FCONST) r = rv(std::log(e->d));
    else if (e->op == FITE) r = z3::ite(get(e->a[0]), logOf(e->a[1]), logOf(e->a[2]));
    else if ((e->op == FMUL || e->op == FDIV)) {
      r = c.constant(nm("L", e).c_str(), c.real_sort()); z3::expr t = e->op == FMUL ? logOf(e->a[0]) + logOf(e->a[1]) : logOf(e->a[0]) - logOf(e->a[1]);
      extraLog.push_back(r - t <= tol && t - r <= tol);
    } else r = c.constant(nm("L", e).c_str(), c.real_sort());
    if (e->op != FCONST && e->op != FITE && e->flo > 0 && e->fhi < DMAX) { double l = std::log(e->flo), h = std::log(e->fhi); extraLog.push_back(r >= rv(l - 1e-12 * (1 + std::fabs(l))) && r <= rv(h + 1e-12 * (1 + std::fabs(h)))); }
    logCache.emplace(e->id, r); return r;
  }
  std::vector<z3::expr> extraLog;
  // ------------------------------------------------ bit-vectors / FPA
  z3::expr encBV(E e) {
    int w = e->w; auto A = [&](int i) { return get(e->a[i]); }; z3::expr rm = c.fpa_rounding_mode();
    if (w == 1) switch (e->op) {
      case ICONST: return c.bool_val(e->c != 0);
      case VAR: return c.bool_const(g_vars[(size_t)e->c].name.c_str());
      case VARDEF: { E v = e->a[0]; z3::expr x = get(v); if (v->w == 1 && !v->fp) return c.bool_val(true); if (v->fp) { if (!v->fin) return c.bool_val(true); return z3::expr(c, Z3_mk_fpa_geq(c, x, fpv(v->flo))) && z3::expr(c, Z3_mk_fpa_leq(c, x, fpv(v->fhi))); } if (v->lo == smin(v->w) && v->hi == smax(v->w)) return c.bool_val(true); return z3::sge(x, bvv(v->lo, v->w)) && z3::sle(x, bvv(v->hi, v->w)); }
      case NOT: return !A(0); case AND: return A(0) && A(1); case OR: return A(0) || A(1); case XOR: return A(0) != A(1); case ITE: return z3::ite(A(0), A(1), A(2));
      case EQ: return A(0) == A(1); case SLT: return z3::slt(A(0), A(1)); case SLE: return z3::sle(A(0), A(1)); case ULT: return z3::ult(A(0), A(1)); case ULE: return z3::ule(A(0), A(1));
      case TRUNC: return A(0).extract(0, 0) == c.bv_val(1, 1);
      case FEQ: return z3::expr(c, Z3_mk_fpa_eq(c, A(0), A(1))); case FLT: return z3::expr(c, Z3_mk_fpa_lt(c, A(0), A(1))); case FLE: return z3::expr(c, Z3_mk_fpa_leq(c, A(0), A(1)));
      case FISNAN: return z3::expr(c, Z3_mk_fpa_is_nan(c, A(0)));
      case UF: return ufApp(e, c.bool_sort());
      default: throw EncFail{std::string("bvbool ") + opName(e->op)};
    }
    auto ext = [&](z3::expr x, int from, bool sg) { return from == w ? x : sg ? z3::sext(x, w - from) : z3::zext(x, w - from); };
    switch (e->op) {
      case ICONST: return bvv(e->c, w);
      case VAR: return c.bv_const(g_vars[(size_t)e->c].name.c_str(), w);
      case ADD: return A(0) + A(1); case SUB: return A(0) - A(1); case MUL: return A(0) * A(1); case UDIV: return z3::udiv(A(0), A(1)); case SDIV: return A(0) / A(1); case UREM: return z3::urem(A(0), A(1)); case SREM: return z3::srem(A(0), A(1));
      case AND: return A(0) & A(1); case OR: return A(0) | A(1); case XOR: return A(0) ^ A(1); case SHL: return z3::shl(A(0), A(1)); case LSHR: return z3::lshr(A(0), A(1)); case ASHR: return z3::ashr(A(0), A(1));
      case ZEXT: if (e->a[0]->w == 1) return z3::ite(A(0), bvv(1, w), bvv(0, w)); return ext(A(0), e->a[0]->w, false);
      case SEXT: if (e->a[0]->w == 1) return z3::ite(A(0), bvv(-1, w), bvv(0, w)); return ext(A(0), e->a[0]->w, true);
      case TRUNC: return A(0).extract(w - 1, 0);
      case ITE: return z3::ite(A(0), A(1), A(2));
      case CTTZ: { z3::expr r = bvv(w, w); for (int i = w - 1; i >= 0; --i) r = z3::ite(A(0).extract(i, i) == c.bv_val(1, 1), bvv(i, w), r); return r; }
      case CTLZ: { z3::expr r = bvv(w, w); for (int i = 0; i < w; ++i) r = z3::ite(A(0).extract(i, i) == c.bv_val(1, 1), bvv(w - 1 - i, w), r); return r; }
      case CTPOP: { z3::expr r = bvv(0, w); for (int i = 0; i < w; ++i) r = r + z3::zext(A(0).extract(i, i), w - 1); return r; }
      case FPTOSI: case FPTOUI: { z3::expr x = A(0); z3::expr rtz = z3::expr(c, Z3_mk_fpa_rtz(c)); z3::expr t = z3::expr(c, e->op == FPTOSI ? Z3_mk_fpa_to_sbv(c, rtz, x, w) : Z3_mk_fpa_to_ubv(c, rtz, x, w));
        double h = e->op == FPTOSI ? std::ldexp(1.0, w - 1) : std::ldexp(1.0, w); z3::expr inr = z3::expr(c, Z3_mk_fpa_lt(c, x, fpv(h))) && (e->op == FPTOSI ? z3::expr(c, Z3_mk_fpa_gt(c, x, fpv(w >= 53 ? dn(-h) : -h - 1))) : z3::expr(c, Z3_mk_fpa_gt(c, x, fpv(-1.0))));
        return z3::ite(inr, t, bvv(smin(w), w)); }
      case F2BITS: return z3::expr(c, Z3_mk_fpa_to_ieee_bv(c, A(0)));
      case UF: return ufApp(e, c.bv_sort(w));
      default: throw EncFail{std::string("bv ") + opName(e->op)};
    }
  }
  z3::expr encFP(E e) {
    auto A = [&](int i) { return get(e->a[i]); }; z3::expr rm = z3::expr(c, Z3_mk_fpa_rne(c));
    switch (e->op) {
      case FCONST: return fpv(e->d);
      case FVAR: return c.constant(g_vars[(size_t)e->c].name.c_str(), fps());
      case FDY: { z3::expr x = z3::expr(c, Z3_mk_fpa_to_fp_signed(c, rm, A(0).extract(63, 0), fps())); return e->c ? z3::expr(c, Z3_mk_fpa_mul(c, rm, x, fpv(std::ldexp(1.0, -(int)e->c)))) : x; }
      case FADD: return z3::expr(c, Z3_mk_fpa_add(c, rm, A(0), A(1))); case FSUB: return z3::expr(c, Z3_mk_fpa_sub(c, rm, A(0), A(1))); case FMUL: return z3::expr(c, Z3_mk_fpa_mul(c, rm, A(0), A(1))); case FDIV: return z3::expr(c, Z3_mk_fpa_div(c, rm, A(0), A(1)));
      case FNEG: return z3::expr(c, Z3_mk_fpa_neg(c, A(0))); case FABS: return z3::expr(c, Z3_mk_fpa_abs(c, A(0))); case FSQRT: return z3::expr(c, Z3_mk_fpa_sqrt(c, rm, A(0)));
      case FFLOOR: return z3::expr(c, Z3_mk_fpa_round_to_integral(c, z3::expr(c, Z3_mk_fpa_rtn(c)), A(0))); case FCEIL: return z3::expr(c, Z3_mk_fpa_round_to_integral(c, z3::expr(c, Z3_mk_fpa_rtp(c)), A(0)));
      case FTRUNC: return z3::expr(c, Z3_mk_fpa_round_to_integral(c, z3::expr(c, Z3_mk_fpa_rtz(c)), A(0))); case FROUND: return z3::expr(c, Z3_mk_fpa_round_to_integral(c, z3::expr(c, Z3_mk_fpa_rna(c)), A(0)));
      case FITE: return z3::ite(A(0), A(1), A(2));
      case SITOFP: return z3::expr(c, Z3_mk_fpa_to_fp_signed(c, rm, A(0), fps())); case UITOFP: return z3::expr(c, Z3_mk_fpa_to_fp_unsigned(c, rm, A(0), fps()));
      case BITS2F: return z3::expr(c, Z3_mk_fpa_to_fp_bv(c, A(0), fps()));
      case UF: return ufApp(e, fps());
      default: throw EncFail{std::string("fp ") + opName(e->op)};
    }
  }
};
