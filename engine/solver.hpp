#pragma once
#include "encode.hpp"
#include <memory>
extern uint64_t g_seed;
struct PathSolver {
  z3::context c; Mode mode; std::unique_ptr<Enc> enc; std::unique_ptr<z3::solver> s; unsigned timeoutMs; unsigned hardMs;
  std::vector<E> st; std::vector<std::vector<uint32_t>> lvlAx; std::unordered_set<uint32_t> done; size_t logDone = 0;
  PathSolver(Mode m, unsigned to) : mode(m), timeoutMs(to), hardMs(to * 3) {
    enc.reset(new Enc(c, m)); s.reset(new z3::solver(c, z3::solver::simple())); setTo(*s, timeoutMs); lvlAx.emplace_back();
  }
  void setTo(z3::solver& sv, unsigned ms) { z3::params p(c); p.set("timeout", ms); p.set("random_seed", (unsigned)(g_seed & 0x7fffffff)); sv.set(p); }
  void axioms(z3::solver& sv, E e, std::unordered_set<uint32_t>& dn, std::vector<uint32_t>* log) {
    if (!e->hasAx || dn.count(e->id)) return;
    dn.insert(e->id); if (log) log->push_back(e->id);
    auto it = enc->ax.find(e->id); if (it != enc->ax.end()) for (auto& x : it->second) sv.add(x);
    for (int i = 0; i < e->n; ++i) axioms(sv, e->a[i], dn, log);
  }
  void assertE(E e) { z3::expr x = enc->get(e); axioms(*s, e, done, &lvlAx.back()); s->add(x); }
  void popTo(size_t n) { while (st.size() > n) { s->pop(); for (auto id : lvlAx.back()) done.erase(id); lvlAx.pop_back(); st.pop_back(); } }
  void sync(const std::vector<E>& pc) {
    size_t k = 0; while (k < st.size() && k < pc.size() && st[k] == pc[k]) ++k;
    popTo(k);
    for (; k < pc.size(); ++k) { s->push(); lvlAx.emplace_back(); st.push_back(pc[k]); assertE(pc[k]); }
  }
  double rd(const z3::expr& v) {
    if (!v.is_numeral() && !v.is_algebraic()) return 0;
    std::string t; if (v.is_algebraic()) t = v.get_decimal_string(30); else { std::string q = Z3_get_numeral_string(c, v); auto p = q.find('/'); if (p == std::string::npos) return strtod(q.c_str(), nullptr);
      // exact-ish rational to double with long double arithmetic for small sizes, decimal otherwise
      if (q.size() < 30) return (double)(strtold(q.substr(0, p).c_str(), nullptr) / strtold(q.substr(p + 1).c_str(), nullptr)); t = v.get_decimal_string(40); }
    return strtod(t.c_str(), nullptr);
  }
  void extract(z3::model& m, Assign& a) {
    a.iv.assign(g_vars.size(), 0); a.dv.assign(g_vars.size(), 0); a.stamp = evalStampNew(); a.valid = true;
    for (size_t i = 0; i < g_vars.size(); ++i) {
      VarInfo& v = g_vars[i]; auto f = enc->cache.find(v.e->id);
      if (f == enc->cache.end()) { a.iv[i] = std::max(v.lo, std::min(v.hi, (i128)0)); a.dv[i] = v.fp ? std::max(v.flo, std::min(v.fhi, 0.0)) : 0; continue; }
      z3::expr x = m.eval(f->second, true);
      if (v.fp) {
        if (mode == M_INT) { a.dv[i] = rd(x); a.dv[i] = std::max(v.flo, std::min(v.fhi, a.dv[i])); }
        else { z3::expr b = z3::expr(c, Z3_mk_fpa_to_ieee_bv(c, x)); b = m.eval(b, true).simplify(); uint64_t u = 0; if (b.is_numeral_u64(u)) memcpy(&a.dv[i], &u, 8); else a.dv[i] = NAN; }
        if (mode == M_INT && v.any) { auto bb = enc->badCache.find(v.e->id); if (bb != enc->badCache.end() && m.eval(bb->second, true).is_true()) a.dv[i] = NAN; }
      } else if (v.w == 1) a.iv[i] = x.is_true();
      else if (mode == M_INT) { std::string q = Z3_get_numeral_string(c, x); bool neg = q[0] == '-'; i128 r = 0; for (char ch : q) if (isdigit(ch)) r = r * 10 + (ch - '0'); a.iv[i] = neg ? -r : r; }
      else { uint64_t u = 0; x.is_numeral_u64(u); a.iv[i] = sext128(u, v.w); }
    }
  }
  // 1 sat, 0 unsat, -1 unknown
  int check(const std::vector<E>& pc, E extra, Assign* out, bool quickOnly = false) {
    auto t0 = std::chrono::steady_clock::now(); int res = -1; ++g_stats.queries;
    try {
      sync(pc); s->push(); lvlAx.emplace_back(); st.push_back(nullptr);
      if (extra) assertE(extra);
      for (auto& x : enc->extraLog) s->add(x);
      z3::check_result r = s->check();
      if (r == z3::sat) { res = 1; if (out) { z3::model m = s->get_model(); extract(m, *out); } }
      else if (r == z3::unsat) res = 0;
      popTo(st.size() - 1);
      if (res < 0 && !quickOnly) res = fresh(pc, extra, out, hardMs, 0);
    } catch (z3::exception& ex) { popTo(pc.size() < st.size() ? pc.size() : st.size()); if (getenv("SYMEX_DEBUG")) fprintf(stderr, "z3: %s\n", ex.msg()); res = -1; if (st.size() && st.back() == nullptr) popTo(st.size() - 1); }
    g_stats.solverTime += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (res == 1) ++g_stats.sat; else if (res == 0) ++g_stats.unsat; else ++g_stats.unknown;
    return res;
  }
  // linear form over logarithm symbols, with a bound on the accumulated rounding error
  z3::expr logLin(E e, double& err) {
    double m = std::max(std::fabs(e->flo), std::fabs(e->fhi)); if (!(m < 1e7) || !e->fp) throw EncFail{"log"};
    if (e->op == FCONST) { err = 0; return enc->rv(e->d); } if (e->op == FLOG) { err = 0; return enc->logOf(e->a[0]); }
    double x = 0, y = 0; if (e->op == FADD || e->op == FSUB) { z3::expr p = logLin(e->a[0], x), q = logLin(e->a[1], y); err = x + y + m * 3e-16; return e->op == FADD ? p + q : p - q; }
    if (e->op == FNEG) { z3::expr p = logLin(e->a[0], err); return -p; }
    if (e->op == FMUL && e->a[1]->op == FCONST) { z3::expr p = logLin(e->a[0], x); double k = std::fabs(e->a[1]->d); if (!(k < 1e3)) throw EncFail{"log"}; err = x * k * (1 + 1e-9) + m * 3e-16; return p * enc->rv(e->a[1]->d); }
    throw EncFail{"log"};
  }
  z3::expr logProp(E e, z3::solver& f, int& fr) {
    switch (e->op) { case ICONST: return c.bool_val(e->c != 0); case NOT: return !logProp(e->a[0], f, fr); case AND: { z3::expr p = logProp(e->a[0], f, fr); return p && logProp(e->a[1], f, fr); } case OR: { z3::expr p = logProp(e->a[0], f, fr); return p || logProp(e->a[1], f, fr); }
      case FLT: case FLE: { z3::expr v[2] = {c.bool_val(true), c.bool_val(true)}; for (int i = 0; i < 2; ++i) { double err = 0; z3::expr l = logLin(e->a[i], err); if (err == 0) { v[i] = l; continue; } z3::expr r = c.constant(("lv" + std::to_string(fr++)).c_str(), c.real_sort()); f.add(r - l <= enc->rv(err * 1.001) && l - r <= enc->rv(err * 1.001)); v[i] = r; } return e->op == FLT ? v[0] < v[1] : v[0] <= v[1]; }
      default: throw EncFail{"log"}; }
  }
  // true when c2 is refuted by the logarithm equations alone (linear arithmetic, no path condition)
  bool logRefuted(E c2) {
    auto t0 = std::chrono::steady_clock::now(); bool r = false;
    try { z3::solver f(c); z3::params p(c); p.set("timeout", timeoutMs * 2); f.set(p); int fr = 0; z3::expr x = logProp(c2, f, fr); ++g_stats.queries; f.add(x); for (auto& y : enc->extraLog) f.add(y); r = f.check() == z3::unsat; if (r) ++g_stats.unsat; else ++g_stats.unknown; } catch (z3::exception&) {} catch (EncFail&) {}
    g_stats.solverTime += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); return r;
  }
  int fresh(const std::vector<E>& pc, E extra, Assign* out, unsigned ms, unsigned seed) {
    z3::solver f(c); z3::params p(c); p.set("timeout", ms); p.set("random_seed", (unsigned)(seed + (g_seed & 0xffff))); f.set(p);
    std::unordered_set<uint32_t> dn;
    std::vector<E> all = pc; if (extra) all.push_back(extra);
    for (E e : all) { z3::expr x = enc->get(e); axioms(f, e, dn, nullptr); f.add(x); }
    for (auto& x : enc->extraLog) f.add(x);
    z3::check_result r = f.check();
    if (r == z3::unknown && getenv("SYMEX_DUMP")) fprintf(stderr, "UNKNOWN\n%s\n", f.to_smt2().c_str());
    if (r == z3::sat) { if (out) { z3::model m = f.get_model(); extract(m, *out); } return 1; }
    return r == z3::unsat ? 0 : -1;
  }
};
