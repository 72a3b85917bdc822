// The R functions, with the real statistics, points and fits: column-major arrays, dimensions and categories counted from 1
#include "rclient.h"
static double DEN = 1; // ipf marginals are integers divided by this
static const int64_t SK[] = {0, 1, 2, 5, 64};
static double seedval(size_t i, int64_t pat) { if (pat == 1) return 1.0; return 0.25 * (1 + (i * 7 + pat * 3) % 11); }
// reference fit, row-major
static std::vector<double> ref_fit(const Prob& p, std::vector<double> x, bool& conv) {
  const Scen& s = *p.s; conv = false;
  for (int it = 0; it < 1000 && !conv; ++it) {
    for (size_t k = 0; k < p.m.size(); ++k) { auto q = ref_reduce(x, s.sizes, s.idx[k]); for (size_t i = 0; i < x.size(); ++i) { auto ix = unflat(i, s.sizes); std::vector<int64_t> j; for (auto d : s.idx[k]) j.push_back(ix[d]); size_t f = flat(j, p.msh[k]); if (q[f] != 0.0) x[i] *= (double)p.m[k][f] / DEN / q[f]; } }
    conv = true; for (size_t k = 0; k < p.m.size(); ++k) { auto q = ref_reduce(x, s.sizes, s.idx[k]); for (size_t i = 0; i < q.size(); ++i) if (std::fabs(q[i] - (double)p.m[k][i] / DEN) > 1e-8) conv = false; }
  } return x;
}
static void core(int part) { // 0 qis, 1 qisi, 2 ipf
  if (part == 2) DEN = (double)sym_param("den", 1);
  int si = sym_choice("scen", scens().size()); int64_t zeros = sym_param("zeros", 0), pat = sym_param("pattern", 2), mult = sym_param("mult", 1), conc = sym_param("conc", 1); Prob p = make_problem(si, sym_param("plo", 0), sym_param("phi", 3)); const Scen& s = *p.s; for (auto& m : p.m) for (auto& x : m) x = mult * (conc ? sym_value(x) : x); p.pop = 0; for (auto x : p.m[0]) p.pop += x;
  size_t n = nel(s.sizes); std::vector<double> seed(n); for (size_t i = 0; i < n; ++i) seed[i] = (zeros >> i) & 1 ? 0.0 : seedval(i, pat);
  std::vector<SEXP> ml; bool asnum = sym_param("asnum", part == 2), nodim = sym_param("nodim", 1); for (size_t k = 0; k < p.m.size(); ++k) { bool nd = nodim && p.msh[k].size() == 1; std::vector<double> fr; for (auto x : p.m[k]) fr.push_back((double)x / DEN); if (asnum) ml.push_back(rnum_array(p.msh[k], fr, nd)); else ml.push_back(rint_array(p.msh[k], p.m[k], nd)); }
  SEXP I = rindices(s), M = rlist(ml), S = rnum_array(s.sizes, seed); SEXP I0 = rcopy(I), M0 = rcopy(M), S0 = rcopy(S); int64_t sk = SK[sym_choice("skip", 5)]; SEXP K = rints({sk});
  RRes r = rguard([&] { return part == 0 ? _humanleague_qis(I, M, K) : part == 1 ? _humanleague_qisi(S, I, M, K) : _humanleague_ipf(S, I, M); });
  sym_assert(!r.odd, "errors are reported as R errors"); int same = sym_and(rsame(I, I0), sym_and(rsame(M, M0), rsame(S, S0))); sym_assert(same, "the arguments are not modified");
  if (!r.ok()) { sym_cover("raised"); sym_assert(part == 1 || (part == 0 && !s.disjoint()), "a consistent problem is solved"); return; }
  SEXP res = rget(r.v, "result"), cv = rget(r.v, "conv"), pp = rget(r.v, "pop"); sym_assert(res && cv && pp, "the result lists the documented elements"); if (!res || !cv || !pp) return;
  sym_assert(rshape(res) == s.sizes, "the result has the shape of the problem, first dimension first"); if (rshape(res) != s.sizes) return; int conv = (int)rint1(cv) != 0; sym_cover(conv ? "converged" : "not converged");
  if (part < 2) {
    auto v = rivals(res, s.sizes); int64_t tot = 0; int nonneg = 1; for (auto x : v) { tot += x; nonneg = sym_and(nonneg, x >= 0); sym_obs_i("c", x); }
    sym_assert(nonneg, "counts are non-negative"); sym_assert(tot == p.pop, "the counts sum to the marginals' total"); sym_assert(rint1(pp) == p.pop, "the reported population is the marginals' total");
    int match = 1; for (size_t k = 0; k < p.m.size(); ++k) { auto q = ref_reduce(v, s.sizes, s.idx[k]); for (size_t i = 0; i < q.size(); ++i) match = sym_and(match, q[i] == p.m[k][i]); }
    if (conv) sym_assert(match, "when convergence is reported the result summed over the other dimensions is each marginal, in the order named"); else sym_assert(sym_not(match), "convergence is reported when every marginal is reproduced");
    if (part == 0 && s.disjoint()) sym_assert(conv, "independent marginals always converge");
    if (part == 1) { int z = 1; for (size_t i = 0; i < n; ++i) if (seed[i] == 0.0) z = sym_and(z, v[i] == 0); sym_assert(z, "a state with zero seed is never populated"); }
    if (!conc) return;
    SEXP ev = rget(r.v, "expectation"); sym_assert(ev && rshape(ev) == s.sizes, "the expectation has the result's shape"); if (!ev || rshape(ev) != s.sizes) return; auto e = rdvals(ev, s.sizes); std::vector<double> x(n, 0.0); bool have = true;
    if (part == 0) { double z = 0; for (size_t i = 0; i < n; ++i) { auto ix = unflat(i, s.sizes); double w = 1; for (size_t k = 0; k < p.m.size(); ++k) { std::vector<int64_t> j; for (auto d : s.idx[k]) j.push_back(ix[d]); w *= (double)p.m[k][flat(j, p.msh[k])]; } x[i] = w; z += w; } if (z > 0) for (auto& w : x) w *= (double)p.pop / z; }
    else x = ref_fit(p, seed, have);
    if (have) { int ok = 1; for (size_t i = 0; i < n; ++i) ok = sym_and(ok, sym_close(e[i], x[i], 1e-6 * (1 + (double)p.pop))); sym_assert(ok, part == 0 ? "the expectation is the normalised product of the marginals" : "the expectation is the fitted solution of the same problem"); sym_cover("expectation"); }
    SEXP cs = rget(r.v, "chiSq"), pv = rget(r.v, "pValue"); sym_assert(cs && pv, "the result lists the documented elements"); if (!cs || !pv) return; double c = rnum(cs), y = 0; bool bad = false; for (size_t i = 0; i < n; ++i) { if (e[i] == 0 && v[i] == 0) continue; if (e[i] == 0) { bad = true; continue; } y += ((double)v[i] - e[i]) * ((double)v[i] - e[i]) / e[i]; }
    if (!bad && conv) sym_assert(std::fabs(c - y) <= 1e-9 * (1 + y), "chi-squared is the sum of (observed-expected)^2/expected");
    int64_t dof = 1; for (auto d : s.sizes) dof *= d - 1; if (conv && dof > 0) sym_assert(rnum(pv) >= 0 && rnum(pv) <= 1, "the p-value lies in [0,1]");
  } else {
    auto v = rdvals(res, s.sizes); int nonneg = 1; double worst = 0; for (auto x : v) nonneg = sym_and(nonneg, x >= 0); sym_assert(nonneg, "no fitted value is negative");
    for (size_t k = 0; k < p.m.size(); ++k) { auto q = ref_reduce(v, s.sizes, s.idx[k]); for (size_t i = 0; i < q.size(); ++i) worst = std::max(worst, std::fabs(q[i] - (double)p.m[k][i] / DEN)); }
    SEXP me = rget(r.v, "maxError"), it = rget(r.v, "iterations"); sym_assert(me && it, "the result lists the documented elements"); if (!me || !it) return;
    if (conv) sym_assert(worst <= 1e-8 * (1 + 1e-4), "when convergence is reported the result summed over the other dimensions is each marginal, in the order named"); else sym_assert(worst >= 1e-8 * (1 - 1e-4), "convergence is reported when every marginal is reproduced"); sym_assert(std::fabs(rnum(me) - worst) <= 1e-12 * (1 + (double)p.pop), "the maximum error is the largest difference from a marginal");
    sym_assert(rnum(it) >= 1 && rnum(it) <= 1000, "the iteration count is between 1 and 1000"); sym_assert(rnum(pp) == std::floor((double)p.pop / DEN + 0.5), "the reported population is the marginals' total"); int z = 1; for (size_t i = 0; i < n; ++i) if (seed[i] == 0.0) z = sym_and(z, v[i] == 0); sym_assert(z, "a state with zero seed stays empty");
    bool have; auto x = ref_fit(p, seed, have); if (have && conv) { int ok = 1; for (size_t i = 0; i < n; ++i) { ok = sym_and(ok, sym_close(v[i], x[i], 1e-6 * (1 + (double)p.pop))); sym_obs_d("f", v[i]); } sym_assert(ok, "the fit is that of the seed, dimension by dimension"); sym_cover("fitted"); }
  }
}
static void integ() {
  static const std::vector<Shape> SH = {{2, 2}, {2, 3}, {3, 2}, {2, 2, 2}, {1, 3}, {4, 1}, {2}, {3}, {1, 2, 3}, {3, 3}, {4}, {1, 2, 1, 2}, {2, 1, 1, 2, 1}}; const Shape& sh = SH[sym_choice("shape", SH.size())]; size_t n = nel(sh); int64_t one = 2, hi = sym_param("hi", 2) * one, phi = sym_param("phi", 2) * one, mult = sym_param("mult", 1);
  std::vector<int64_t> w; for (size_t i = 0; i < n; ++i) w.push_back(sym_int(nm("w", i).c_str(), 0, hi)); int64_t t = 0; for (auto x : w) t += x; sym_assume(t <= phi); std::vector<double> d; for (auto& x : w) { x = sym_value(x) * mult; d.push_back((double)x * 0.5); } t *= mult; t = sym_value(t);
  bool whole = t % one == 0; std::vector<std::vector<int64_t>> mg; if (sh.size() > 1) for (size_t k = 0; k < sh.size(); ++k) { mg.push_back(ref_reduce(w, sh, {(int64_t)k})); for (auto& x : mg.back()) { if (x % one) whole = false; x /= one; } }
  SEXP A = rnum_array(sh, d), A0 = rcopy(A); RRes r = rguard([&] { return _humanleague_integerise(A); }); sym_assert(!r.odd, "errors are reported as R errors"); sym_assert(rsame(A, A0), "the arguments are not modified");
  if (!r.ok()) { sym_cover("raised"); if (sh.size() == 1) sym_assert(!whole, "a vector with a whole total is accepted"); return; }
  sym_assert(whole, "an array whose total and marginal sums are not all whole is rejected"); SEXP res = rget(r.v, "result"), cv = rget(r.v, "conv"), rm = rget(r.v, "rmse"); sym_assert(res && cv && rm, "the result lists the documented elements"); if (!res || !cv || !rm) return;
  sym_assert(rshape(res) == sh, "the result has the array's shape"); if (rshape(res) != sh) return; auto v = rivals(res, sh); int64_t vt = 0; bool nonneg = true, match = true; double se = 0; for (size_t i = 0; i < n; ++i) { vt += v[i]; nonneg = nonneg && v[i] >= 0; sym_obs_i("c", v[i]); se += ((double)v[i] - d[i]) * ((double)v[i] - d[i]); if (d[i] == 0) sym_assert(v[i] == 0, "an empty state stays empty"); }
  sym_assert(nonneg, "the counts are not negative"); sym_assert(vt == t / one, "the result's total is the array's"); for (size_t k = 0; k < mg.size(); ++k) { auto q = ref_reduce(v, sh, {(int64_t)k}); for (size_t i = 0; i < q.size(); ++i) match = match && q[i] == mg[k][i]; }
  if (rint1(cv)) sym_assert(match, "when convergence is reported every marginal sum is preserved"); else sym_assert(!match, "convergence is reported when every marginal is reproduced"); sym_cover(rint1(cv) ? "converged" : "not converged"); sym_assert(std::fabs(rnum(rm) - std::sqrt(se / n)) <= 1e-7, "rmse is the root-mean-square difference");
}
static void prob2() { // integers over their total
  static const int64_t TOT[] = {1, 2, 4, 8, 3, 7, 10}; static const int64_t POP[] = {0, 1, 2, 3, 5, 10, 100, 1001, 65537, 2147483647, -1, -100}; int n = 1 + sym_choice("n", 4); int64_t tot = TOT[sym_choice("tot", 7)], pop = POP[sym_choice("pop", 12)]; std::vector<int64_t> v; std::vector<double> d; int64_t t = 0;
  for (int i = 0; i < n; ++i) { int64_t x = sym_int(nm("v", i).c_str(), 0, tot); v.push_back(x); t += x; } sym_assume(sym_and(t >= tot - 1, t <= tot + 1)); for (auto& x : v) { x = sym_value(x); d.push_back((double)x / (double)tot); } t = 0; for (auto x : v) t += x;
  SEXP P = rnums(d), P0 = rcopy(P); RRes r = rguard([&] { return _humanleague_prob2IntFreq(P, rints({pop})); }); sym_assert(!r.odd, "errors are reported as R errors"); sym_assert(rsame(P, P0), "the arguments are not modified");
  bool okay = t == tot && pop >= 0; if (!r.ok()) { sym_cover("raised"); sym_assert(!okay, "probabilities that sum to 1 and a population are accepted"); return; } sym_assert(okay, "probabilities that do not sum to 1 and negative populations are rejected"); if (!okay) return;
  SEXP fr = rget(r.v, "freq"), rm = rget(r.v, "rmse"); sym_assert(fr && rm && fr->n == n, "the result lists the documented elements"); if (!fr || !rm || fr->n != n) return; auto f = rivals(fr, {n}); int64_t ft = 0; bool nonneg = true, near = true, best = true; double se = 0;
  for (int i = 0; i < n; ++i) { int64_t a = f[i] * tot, b = v[i] * pop; ft += f[i]; nonneg = nonneg && f[i] >= 0; near = near && a - b < tot && b - a < tot; for (int j = 0; j < n; ++j) if (j != i && f[i] > 0) best = best && a - b - (f[j] * tot - v[j] * pop) <= tot; double e = (double)(a - b) / (double)tot; se += e * e; sym_obs_i("f", f[i]); }
  sym_assert(nonneg, "the frequencies are not negative"); sym_assert(ft == pop, "the frequencies sum to the population"); sym_assert(near, "each frequency is less than 1 away from its exact share"); sym_assert(best, "no other frequencies of that sum are closer"); sym_assert(std::fabs(rnum(rm) - std::sqrt(se / n)) <= 1e-6, "rmse is the root-mean-square difference"); sym_cover("integerised");
}
static void sobol() { // the matrix is the sequence, one point per row; skip discards the largest power of two below it
  static const int64_t BIG[] = {255, 257, 1000, 32769, 65536, 65537, 70000, 131073}; int64_t dim = 1 + sym_choice("dim", 5), n, skip; if (sym_param("bigskip", 0)) { n = 2; skip = BIG[sym_choice("bigskips", 8)]; } else { n = sym_choice("n", 7); skip = sym_value(sym_int("skip", -2, sym_param("nmax", 40))); } RRes r = rguard([&] { return _humanleague_sobolSequence(rints({dim}), rints({n}), rints({skip})); }); sym_assert(!r.odd, "errors are reported as R errors");
  if (!r.ok()) { sym_cover("raised"); sym_assert(skip < 0, "sizes and skips that are not negative are accepted"); return; } sym_assert(skip >= 0, "a negative skip is rejected"); if (skip < 0) return;
  Shape sh{n, dim}; sym_assert(rshape(r.v) == sh && r.v->type == REALSXP, "one row per point, one column per dimension"); if (rshape(r.v) != sh) return; auto v = rdvals(r.v, sh); int64_t first = 0; if (skip == 1) first = 1; else if (skip > 1) for (first = 1; first * 2 < skip;) first *= 2;
  RRes b = rguard([&] { return _humanleague_sobolSequence(rints({dim}), rints({first + n}), rints({0})); }); sym_assert(b.ok(), "sizes and skips that are not negative are accepted"); if (!b.ok()) return; auto w = rdvals(b.v, {first + n, dim}); bool same = true, in = true; for (int64_t i = 0; i < n; ++i) for (int64_t j = 0; j < dim; ++j) { same = same && v[i * dim + j] == w[(first + i) * dim + j]; in = in && v[i * dim + j] > 0 && v[i * dim + j] < 1; } sym_assert(same, "skip discards the documented number of points"); sym_assert(in, "values lie strictly inside (0,1)"); sym_cover(skip > 1 ? "skipped" : "not skipped");
  // stratification of an aligned block decides that the values are the sequence's and rows are points
  if (n > 0 && skip == 0) { RRes q = rguard([&] { return _humanleague_sobolSequence(rints({dim}), rints({15}), rints({0})); }); if (q.ok()) { auto z = rdvals(q.v, {15, dim}); bool st = true; for (int64_t j = 0; j < dim; ++j) { int seen = 1; for (int64_t i = 0; i < 15; ++i) seen |= 1 << (int)(z[i * dim + j] * 16); st = st && seen == 0xffff; } sym_assert(st, "every column is stratified"); } }
}
static void flat_() {
  static const std::vector<Shape> SH = {{1}, {4}, {2, 2}, {3, 2}, {1, 3}, {2, 1, 2}, {2, 2, 2}, {1, 2, 1, 2}, {2, 1, 1, 2, 1}}; const Shape& sh = SH[sym_choice("shape", SH.size())]; size_t n = nel(sh); int64_t hi = sym_param("hi", 2), lo = sym_param("lo", -1); int extra = sym_choice("names", 3); std::vector<std::string> nms; for (size_t d = 0; d < sh.size() + extra; ++d) nms.push_back(std::string("n") + (char)('0' + d)); if (nms.size()) nms.pop_back(); // one too few, as many, one more
  std::vector<int64_t> c; for (size_t i = 0; i < n; ++i) c.push_back(sym_int(nm("c", i).c_str(), lo, hi)); SEXP A = rint_array(sh, c, sh.size() == 1 && sym_choice("nodim", 2)), A0 = rcopy(A); int neg = 0; int64_t pop = 0; for (auto x : c) { neg = sym_or(neg, x < 0); pop += x; }
  RRes r = rguard([&] { return _humanleague_flatten(A, rstrs(nms)); }); sym_assert(!r.odd, "errors are reported as R errors"); sym_assert(rsame(A, A0), "the arguments are not modified"); if (!r.ok()) { sym_assert(sym_or(neg, extra == 0), "a table without negative counts and with enough names is accepted"); sym_cover("rejected"); return; }
  sym_assert(sym_not(neg), "a negative count is rejected"); sym_assert(extra != 0, "too few names are rejected"); if (extra == 0) return; sym_cover("flattened"); sym_assert(r.v->n == (R_xlen_t)sh.size(), "one column per dimension"); if (r.v->n != (R_xlen_t)sh.size()) return; std::vector<SEXP> cols; for (size_t d = 0; d < sh.size(); ++d) { SEXP x = rget(r.v, nms[d].c_str()); sym_assert(x && x->n == pop, "one named column per dimension, one row per individual"); if (!x || x->n != pop) return; cols.push_back(x); }
  std::vector<int64_t> seen(n, 0); bool in = true; for (int64_t row = 0; row < (int64_t)cols[0]->n; ++row) { std::vector<int64_t> ix; for (size_t d = 0; d < sh.size(); ++d) { int64_t x = sym_value(cols[d]->type == REALSXP ? (int64_t)cols[d]->dv[row] : cols[d]->iv[row]); if (x < 1 || x > sh[d]) in = false; ix.push_back(x - 1); } if (!in) break; ++seen[flat(ix, sh)]; } sym_assert(in, "categories count from 1"); int ok = 1; for (size_t i = 0; i < n; ++i) ok = sym_and(ok, seen[i] == c[i]); sym_assert(ok, "every state appears as often as its count");
}
extern "C" void sym_main() { int part = (int)sym_param("part", 0); if (part < 3) core(part); else if (part == 3) integ(); else if (part == 4) prob2(); else if (part == 5) sobol(); else flat_(); }
