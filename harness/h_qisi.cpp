// qis and qisi through the Python interface with the real Sobol points and fits: exactness, impossible states, expectation, statistics
#include "scen.h"
// upper tail of the chi-squared distribution with n degrees of freedom (closed form)
static double chi_tail(int64_t n, double x) { double h = x / 2, s, t; int64_t k; if (n % 2) { s = std::erfc(std::sqrt(h)); t = 2 * std::sqrt(h / 3.14159265358979323846) * std::exp(-h); k = 3; } else { s = std::exp(-h); t = h * s; k = 4; } for (; k <= n; k += 2) { s += t; t *= h / (k / 2.0); } return s; }
static double seedval(size_t i, int64_t pat) { if (pat == 1) return 1.0; return 0.25 * (1 + (i * 7 + pat * 3) % 11); }
static const int64_t SK[] = {0, 1, 2, 5, 64};
extern "C" void sym_main() {
  int si = sym_choice("scen", scens().size()); int64_t what = sym_param("what", 3), zeros = sym_param("zeros", 0), pat = sym_param("pattern", 1), mult = sym_param("mult", 1); bool isq = sym_param("qis", 0);
  Prob p = make_problem(si, sym_param("plo", 0), sym_param("phi", 3)); const Scen& s = *p.s; for (auto& m : p.m) for (auto& x : m) x = mult * sym_value(x); p.pop = 0; for (auto x : p.m[0]) p.pop += x;
  size_t n = nel(s.sizes); std::vector<double> seed(n); int64_t zm = zeros < 0 ? sym_choice("zmask", (int)-zeros) : zeros; for (size_t i = 0; i < n; ++i) seed[i] = (zm >> i) & 1 ? 0.0 : seedval(i, pat);
  int64_t sk = SK[sym_choice("skip", 5)]; std::vector<py::object> a; if (!isq) a.push_back(arr<double>(s.sizes, seed)); a.push_back(ilist(s)); a.push_back(mlist(p)); if (sk) a.push_back(pyint(sk));
  PyRes r = pycall(isq ? "qis" : "qisi", a); if (!r.ok()) { sym_cover("raised"); sym_assert(!(what == 2 && s.disjoint()), "independent marginals never fail"); return; }
  py::object res = item(r.v, 0), st = item(r.v, 1); int conv = as_bool(key(st, "conv")); sym_assert(shape_of(res) == s.sizes, "result has the implied shape"); if (shape_of(res) != s.sizes) return; auto v = vals_of<int64_t>(res);
  for (size_t i = 0; i < v.size(); ++i) sym_obs_i("c", v[i]);
  int64_t tot = 0; int nonneg = 1; for (auto x : v) { tot += x; nonneg = sym_and(nonneg, x >= 0); }
  int match = 1; for (size_t k = 0; k < p.m.size(); ++k) { auto q = ref_reduce(v, s.sizes, s.idx[k]); for (size_t i = 0; i < q.size(); ++i) match = sym_and(match, q[i] == p.m[k][i]); }
  sym_cover(conv ? "converged" : "not converged");
  if (what == 2 && s.disjoint()) { sym_cover("independent"); sym_assert(conv, "independent marginals always converge"); }
  if (what == 3 || what == 1) {
    sym_assert(nonneg, "counts are non-negative"); sym_assert(tot == as_int(key(st, "pop")), "counts sum to the reported population"); sym_assert(tot == p.pop, "the population is the marginals' total");
    if (conv) sym_assert(match, "convergence is only reported when every marginal is reproduced"); else sym_assert(sym_not(match), "convergence is reported when every marginal is reproduced");
  }
  if (what == 4) { int z = 1; for (size_t i = 0; i < n; ++i) if (seed[i] == 0.0) z = sym_and(z, v[i] == 0); sym_assert(z, "a state with zero seed is never populated"); }
  py::object eo = key(st, "expectation"); sym_assert(shape_of(eo) == s.sizes, "the expectation has the result's shape"); if (shape_of(eo) != s.sizes) return; auto e = vals_of<double>(eo);
  if (what == 16) {
    sym_assert(as_int(key(st, "pop")) == p.pop, "the reported population is the marginals' total"); std::vector<double> x(n, 0.0);
    if (isq) { double z = 0; for (size_t i = 0; i < n; ++i) { auto ix = unflat(i, s.sizes); double w = 1; for (size_t k = 0; k < p.m.size(); ++k) { std::vector<int64_t> j; for (auto d : s.idx[k]) j.push_back(ix[d]); w *= (double)p.m[k][flat(j, p.msh[k])]; } x[i] = w; z += w; } if (z > 0) { for (auto& w : x) w *= (double)p.pop / z; sym_cover("compatible state"); } }
    else { std::vector<py::object> ml; for (size_t k = 0; k < p.m.size(); ++k) { std::vector<double> w(p.m[k].begin(), p.m[k].end()); ml.push_back(arr<double>(p.msh[k], w)); } PyRes f = pycall("ipf", {arr<double>(s.sizes, seed), ilist(s), pylist(ml)}); sym_assert(f.ok(), "ipf accepts what qisi accepts"); if (!f.ok()) return; x = vals_of<double>(item(f.v, 0)); sym_cover("compatible state"); }
    int ok = 1; double te = 0; for (size_t i = 0; i < n; ++i) { ok = sym_and(ok, sym_close(e[i], x[i], 1e-9 * (1 + (double)p.pop))); te += e[i]; }
    sym_assert(ok, isq ? "the expectation is the normalised product of the marginals" : "the expectation is the ipf solution of the same problem");
  }
  if (what == 17) {
    double c = as_dbl(key(st, "chiSq")), x = 0; bool bad = false; for (size_t i = 0; i < n; ++i) { if (e[i] == 0 && v[i] == 0) continue; if (e[i] == 0) { bad = true; continue; } x += ((double)v[i] - e[i]) * ((double)v[i] - e[i]) / e[i]; }
    if (conv) { sym_assert(c >= 0, "the chi-squared statistic is defined and not negative"); }
    if (!bad) { sym_assert(std::fabs(c - x) <= 1e-9 * (1 + x), "chi-squared is the sum of (observed-expected)^2/expected"); sym_cover("chi-squared"); }
    int64_t dof = 1; for (auto d : s.sizes) dof *= d - 1; double pv = as_dbl(key(st, "pValue")); if (conv && dof > 0 && x < 150) { sym_assert(std::fabs(pv - chi_tail(dof, x)) <= 1e-6, "the p-value is that of product(size-1) degrees of freedom"); sym_cover("p-value"); }
  }
}
