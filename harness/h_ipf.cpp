// ipf through the Python interface: impossible states, truthful convergence and error, interaction structure, relabelling
#include "scen.h"
#include <algorithm>
struct IP { const Scen* s; std::vector<double> seed; std::vector<Shape> msh; std::vector<std::vector<double>> m; std::vector<int> zero; };
static const double WIDE[] = {1.0, 1e-3, 1e-7, 3.0, 1e-12, 5e4, 2e-5, 1e9, 0.7, 1e-9, 40.0, 1e-15}; // many orders of magnitude
static double q4(int64_t k) { return (double)k * 0.25; }
// a problem: seed values 1/4..4 (or zero, according to the mask), consistent marginals
static IP problem(int si, bool conc) {
  IP p; p.s = &scens()[si]; const Scen& s = *p.s; size_t n = nel(s.sizes); int64_t mask = sym_param("zeros", 0); p.zero.assign(n, 0); int nz = (int)sym_param("nzeros", 0);
  if (mask) { for (size_t i = 0; i < n; ++i) p.zero[i] = mask < 0 ? sym_choice(nm("z", i).c_str(), 2) : (int)((mask >> i) & 1); }
  else for (int k = 0; k < nz; ++k) { int at = sym_choice(nm("zero", k).c_str(), (int)n + 1); if (at < (int)n) p.zero[at] = 1; }
  int64_t slo = sym_param("slo", 1), shi = sym_param("shi", 16);
  for (size_t i = 0; i < n; ++i) { if (p.zero[i]) { p.seed.push_back(0.0); continue; } if (conc) { int pat = (int)sym_param("pattern", 0); p.seed.push_back(pat == 1 ? 1.0 : pat == 4 ? WIDE[(i * 5 + 2) % 12] : pat == 5 ? 1 + std::ldexp((double)((i * 7 + 1) % 11), -11) : pat == 6 ? 1e3 + std::ldexp((double)((i * 7 + 1) % 11), -4) : pat == 7 ? 1e-3 + std::ldexp((double)((i * 7 + 1) % 11), -24) : 0.25 * (1 + (i * 7 + pat * 3) % 11)); } else p.seed.push_back(sym_dyadic(nm("s", i).c_str(), slo, shi, 2)); }
  int64_t phi = sym_param("phi", 3), plo = sym_param("plo", 0);
  if (conc) { Prob q = make_problem(si, plo, phi); p.msh = q.msh; double sc = 1.0 / (double)sym_param("den", 1); for (auto& v : q.m) { std::vector<double> w; for (auto& x : v) w.push_back((double)sym_value(x) * sc); p.m.push_back(w); } }
  else {
    for (size_t k = 0; k < s.idx.size(); ++k) { Shape sh; for (auto d : s.idx[k]) sh.push_back(s.sizes[d]); p.msh.push_back(sh); std::vector<double> v(nel(sh)); for (size_t i = 0; i < v.size(); ++i) v[i] = sym_dyadic(mname(k, i).c_str(), plo, phi * 4, 2); p.m.push_back(v); }
    double t0 = 0; for (auto x : p.m[0]) t0 += x; for (size_t k = 1; k < p.m.size(); ++k) { double t = 0; for (auto x : p.m[k]) t += x; sym_assume(t == t0); }
    for (size_t d = 0; d < s.sizes.size(); ++d) { std::vector<double> ref; bool have = false; for (size_t k = 0; k < s.idx.size(); ++k) for (size_t j = 0; j < s.idx[k].size(); ++j) if (s.idx[k][j] == (int64_t)d) { auto r = ref_reduce(p.m[k], p.msh[k], {(int64_t)j}); if (!have) { ref = r; have = true; } else for (size_t i = 0; i < r.size(); ++i) sym_assume(r[i] == ref[i]); } }
  }
  return p;
}
static PyRes run(const Scen& s, const std::vector<double>& seed, const std::vector<Shape>& msh, const std::vector<std::vector<double>>& m) { std::vector<py::object> ml; for (size_t k = 0; k < m.size(); ++k) ml.push_back(arr<double>(msh[k], m[k])); return pycall("ipf", {arr<double>(s.sizes, seed), ilist(s), pylist(ml)}); }
static int gt(double a, double b) { return a > b; }
extern "C" void sym_main() {
  int si = sym_choice("scen", scens().size()); int64_t what = sym_param("what", 5); bool conc = sym_param("conc", 0); IP p = problem(si, conc); const Scen& s = *p.s;
  PyRes r = run(s, p.seed, p.msh, p.m); sym_assert(r.ok(), "a consistent problem is accepted"); if (!r.ok()) return; py::object res = item(r.v, 0), st = item(r.v, 1); sym_assert(shape_of(res) == s.sizes, "the result has the seed's shape"); if (shape_of(res) != s.sizes) return;
  auto v = vals_of<double>(res); int conv = as_bool(key(st, "conv")); int64_t iters = as_int(key(st, "iterations")); sym_cover(conv ? "converged" : "not converged");
  if (what == 4) { int z = 1, nn = 1; for (size_t i = 0; i < v.size(); ++i) { if (p.zero[i]) z = sym_and(z, v[i] == 0.0); nn = sym_and(nn, v[i] >= 0.0); } sym_assert(z, "a state with zero seed receives exactly zero"); sym_assert(nn, "no result is negative or undefined"); }
  if (what == 5) {
    double me = as_dbl(key(st, "maxError")); int all = 1, within = 1, ismax = 0; double tol = conc ? 1e-9 : 0;
    for (size_t k = 0; k < p.m.size(); ++k) { auto q = ref_reduce(v, s.sizes, s.idx[k]); for (size_t i = 0; i < q.size(); ++i) { double d = q[i] - p.m[k][i], e = sym_ite_d(d < 0, -d, d); within = sym_and(within, sym_not(gt(e, me + tol))); ismax = sym_or(ismax, sym_and(e >= me - tol, e <= me + tol)); all = sym_and(all, conc ? e < 1.0000001e-8 : e < 1e-8); } }
    sym_assert(within, "no marginal is further off than the reported maximum error"); sym_assert(ismax, "the reported maximum error is attained by some marginal");
    if (conv) sym_assert(all, "convergence is reported only when every marginal is within 1e-8"); else sym_assert(sym_not(conc ? me < 1e-8 : all), "convergence is reported when every marginal is within 1e-8");
    sym_assert(iters >= 1 && iters <= 1000, "between 1 and 1000 iterations are reported"); double t = 0; for (auto x : p.m[0]) t += x; sym_assert(as_int(key(st, "pop")) == (int64_t)std::floor(t + 0.5), "the population is the marginals' total"); sym_obs_i("iters", iters);
  }
  if (what == 6) { // no interaction that the marginals do not constrain differs from the seed's
    size_t D = s.sizes.size();
    for (unsigned T = 1; T < (1u << D); ++T) { bool covered = false; for (auto& ix : s.idx) { unsigned c = 0; for (auto d : ix) c |= 1u << d; covered |= (T & ~c) == 0; } if (covered) continue;
      for (size_t i = 0; i < v.size(); ++i) { auto a = unflat(i, s.sizes); bool last = true; for (size_t d = 0; d < D; ++d) if ((T >> d) & 1) last = last && a[d] + 1 < s.sizes[d]; if (!last) continue; // adjacent levels span all contrasts
        double dd = 0; bool pos = true; std::vector<std::pair<size_t, int>> cells; for (unsigned S = T;; S = (S - 1) & T) { auto b = a; int sg = 1; for (size_t d = 0; d < D; ++d) if ((S >> d) & 1) { ++b[d]; sg = -sg; } cells.emplace_back(flat(b, s.sizes), sg); if (!S) break; }
        for (auto& c : cells) { pos = pos && !p.zero[c.first]; if (conc) pos = pos && v[c.first] > 1e-250; } if (!pos) continue;
        for (auto& c : cells) { dd += c.second * sym_log(v[c.first]); dd -= c.second * sym_log(p.seed[c.first]); }
        double tl = conc || !sym_is_engine() ? 1e-6 : 1e-9; sym_assert(sym_and(dd <= tl, dd >= -tl), "an interaction not constrained by the marginals is the seed's"); sym_cover("ratio"); } }
  }
  if (what == 7 && conv) { // uniform seed, one-dimensional marginals: the product formula
    double t = 0; for (auto x : p.m[0]) t += x; for (size_t i = 0; i < v.size(); ++i) { auto a = unflat(i, s.sizes); double e = t; for (size_t k = 0; k < s.idx.size(); ++k) e *= t > 0 ? p.m[k][a[s.idx[k][0]]] / t : 0; sym_assert(sym_close(v[i], e, 1e-8), "uniform seed: product of the marginals over the population"); } sym_cover("product");
  }
  if (what == 24) { // relabel the dimensions; transpose marginals
    size_t D = s.sizes.size(); std::vector<std::vector<int64_t>> perms; std::vector<int64_t> pm(D); for (size_t d = 0; d < D; ++d) pm[d] = d; do perms.push_back(pm); while (std::next_permutation(pm.begin(), pm.end())); pm = perms[sym_choice("perm", perms.size())]; // old dimension d is new dimension pm[d]
    Scen t; t.sizes.resize(D); for (size_t d = 0; d < D; ++d) t.sizes[pm[d]] = s.sizes[d]; std::vector<Shape> msh; std::vector<std::vector<double>> m; bool tr = sym_choice("swap", 2);
    for (size_t k = 0; k < s.idx.size(); ++k) { std::vector<int64_t> ix; size_t nd = s.idx[k].size(); std::vector<size_t> ord(nd); for (size_t j = 0; j < nd; ++j) ord[j] = tr ? nd - 1 - j : j; Shape sh; for (auto j : ord) { ix.push_back(pm[s.idx[k][j]]); sh.push_back(p.msh[k][j]); } std::vector<double> w(p.m[k].size()); for (size_t i = 0; i < w.size(); ++i) { auto a = unflat(i, p.msh[k]); std::vector<int64_t> b; for (auto j : ord) b.push_back(a[j]); w[flat(b, sh)] = p.m[k][i]; } t.idx.push_back(ix); msh.push_back(sh); m.push_back(w); }
    auto to = [&](size_t i) { auto a = unflat(i, s.sizes); std::vector<int64_t> b(D); for (size_t d = 0; d < D; ++d) b[pm[d]] = a[d]; return flat(b, t.sizes); };
    std::vector<double> seed(p.seed.size()); for (size_t i = 0; i < seed.size(); ++i) seed[to(i)] = p.seed[i];
    PyRes r2 = run(t, seed, msh, m); sym_assert(r2.ok(), "a relabelled problem is accepted too"); if (!r2.ok()) return; auto w = vals_of<double>(item(r2.v, 0)); sym_assert(w.size() == v.size() && shape_of(item(r2.v, 0)) == t.sizes, "the relabelled result has the relabelled shape"); if (w.size() != v.size()) return; py::object st2 = item(r2.v, 1);
    int same = 1; for (size_t i = 0; i < v.size(); ++i) same = sym_and(same, conc || !sym_is_engine() ? sym_close(w[to(i)], v[i], 1e-7) : sym_same(w[to(i)], v[i])); sym_assert(same, "relabelling the dimensions permutes the result"); sym_assert(as_int(key(st2, "pop")) == as_int(key(st, "pop")), "relabelling keeps the population"); sym_cover("relabelled");
  }
}
