// qisi with any fitted solution and any quasirandom variates in place of the real ones: exactness and impossible states do not depend on them
// WRAP: _ZN5Sobol3bufEv
#include "scen.h"
#include "nostats.h"
#include "NDArray.h"
static size_t g_dim; static const Shape* g_sizes; static std::vector<int> g_zero; static int64_t g_fmax; static int g_fits;
static const std::vector<uint32_t>& draw() { static std::vector<uint32_t> v; v.resize(g_dim); for (size_t d = 0; d < g_dim; ++d) v[d] = sym_u32(nm("v", d).c_str()); return v; }
const std::vector<uint32_t>& hx_buf(void*) asm("override._ZN5Sobol3bufEv");
const std::vector<uint32_t>& hx_buf(void*) { return draw(); }
extern "C" const std::vector<uint32_t>& __wrap__ZN5Sobol3bufEv(void*) { return draw(); }
#ifdef NATIVE_REPLAY
NDArray<double>& hx_fit(void*, const NDArray<double>&) asm("_ZN3IPFIlE5solveERK7NDArrayIdE"); // takes the place of the weak definition
#else
NDArray<double>& hx_fit(void*, const NDArray<double>&) asm("override._ZN3IPFIlE5solveERK7NDArrayIdE");
#endif
NDArray<double>& hx_fit(void*, const NDArray<double>&) { ++g_fits; static NDArray<double> a; a.resize(std::vector<int64_t>(g_sizes->begin(), g_sizes->end())); for (size_t i = 0; i < g_zero.size(); ++i) const_cast<double*>(a.rawData())[i] = g_zero[i] ? 0.0 : sym_dyadic(nm("f", i).c_str(), 0, g_fmax * 4, 2); return a; }
extern "C" void sym_main() {
  int si = sym_choice("scen", scens().size()); int64_t what = sym_param("what", 3), nz = sym_param("nzeros", 0), mult = sym_param("mult", 1);
  Prob p = make_problem(si, sym_param("plo", 0), sym_param("phi", 2)); const Scen& s = *p.s; g_dim = s.sizes.size(); g_sizes = &s.sizes; size_t n = nel(s.sizes); g_fits = 0;
  for (auto& m : p.m) for (auto& x : m) x = mult * sym_value(x); p.pop = 0; for (auto x : p.m[0]) p.pop += x; g_fmax = p.pop;
  g_zero.assign(n, 0); for (int k = 0; k < nz; ++k) { int at = sym_choice(nm("zero", k).c_str(), (int)n + 1); if (at < (int)n) g_zero[at] = 1; }
  std::vector<double> seed; for (size_t i = 0; i < n; ++i) seed.push_back(g_zero[i] ? 0.0 : 1.0);
  PyRes r = pycall("qisi", {arr<double>(s.sizes, seed), ilist(s), mlist(p)}); if (!r.ok()) { sym_cover("raised"); return; }
  if (!g_fits) { sym_cut("the fit is not obtained through IPF::solve"); return; }
  py::object res = item(r.v, 0), st = item(r.v, 1); int conv = as_bool(key(st, "conv")); sym_assert(shape_of(res) == s.sizes, "result has the implied shape"); if (shape_of(res) != s.sizes) return; auto v = vals_of<int64_t>(res);
  int64_t tot = 0; int nonneg = 1; for (auto x : v) { tot += x; nonneg = sym_and(nonneg, x >= 0); }
  int match = 1; for (size_t k = 0; k < p.m.size(); ++k) { auto q = ref_reduce(v, s.sizes, s.idx[k]); for (size_t i = 0; i < q.size(); ++i) match = sym_and(match, q[i] == p.m[k][i]); }
  sym_cover(conv ? "converged" : "not converged");
  if (what == 3) {
    sym_assert(nonneg, "counts are non-negative"); sym_assert(tot == as_int(key(st, "pop")), "counts sum to the reported population"); sym_assert(tot == p.pop, "the population is the marginals' total");
    if (conv) sym_assert(match, "convergence is only reported when every marginal is reproduced"); else sym_assert(sym_not(match), "convergence is reported when every marginal is reproduced");
  }
  if (what == 4) { int z = 1; for (size_t i = 0; i < n; ++i) if (g_zero[i]) z = sym_and(z, v[i] == 0); sym_assert(z, "a state with zero seed is never populated"); }
  for (size_t i = 0; i < v.size(); ++i) sym_obs_i("c", v[i]);
}
