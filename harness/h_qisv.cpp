// qis with arbitrary quasirandom variates in place of the Sobol points: independent marginals converge whatever is drawn
// WRAP: _ZN5Sobol3bufEv
#include "scen.h"
#include "nostats.h"
static size_t g_dim;
static const std::vector<uint32_t>& draw() { static std::vector<uint32_t> v; v.resize(g_dim); for (size_t d = 0; d < g_dim; ++d) v[d] = sym_u32(nm("v", d).c_str()); return v; }
const std::vector<uint32_t>& hx_buf(void*) asm("override._ZN5Sobol3bufEv");
const std::vector<uint32_t>& hx_buf(void*) { return draw(); }
extern "C" const std::vector<uint32_t>& __wrap__ZN5Sobol3bufEv(void*) { return draw(); }
extern "C" void sym_main() {
  int si = sym_choice("scen", scens().size()); int64_t what = sym_param("what", 3);
  Prob p = make_problem(si, sym_param("plo", 0), sym_param("phi", 2)); const Scen& s = *p.s; g_dim = s.sizes.size();
  for (auto& m : p.m) for (auto& x : m) x = sym_value(x);
  PyRes r = pycall("qis", {ilist(s), mlist(p)});
  if (!r.ok()) { sym_cover("raised"); if (what & 2) sym_assert(!s.disjoint(), "independent marginals never fail"); return; }
  py::object res = item(r.v, 0), st = item(r.v, 1); int conv = as_bool(key(st, "conv")); auto v = vals_of<int64_t>(res); int64_t tot = 0; int nonneg = 1;
  for (auto x : v) { tot += x; nonneg = sym_and(nonneg, x >= 0); }
  if (what & 1) {
    sym_assert(nonneg, "counts are non-negative"); sym_assert(tot == as_int(key(st, "pop")), "counts sum to the reported population"); sym_assert(tot == p.pop, "the population is the marginals' total");
    int match = 1; for (size_t k = 0; k < p.m.size(); ++k) { auto q = ref_reduce(v, s.sizes, s.idx[k]); for (size_t i = 0; i < q.size(); ++i) match = sym_and(match, q[i] == p.m[k][i]); }
    if (conv) { sym_cover("converged"); sym_assert(match, "convergence is only reported when every marginal is reproduced"); } else { sym_cover("not converged"); sym_assert(sym_not(match), "convergence is reported when every marginal is reproduced"); }
  }
  if ((what & 2) && s.disjoint()) { sym_cover("independent"); sym_assert(conv, "independent marginals always converge"); }
  for (size_t i = 0; i < v.size(); ++i) sym_obs_i("c", v[i]);
}
