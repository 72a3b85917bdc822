// qis through the Python interface: exactness, truthful convergence, independent marginals converge, statistics
#include "scen.h"
#include "nostats.h"
static const int64_t SK[] = {0, 1, 2, 5, 64};
extern "C" void sym_main() {
  int si = sym_choice("scen", scens().size()); int64_t what = sym_param("what", 1);
  Prob p = make_problem(si, sym_param("plo", 0), sym_param("phi", 3)); const Scen& s = *p.s;
  int sk = sym_choice("skip", 5); PyRes r;
  std::vector<py::object> a = {ilist(s), mlist(p)}; if (sk) a.push_back(pyint(SK[sk])); r = pycall("qis", a);
  if (!r.ok()) { sym_cover("raised"); if (what & 2) sym_assert(!s.disjoint(), "independent marginals never fail"); return; }
  py::object res = item(r.v, 0), st = item(r.v, 1); int conv = as_bool(key(st, "conv"));
  if (what & 1) {
    sym_assert(shape_of(res) == s.sizes, "result has the implied shape"); if (shape_of(res) != s.sizes) return;
    auto v = vals_of<int64_t>(res); int64_t tot = 0; int nonneg = 1; for (auto x : v) { tot += x; nonneg = sym_and(nonneg, x >= 0); }
    sym_assert(nonneg, "counts are non-negative"); sym_assert(tot == as_int(key(st, "pop")), "counts sum to the reported population"); sym_assert(tot == p.pop, "the population is the marginals' total");
    int match = 1; for (size_t k = 0; k < p.m.size(); ++k) { auto q = ref_reduce(v, s.sizes, s.idx[k]); for (size_t i = 0; i < q.size(); ++i) match = sym_and(match, q[i] == p.m[k][i]); }
    if (conv) { sym_cover("converged"); sym_assert(match, "convergence is only reported when every marginal is reproduced"); } else { sym_cover("not converged"); sym_assert(sym_not(match), "convergence is reported when every marginal is reproduced"); }
    for (size_t i = 0; i < v.size(); ++i) sym_obs_i("c", v[i]);
  }
  if (what & 2) { if (s.disjoint()) { sym_cover("independent"); sym_assert(conv, "independent marginals always converge"); } }
}
