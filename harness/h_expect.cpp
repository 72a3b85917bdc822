// the expected occupancy of qis at populations too large to sample: the constructor alone, in C++
#include "scen.h"
#include "QIS.h"
extern "C" void sym_main() {
  static const int64_t MUL[] = {1, 1000, 65537, 3000017, 1073741827, 4294967291, 1099511627791}; int si = sym_choice("scen", scens().size()); int64_t mul = MUL[sym_choice("mul", 7)];
  Prob p = make_problem(si, sym_param("plo", 1), sym_param("phi", 3)); const Scen& s = *p.s; std::vector<NDArray<int64_t>> m; std::vector<std::vector<int64_t>> idx; m.reserve(p.m.size()); double pop = 0;
  for (size_t k = 0; k < p.m.size(); ++k) { std::vector<int64_t> sh(p.msh[k].begin(), p.msh[k].end()); m.emplace_back(sh); for (size_t i = 0; i < p.m[k].size(); ++i) { p.m[k][i] = mul * sym_value(p.m[k][i]); const_cast<int64_t*>(m.back().rawData())[i] = p.m[k][i]; } idx.push_back(s.idx[k]); } for (auto x : p.m[0]) pop += (double)x;
  size_t n = nel(s.sizes); std::vector<double> x(n); double z = 0; for (size_t i = 0; i < n; ++i) { auto ix = unflat(i, s.sizes); double w = 1; for (size_t k = 0; k < p.m.size(); ++k) { std::vector<int64_t> j; for (auto d : s.idx[k]) j.push_back(ix[d]); w *= (double)p.m[k][flat(j, p.msh[k])] / pop; } x[i] = w; z += w; }
  QIS q(idx, m, 0); const NDArray<double>& e = q.expectation(); bool shape = e.dim() == s.sizes.size(); for (size_t d = 0; shape && d < s.sizes.size(); ++d) shape = e.sizes()[d] == s.sizes[d]; sym_assert(shape, "the expectation has the result's shape"); if (!shape) return;
  bool ok = true; for (size_t i = 0; i < n; ++i) { double w = z > 0 ? x[i] * (pop / z) : 0; ok = ok && std::fabs(e.rawData()[i] - w) <= 1e-9 * pop; sym_obs_d("e", e.rawData()[i]); } sym_assert(ok, "the expectation is the normalised product of the marginals"); sym_assert((double)q.population() == pop, "the reported population is the marginals' total"); sym_cover("expected");
}
