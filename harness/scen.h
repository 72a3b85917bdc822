// Problem scenarios: which dimensions each marginal names (in order) and the dimension sizes.
#pragma once
#include "pyclient.h"
struct Scen { std::vector<std::vector<int64_t>> idx; Shape sizes; bool disjoint() const { std::vector<int> n(sizes.size(), 0); for (auto& i : idx) for (auto d : i) if (n[d]++) return false; return true; } };
static const std::vector<Scen>& scens() {
  static const std::vector<Scen> s = {
    {{{0}, {1}}, {2, 2}},                        // 0
    {{{0}, {1}}, {3, 2}},                        // 1
    {{{1}, {0}}, {2, 3}},                        // 2  marginals in reverse order
    {{{0}, {1}, {2}}, {2, 2, 2}},                // 3
    {{{0, 1}, {2}}, {2, 2, 2}},                  // 4
    {{{1, 0}, {2}}, {2, 3, 2}},                  // 5  transposed marginal
    {{{0, 2}, {1}}, {2, 2, 2}},                  // 6  interleaved
    {{{2, 0}, {1}}, {2, 1, 3}},                  // 7  interleaved, transposed, unit dimension
    {{{0, 1}, {1, 2}}, {2, 2, 2}},               // 8  overlap
    {{{1, 0}, {1, 2}}, {2, 2, 2}},               // 9  overlap, transposed
    {{{2, 1}, {0, 1}}, {2, 2, 3}},               // 10 overlap on a later dimension
    {{{0, 1}, {1, 2}, {2, 0}}, {2, 2, 2}},       // 11 cycle: need not converge
    {{{0}, {0, 1}}, {2, 2}},                     // 12 nested
    {{{0, 1}, {1, 0}}, {2, 2}},                  // 13 same dimensions twice, each covering everything
    {{{0, 1, 2}, {0, 3}}, {2, 2, 2, 2}},         // 14
    {{{3, 0}, {0, 1, 2}}, {2, 2, 2, 2}},         // 15
    {{{0, 1}, {0, 2}, {0, 3}}, {2, 2, 2, 2}},    // 16 star
    {{{2}, {1}, {0}}, {2, 1, 3}},                // 17
    {{{0, 2}, {1, 3}}, {2, 2, 2, 2}},            // 18 disjoint interleaved pairs
    {{{3, 1}, {2, 0}}, {1, 2, 3, 2}},            // 19 disjoint, transposed, interleaved
    {{{2, 0, 1}, {3}}, {2, 2, 2, 2}},            // 20
    {{{1, 2, 0}, {1, 3, 0}}, {2, 2, 2, 2}},      // 21 two shared dimensions
    {{{0}, {1}}, {4, 1}},                        // 22
    {{{0}, {1}, {2}, {3}}, {2, 2, 2, 2}},        // 23
    {{{0, 1, 2}, {2, 1}}, {2, 2, 2}},            // 24 nested, transposed
    {{{0}, {1}, {2}, {3}, {4}}, {2, 1, 2, 1, 2}},              // 25 five dimensions
    {{{0, 1}, {1, 2}, {3, 4}}, {2, 2, 1, 1, 2}},               // 26 five dimensions, overlap
    {{{4, 0}, {1, 2, 3}, {5}}, {2, 1, 2, 1, 2, 1}},            // 27 six dimensions, transposed
  };
  return s;
}
struct Prob { const Scen* s; std::vector<Shape> msh; std::vector<std::vector<int64_t>> m; int64_t pop; };
inline std::string mname(size_t k, size_t i) { return std::string("m") + (char)('0' + k) + "_" + (char)('0' + i / 10) + (char)('0' + i % 10); }
// symbolic marginals; consistent: non-negative, equal totals between plo and phi, equal partial sums on every shared dimension
inline Prob make_problem(int si, int64_t plo, int64_t phi, bool assume_consistent = true, int64_t lo = 0) {
  Prob p; p.s = &scens()[si]; const Scen& s = *p.s; p.pop = 0;
  for (size_t k = 0; k < s.idx.size(); ++k) { Shape sh; for (auto d : s.idx[k]) sh.push_back(s.sizes[d]); p.msh.push_back(sh); std::vector<int64_t> v(nel(sh)); for (size_t i = 0; i < v.size(); ++i) v[i] = sym_int(mname(k, i).c_str(), lo, phi); p.m.push_back(v); }
  std::vector<int64_t> tot; for (auto& v : p.m) { int64_t t = 0; for (auto x : v) t += x; tot.push_back(t); }
  p.pop = tot[0];
  if (assume_consistent) {
    sym_assume(sym_and(tot[0] >= plo, tot[0] <= phi)); for (size_t k = 1; k < tot.size(); ++k) sym_assume(tot[k] == tot[0]);
    for (size_t d = 0; d < s.sizes.size(); ++d) { std::vector<int64_t> ref; bool have = false;
      for (size_t k = 0; k < s.idx.size(); ++k) for (size_t j = 0; j < s.idx[k].size(); ++j) if (s.idx[k][j] == (int64_t)d) { auto r = ref_reduce(p.m[k], p.msh[k], {(int64_t)j}); if (!have) { ref = r; have = true; } else for (size_t i = 0; i < r.size(); ++i) sym_assume(r[i] == ref[i]); } }
  }
  // further individuals all in one state: skewed and large marginals that stay consistent
  if (int64_t bulk = sym_param("bulk", 0)) { auto at = unflat(sym_param("bulkat", 1), s.sizes); for (size_t k = 0; k < s.idx.size(); ++k) { std::vector<int64_t> j; for (auto d : s.idx[k]) j.push_back(at[d]); p.m[k][flat(j, p.msh[k])] += bulk; } p.pop += bulk; }
  return p;
}
inline py::object ilist(const Scen& s) { std::vector<py::object> v; for (auto& i : s.idx) v.push_back(vec1(i)); return pylist(v); }
inline py::object mlist(const Prob& p, int lay = L_C) { std::vector<py::object> v; for (size_t k = 0; k < p.m.size(); ++k) v.push_back(arr<int64_t>(p.msh[k], p.m[k], lay)); return pylist(v); }
