// qis, qisi and ipf accept a problem exactly when they accept its relabelling (values of the marginals symbolic, consistent or not)
// WRAP: _ZN5Sobol3bufEv
#include "scen.h"
#include "nostats.h"
#include <algorithm>
// drawing the first point (or, in the executor, the first fitting step) counts as acceptance and ends the call
static bool g_accepted; struct Accepted {};
void hx_b(void*) asm("override._ZN5Sobol3bufEv"); void hx_b(void*) { g_accepted = true; throw Accepted(); }
void hx_r(void*) asm("override._ZN14MicrosynthesisIddE6rScaleEv"); void hx_r(void*) { g_accepted = true; throw Accepted(); }
void hx_r2(void*) asm("override._ZN14MicrosynthesisIdlE6rScaleEv"); void hx_r2(void*) { g_accepted = true; throw Accepted(); }
extern "C" void* __wrap__ZN5Sobol3bufEv(void*) { g_accepted = true; throw Accepted(); }
static const char* FN[] = {"qis", "qisi", "ipf"};
typedef std::vector<std::vector<int64_t>> Idx;
static bool accepts(int fn, const Shape& seed, const Idx& idx, const std::vector<Shape>& msh, const std::vector<std::vector<int64_t>>& m) {
  std::vector<py::object> il, ml; for (auto& i : idx) il.push_back(vec1(i));
  for (size_t k = 0; k < m.size(); ++k) { if (fn == 2) { std::vector<double> dv; for (auto x : m[k]) dv.push_back((double)x); ml.push_back(arr<double>(msh[k], dv)); } else ml.push_back(arr<int64_t>(msh[k], m[k])); }
  std::vector<py::object> a; if (fn) a.push_back(arr<double>(seed, std::vector<double>(nel(seed), 1.0))); a.push_back(pylist(il)); a.push_back(pylist(ml));
  g_accepted = false; PyRes r = pycall(FN[fn], a); return r.ok() || g_accepted;
}
extern "C" void sym_main() {
  int fn = sym_choice("fn", 3), si = sym_choice("scen", scens().size()); int64_t lo = sym_param("lo", -1), hi = sym_param("hi", 2), phi = sym_param("phi", 3);
  Prob p = make_problem(si, 0, hi, false, lo); const Scen& s = *p.s; size_t D = s.sizes.size();
  int64_t t0 = 0; for (auto x : p.m[0]) t0 += x; sym_assume(sym_and(t0 <= phi, t0 >= sym_param("tlo", 0)));
  std::vector<std::vector<int64_t>> perms; std::vector<int64_t> pm(D); for (size_t d = 0; d < D; ++d) pm[d] = d; do perms.push_back(pm); while (std::next_permutation(pm.begin(), pm.end())); 
  if (D > 3) { std::vector<std::vector<int64_t>> q; for (size_t i = 0; i < perms.size(); i += 7) q.push_back(perms[i]); q.push_back(perms.back()); perms = q; } // of 24, five that move every dimension somewhere
  pm = perms[sym_choice("perm", perms.size())]; bool tr = sym_choice("swap", 2);
  Shape seed = s.sizes; int wrong = fn ? sym_choice("seed", 3) : 0; if (wrong == 1) std::reverse(seed.begin(), seed.end()); if (wrong == 2) seed[sym_choice("at", D)] += 1;
  // the relabelled problem: old dimension d is new dimension pm[d]; with tr the axes of every marginal are reversed together with its index
  Shape seed2(D); for (size_t d = 0; d < D; ++d) seed2[pm[d]] = seed[d];
  Idx idx2; std::vector<Shape> msh2; std::vector<std::vector<int64_t>> m2;
  for (size_t k = 0; k < s.idx.size(); ++k) { std::vector<int64_t> ix; size_t nd = s.idx[k].size(); std::vector<size_t> ord(nd); for (size_t j = 0; j < nd; ++j) ord[j] = tr ? nd - 1 - j : j; Shape sh; for (auto j : ord) { ix.push_back(pm[s.idx[k][j]]); sh.push_back(p.msh[k][j]); } std::vector<int64_t> w(p.m[k].size()); for (size_t i = 0; i < w.size(); ++i) { auto a = unflat(i, p.msh[k]); std::vector<int64_t> b; for (auto j : ord) b.push_back(a[j]); w[flat(b, sh)] = p.m[k][i]; } idx2.push_back(ix); msh2.push_back(sh); m2.push_back(w); }
  bool a = accepts(fn, seed, s.idx, p.msh, p.m), b = accepts(fn, seed2, idx2, msh2, m2);
  sym_cover(a ? "accepted" : "rejected"); sym_assert(a == b, "a relabelled problem is accepted exactly when the original is");
}
