// R qis and qisi honour skips: the same result as without skips from points taken further on in the unskipped sequence
// WRAP: _ZN5Sobol3bufEv
#include "rclient.h"
#include "Sobol.h"
static bool g_rep; static std::vector<std::vector<uint32_t>> g_pts; static size_t g_at;
extern "C" const std::vector<uint32_t>& __real__ZN5Sobol3bufEv(Sobol*);
extern "C" const std::vector<uint32_t>& __wrap__ZN5Sobol3bufEv(Sobol* s) { if (!g_rep) return __real__ZN5Sobol3bufEv(s); return g_pts[g_at++]; }
static uint64_t discarded(uint64_t n) { if (n == 0) return 0; if (n == 1) return 1; uint64_t k = 1; while (2 * k < n) k *= 2; return k; }
extern "C" void sym_main() {
  int fn = sym_choice("fn", 2), si = sym_choice("scen", scens().size()); static const int64_t SK[] = {0, 1, 2, 3, 4, 5, 8, 9, 33, 100, 1000}; int64_t n = SK[sym_choice("skip", 11)]; bool dbl = sym_choice("double", 2);
  { Sobol q(scens()[si].sizes.size()); for (uint64_t k = discarded(n); k--;) q.buf(); g_pts.clear(); for (int k = 0; k < 8; ++k) g_pts.push_back(q.buf()); }
  Prob p = make_problem(si, sym_param("plo", 1), sym_param("phi", 3)); const Scen& s = *p.s; for (auto& m : p.m) for (auto& x : m) x = sym_value(x);
  std::vector<SEXP> ml; for (size_t k = 0; k < p.m.size(); ++k) ml.push_back(rint_array(p.msh[k], p.m[k], p.msh[k].size() == 1)); std::vector<double> sd(nel(s.sizes)); for (size_t i = 0; i < sd.size(); ++i) sd[i] = 1 + (i * 7 % 5) * 0.25;
  SEXP I = rindices(s), M = rlist(ml), S = rnum_array(s.sizes, sd); SEXP K = dbl ? rnums({(double)n}) : rints({n}), Z = rints({0});
  g_rep = false; RRes x = rguard([&] { return fn == 0 ? _humanleague_qis(I, M, K) : _humanleague_qisi(S, I, M, K); });
  g_rep = true; g_at = 0; RRes y = rguard([&] { return fn == 0 ? _humanleague_qis(I, M, Z) : _humanleague_qisi(S, I, M, Z); }); g_rep = false; if (!g_at) return; // the points did not come through Sobol::buf
  sym_assert(x.ok() == y.ok() && !x.odd, "skips: same outcome as from the later points"); if (!x.ok() || !y.ok()) return; SEXP a = rget(x.v, "result"), b = rget(y.v, "result"); if (!a || !b) return; auto u = rivals(a, s.sizes), v = rivals(b, s.sizes); int ok = 1; for (size_t i = 0; i < u.size(); ++i) ok = sym_and(ok, u[i] == v[i]);
  sym_assert(ok, "skips: same population as from the later points"); sym_cover("compared");
}
