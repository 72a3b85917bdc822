// qis and qisi honour skips: the same result as without skips from points taken further on in the unskipped sequence
// WRAP: _ZN5Sobol3bufEv
#include "scen.h"
#include "nostats.h"
#include "Sobol.h"
static bool g_rep; static std::vector<std::vector<uint32_t>> g_pts; static size_t g_at;
extern "C" const std::vector<uint32_t>& __real__ZN5Sobol3bufEv(Sobol*);
extern "C" const std::vector<uint32_t>& __wrap__ZN5Sobol3bufEv(Sobol* s) { if (!g_rep) return __real__ZN5Sobol3bufEv(s); return g_pts[g_at++]; }
static uint64_t discarded(uint64_t n) { if (n == 0) return 0; if (n == 1) return 1; uint64_t k = 1; while (2 * k < n) k *= 2; return k; }
extern "C" void sym_main() {
  int fn = sym_choice("fn", 2), si = sym_choice("scen", scens().size()); static const int64_t SK[] = {0, 1, 2, 3, 4, 5, 8, 9, 33, 100, 1000}, BIG[] = {65536, 65537, 70000, 131073}; int64_t n = sym_param("big", 0) ? BIG[sym_choice("skip", 4)] : SK[sym_choice("skip", 11)];
  { Sobol q(scens()[si].sizes.size()); for (uint64_t k = discarded(n); k--;) q.buf(); g_pts.clear(); for (int k = 0; k < 8; ++k) g_pts.push_back(q.buf()); }
  Prob p = make_problem(si, 1, sym_param("phi", 3)); const Scen& s = *p.s; if (fn) for (auto& m : p.m) for (auto& x : m) x = sym_value(x);
  std::vector<py::object> a = {ilist(s), mlist(p)}; if (fn) { std::vector<double> sd(nel(s.sizes)); for (size_t i = 0; i < sd.size(); ++i) sd[i] = 1 + (i * 7 % 5) * 0.25; a.insert(a.begin(), arr<double>(s.sizes, sd)); }
  auto b = a; b.push_back(pyint(n)); g_rep = false; PyRes x = pycall(fn ? "qisi" : "qis", b);
  g_rep = true; g_at = 0; PyRes y = pycall(fn ? "qisi" : "qis", a); g_rep = false; if (!g_at) return; // the points did not come through Sobol::buf
  sym_assert(x.exc == y.exc, "skips: same outcome as from the later points"); if (!x.ok() || !y.ok()) return; auto u = vals_of<int64_t>(item(x.v, 0)), v = vals_of<int64_t>(item(y.v, 0)); int ok = u.size() == v.size(); for (size_t i = 0; i < u.size() && i < v.size(); ++i) ok = sym_and(ok, u[i] == v[i]);
  sym_assert(ok, "skips: same population as from the later points"); sym_cover("compared");
}
