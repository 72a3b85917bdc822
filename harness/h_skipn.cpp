// qis and qisi with any skips argument: the points discarded before the first one used. Inside the executor the skipping of the generator is replaced by
// counting (C09's other configurations decide what it does); the native replay discards them all and compares the first point used.
// WRAP: _ZN5Sobol3bufEv
#include "scen.h"
#include <algorithm>
#include "nostats.h"
#include "Sobol.h"
static uint64_t g_tot; static std::vector<uint32_t> g_first; static bool g_have;
static uint64_t discarded(uint64_t n) { if (n == 0) return 0; if (n == 1) return 1; for (uint64_t k = 1;; k *= 2) if (2 * k >= n) return k; }
extern "C" const std::vector<uint32_t>& __real__ZN5Sobol3bufEv(Sobol*);
extern "C" const std::vector<uint32_t>& __wrap__ZN5Sobol3bufEv(Sobol* s) { auto& b = __real__ZN5Sobol3bufEv(s); if (!g_have) { g_have = true; g_first = b; } return b; }

void hx_skip(void*, unsigned, unsigned*) asm("override.nlopt_sobol_skip");
void hx_skip(void*, unsigned n, unsigned*) { g_tot += discarded(n); }
extern "C" void sym_main() {
  int fn = sym_choice("fn", 2); g_tot = 0; g_have = false; int lev = sym_choice("level", 33); int64_t n = sym_int("n", lev < 1 ? 0 : (1ll << (lev - 1)) + 1, std::min(4294967295ll, 1ll << lev)); py::object one = arr<int64_t>({2}, {1, 0});
  std::vector<py::object> a = {pylist({vec1({0}), vec1({1})}), pylist({one, one})}; if (fn) a.insert(a.begin(), arr<double>({2, 2}, {1, 2, 3, 4})); a.push_back(pyint(n));
  PyRes r = pycall(fn ? "qisi" : "qis", a); sym_assert(r.ok(), "every skips argument below 2^32 is accepted"); if (!r.ok()) return;
  if (sym_is_engine()) { sym_assert(g_tot == discarded(n), "skips: the same number of points is discarded as by the generator"); sym_cover(n ? "skipped" : "not skipped"); }
  else { if (!g_have) return; Sobol s(2); uint64_t k = discarded(n); auto f = g_first; g_have = true; for (uint64_t i = 0; i < k; ++i) s.buf(); sym_assert(s.buf() == f, "skips: the same number of points is discarded as by the generator"); }
}
