// Skipping: how many points are discarded, for every 32-bit argument. Inside the executor the generation of a single point is replaced by
// counting it (so that 2^31 of them can be counted at once); the native replay generates and counts them all.
// SOURCES: Sobol.cpp SobolImpl.cpp
#include "sobolstate.h"
static uint64_t g_count;
extern "C" int __wrap__ZL9sobol_genP10SobolData_Pj(SobolData*, uint32_t*) { ++g_count; return 1; }
extern "C" void sym_main() {
  uint32_t n = sym_u32("n"), x[1]; SobolData* s = nlopt_sobol_create(1); g_count = 0; nlopt_sobol_skip(s, n, x); uint64_t k = g_count;
  if (!sym_is_engine()) { if constexpr (requires { s->n; }) k = s->n; else return; }
  if (n == 0) { sym_cover("none"); sym_assert(k == 0, "no points are discarded for 0"); }
  else if (n == 1) { sym_cover("one"); sym_assert(k == 1, "one point is discarded for 1"); }
  else { sym_cover("many"); sym_assert(sym_and(k >= 1, sym_and((k & (k - 1)) == 0, sym_and(k < n, 2 * k >= n))), "the number of points discarded is the largest power of two smaller than the argument"); }
}
