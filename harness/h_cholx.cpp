// correlated variates with the real functions at the ends of the range and inside
// SOURCES: StatFuncs.cpp Index.cpp
#include "sym.h"
#include "StatFuncs.h"
#include <limits>
extern "C" void sym_main() {
  static const uint32_t U[] = {0, 1, 2, 1000, 104152956, 1u << 30, 0x7fffffff, 0x80000000, 0x80000001, 0xc0000000, 4190814339u, 4294960000u, 4294967294u, 4294967295u}; static const double RHO[] = {0.0, 0.3, 0.5, 0.7, 0.99, 1.0, -0.3, -0.7, -1.0};
  static const int G[] = {3, 5, 9, 11, 4}; bool grid = sym_param("grid", 0); double rho; uint32_t a, b;
  if (grid) { int64_t k = sym_value(sym_int("k", -66, 66)); rho = k == 66 ? 0.99999 : k == -66 ? -0.99999 : k == 65 ? 1e-9 : k == -65 ? -1e-9 : (double)k / 64.0; a = U[G[sym_choice("a", 5)]], b = U[G[sym_choice("b", 5)]]; }
  else { rho = RHO[sym_choice("rho", 9)]; a = U[sym_choice("a", 14)], b = U[sym_choice("b", 14)]; }
  const double S = 4294967296.0; auto p = Cholesky(rho)({a, b});
  int64_t d0 = (int64_t)p.first - (int64_t)a; sym_assert(d0 >= -1 && d0 <= 1, "the first variate is kept"); double na = invCumNorm(a / S), nb = invCumNorm(b / S); double z = (double)(na * rho + nb * (double)std::sqrt(1 - rho * rho)); double y = 0.5 * std::erfc(-z / std::sqrt(2.0)) * S; if (y > 4294967295.0) y = 4294967295.0;
  sym_assert(std::fabs((double)p.second - y) <= 4, "the second is the combination with the requested correlation"); sym_obs_i("second", p.second); sym_cover("correlated");
}
