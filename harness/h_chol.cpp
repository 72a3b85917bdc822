// correlated variates: the cumulative normal and its inverse are arbitrary functions, inverse to one another, inside the executor
// SOURCES: StatFuncs.cpp Index.cpp
#include "sym.h"
#include "StatFuncs.h"
#include <limits>
#include <cmath>
#include <vector>
static std::vector<std::pair<double, double>> g_q; // (probability, quantile)
#ifndef NATIVE_REPLAY
double hx_inv(double) asm("override._Z10invCumNormd"); double hx_inv(double x) { double n = sym_uf1("Q", x, -40.0, 40.0); g_q.emplace_back(x, n); return n; }
double hx_cum(double) asm("override._Z7cumNormd"); double hx_cum(double n) { for (auto& e : g_q) if (sym_same(e.second, n)) return e.first; return sym_uf1("Phi", n, 0.0, 1.0); }
#endif
static const double RHO[] = {0.0, 0.25, 0.5, 0.75, 1.0, -0.25, -0.5, -0.875, -1.0, 0.125};
extern "C" void sym_main() {
  static const double bad[] = {1.0000000000000002, -1.0000000000000002, 2.0, -7.0, 1e300, 1.0 / 0.0, -1.0 / 0.0, 0.0 / 0.0}; int64_t part = sym_param("part", 0);
  if (part == 1) { int k = sym_choice("bad", 8 + 10); bool thrown = false; try { Cholesky c(k < 8 ? bad[k] : RHO[k - 8]); } catch (std::exception&) { thrown = true; } sym_assert(thrown == (k < 8), "exactly the correlations outside [-1,1] are rejected"); sym_cover(thrown ? "rejected" : "accepted"); return; }
  double rho; if (part == 2) { int k = 6 + sym_choice("k", 47), f = sym_choice("form", 4); double e = std::ldexp(1.0, -k); rho = f < 2 ? e : 1.0 - e; if (f % 2) rho = -rho; } else rho = (double)sym_value(sym_int("rho", -32, 32)) / 32.0; uint32_t a = sym_u32("a"), b = sym_u32("b"); const double S = 4294967296.0;
  Cholesky c(rho); std::vector<uint32_t> in; in.push_back(a); in.push_back(b); auto p = c(in); double s = std::sqrt(1.0 - rho * rho);
  int64_t d0 = (int64_t)p.first - (int64_t)a; sym_assert(sym_and(d0 >= -1, d0 <= 1), "the first variate is kept");
  double y = cumNorm(rho * invCumNorm(a / S) + s * invCumNorm(b / S)) * S; double d1 = (double)p.second - y; sym_assert(sym_and(d1 >= -4.0, d1 <= 4.0), "the second is the combination with the requested correlation"); sym_cover("correlated");
}
