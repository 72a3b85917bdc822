// the p-value of a chi-squared statistic
// SOURCES: StatFuncs.cpp Index.cpp
#include "sym.h"
#include "StatFuncs.h"
#include <limits>
#include <string>
// upper tail with n degrees of freedom, summed in closed form
static double tail(int64_t n, double x) {
  double h = x / 2, s = n % 2 ? std::erfc(std::sqrt(h)) : 0.0, j = n % 2 ? 0.5 : 0.0; if (h == 0) return 1.0;
  for (; j < n / 2.0; j += 1.0) s += std::exp(-h + j * std::log(h) - std::lgamma(j + 1)); return s;
}
static const int64_t DOF[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 24, 50, 101, 255, 1000};
extern "C" void sym_main() {
  int64_t part = sym_param("part", 0); const double inf = std::numeric_limits<double>::infinity();
  if (part == 0) { // the ends, for all degrees of freedom
    uint32_t d = (uint32_t)sym_int("dof", 1, 0xffffffffLL); sym_assert(pValue(d, 0.0).first == 1.0, "the p-value of a perfect fit is 1"); sym_assert(pValue(d, inf).first == 0.0, "the p-value of an infinite statistic is 0"); sym_cover("ends");
  } else if (part == 1) { // against the closed form
    int64_t n = DOF[sym_choice("dof", 17)], k = sym_value(sym_int("x", 0, sym_param("hi", 240))), den = sym_param("den", 4); double x = (double)k / (double)den; if (sym_param("rel", 0)) x *= (double)n;
    double p = pValue((uint32_t)n, x).first, q = tail(n, x); sym_assert(p >= 0 && p <= 1, "the p-value lies in [0,1]"); sym_assert(std::fabs(p - q) <= 2e-7, "the p-value is the upper tail of the chi-squared distribution"); if (k == 0) sym_assert(p == 1.0, "the p-value of a perfect fit is 1"); sym_obs_d("p", p); sym_cover("tail");
  } else if (part == 2) { // far beyond the degrees of freedom
    static const double M[] = {20, 50, 120, 300, 1e3, 1e4, 1e6, 1e9, 1e15, 1e100, 1e300}; int64_t n = DOF[sym_choice("dof", 17)]; int m = sym_choice("mult", 11); double p = pValue((uint32_t)n, M[m] * (double)n).first; sym_obs_d("p", p); sym_assert(p >= 0 && p <= 1, "the p-value lies in [0,1]"); double h = M[m] * (double)n / 2; bool under = n / 2.0 * std::log(h) - h - std::lgamma(n / 2.0) < std::log(1e-37); if (under && p == 1.0) sym_assert(0, "the p-value is 1 where the density underflows 1e-37"); else sym_assert(p <= 1e-4, "the p-value tends to 0 far beyond the degrees of freedom"); sym_cover("far");
  }
}
