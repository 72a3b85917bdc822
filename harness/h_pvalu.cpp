// the p-value lies in [0,1] whatever logarithms, exponentials and log-gammas return
// SOURCES: StatFuncs.cpp Index.cpp
#include "sym.h"
#include "StatFuncs.h"
#include <limits>
double hx_exp(double) asm("override.exp"); double hx_exp(double x) { return sym_uf1("anyexp", x, 0.0, 1e30); }
double hx_log(double) asm("override.log"); double hx_log(double x) { return sym_uf1("anylog", x, -800.0, 800.0); }
double hx_lg(double) asm("override.lgamma"); double hx_lg(double x) { return sym_uf1("anylg", x, -1.0, 1e10); }
extern "C" void sym_main() {
  uint32_t d = (uint32_t)sym_int("dof", 1, sym_param("maxdof", 4096)); double x = sym_dyadic("x", 0, sym_param("hi", 4096), 4); double p = pValue(d, x).first;
  sym_assert(sym_and(p >= 0, p <= 1), "the p-value lies in [0,1]"); sym_cover("bounded");
}
