// the chi-squared statistic and the degrees of freedom as functions
// SOURCES: StatFuncs.cpp Index.cpp
#include "sym.h"
#include "StatFuncs.h"
#include <string>
static std::string nm(const char* b, size_t i) { return std::string(b) + (char)('0' + i); }
extern "C" void sym_main() {
  int64_t part = sym_param("part", 0);
  if (part == 0) { // dof
    int n = 1 + sym_choice("dims", 5); std::vector<int64_t> s; int64_t want = 1; for (int i = 0; i < n; ++i) { int64_t x = sym_int(nm("size", i).c_str(), 1, 4096); s.push_back(x); want *= x - 1; }
    sym_assert(dof(s) == want, "the degrees of freedom are the product of (size-1)"); sym_cover("dof");
  } else { // chi-squared of any sample against given expectations (including zero)
    static const std::vector<std::vector<int64_t>> SH = {{3}, {2, 2}, {2, 3}, {2, 1, 3}, {2, 2, 2}}; auto& sh = SH[sym_choice("shape", SH.size())]; size_t n = 1; for (auto d : sh) n *= d;
    static const double EX[] = {0.5, 3.0, 0.0, 1.25, 7.0, 0.0, 2.5, 1.0}; int64_t hi = sym_param("hi", 1000);
    static const double TINY[] = {0.0078125, 1e6, 0.0, 0.0009765625, 0.25, 9.5367431640625e-7, 2.5, 0.03125}; bool tiny = sym_param("tiny", 0); std::vector<int64_t> o; std::vector<double> e; for (size_t i = 0; i < n; ++i) { e.push_back(tiny ? TINY[i] : EX[i]); o.push_back(e[i] == 0.0 ? 0 : sym_int(nm("o", i).c_str(), 0, hi)); }
    NDArray<int64_t> ao(sh); NDArray<double> ae(sh); std::copy(o.begin(), o.end(), const_cast<int64_t*>(ao.rawData())); std::copy(e.begin(), e.end(), const_cast<double*>(ae.rawData()));
    double c = chiSq(ao, ae), x = 0; for (size_t i = 0; i < n; ++i) if (e[i] != 0.0) { double d = (double)o[i] - e[i]; x += d * d / e[i]; }
    sym_assert(c >= 0, "the chi-squared statistic is not negative"); sym_assert(sym_close(c, x, 1e-6), "chi-squared is the sum of (observed-expected)^2/expected"); sym_cover("chi-squared");
  }
}
