// integerise of an array: accepted exactly when the total and every marginal sum are whole to within 1e-4 (all values symbolic)
// WRAP: _ZN4QISI5solveERK7NDArrayIdEb
#include "scen.h"
#include "nostats.h"
static bool g_accepted; struct Accepted {};
void hx_s2(void*, void*, bool) asm("override._ZN4QISI5solveERK7NDArrayIdEb"); void hx_s2(void*, void*, bool) { g_accepted = true; throw Accepted(); }
extern "C" void* __wrap__ZN4QISI5solveERK7NDArrayIdEb(void*, void*, bool) { g_accepted = true; throw Accepted(); }
extern "C" void sym_main() {
  static const std::vector<Shape> SH = {{2, 2}, {2, 3}, {3, 2}, {2, 2, 2}, {1, 3}, {4, 1}, {2, 1, 2}, {3, 3}, {1, 2, 1, 2}}; const Shape& sh = SH[sym_choice("shape", SH.size())]; size_t n = nel(sh); int64_t hi = sym_param("hi", 1 << 22), lo = sym_param("lo", 0), base = sym_param("base", 0); g_accepted = false; // values in 2^-20
  std::vector<int64_t> u; std::vector<double> d; for (size_t i = 0; i < n; ++i) { int64_t x = sym_int(nm("u", i).c_str(), lo, hi) + base * (1 << 20); u.push_back(x); d.push_back((double)x / 1048576.0); }
  auto nearw = [&](int64_t x) { int64_t f = (x + (1LL << 50)) % 1048576; return sym_or(f <= 104, f >= 1048576 - 104); };
  int64_t ut = 0; for (auto x : u) ut += x; int okay = nearw(ut); int neg = 0; for (size_t k = 0; k < sh.size(); ++k) for (auto x : ref_reduce(u, sh, {(int64_t)k})) { okay = sym_and(okay, nearw(x)); neg = sym_or(neg, x < -524288); }
  PyRes r = pycall("integerise", {arr<double>(sh, d)});
  if (r.ok() || g_accepted) { sym_cover("accepted"); sym_assert(okay, "an array whose total and marginal sums are not all whole is rejected"); }
  else { sym_cover("rejected"); sym_assert(sym_or(sym_not(okay), neg), "an array whose total and marginal sums are whole is accepted"); }
}
