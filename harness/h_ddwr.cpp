// Sampling with and without replacement, any frequencies and any 32-bit variates
// SOURCES: Index.cpp
#include "sym.h"
#include <cstdint>
#include "DDWR.h"
#include <string>
static std::string nm(const char* b, size_t i) { return std::string(b) + (char)('0' + i / 10 % 10) + (char)('0' + i % 10); }
template <class I> struct Dist : discrete_distribution_without_replacement<I> { using discrete_distribution_without_replacement<I>::discrete_distribution_without_replacement; };
template <class I> void check_state(Dist<I>& d, const std::vector<I>& f, I tot) { const std::vector<I>& g = d.freq(); int ok = g.size() == f.size(); for (size_t i = 0; i < f.size() && i < g.size(); ++i) ok = sym_and(ok, g[i] == f[i]); sym_assert(ok, "a draw takes exactly one item of its own category"); sym_assert(d.empty() == (tot == 0), "a distribution is empty exactly when nothing remains"); }
template <class I> void go() {
  int64_t what = sym_param("what", 0); size_t n = 1 + sym_choice("n", 4); int64_t hi = sym_param("hi", 3); std::vector<I> f(n); I tot = 0; for (size_t i = 0; i < n; ++i) { f[i] = (I)sym_int(nm("f", i).c_str(), 0, hi); if (sym_param("conc", 0)) f[i] = (I)sym_value(f[i]); tot += f[i]; }
  Dist<I> d(f.begin(), f.end()); check_state(d, f, tot);
  if (what == 0) { // draw until depleted (and beyond)
    int max = (int)sym_param("draws", 5);
    for (int k = 0; k < max; ++k) { I r = (I)sym_u32(nm("r", k).c_str()); bool thrown = false; I c = 0; try { c = d(r); } catch (std::exception&) { thrown = true; }
      if (tot == 0) { sym_assert(thrown, "a depleted distribution raises an error"); sym_cover("depleted"); check_state(d, f, tot); return; }
      sym_assert(!thrown, "a draw succeeds while items remain"); if (thrown) return; int in = c < n; sym_assert(in, "a draw returns a category"); if (!in) return; I cc = (I)sym_value((int64_t)c); sym_assert(f[cc] > 0, "a drawn category had items left"); --f[cc]; --tot; check_state(d, f, tot); sym_obs_i("c", (int64_t)cc); }
  }
  if (what == 1) { // constrained draws
    size_t ff = (size_t)sym_value(sym_int("forbid", 0, n + 1)); int max = (int)sym_param("draws", 3);
    for (int k = 0; k < max; ++k) { I r = (I)sym_u32(nm("r", k).c_str()); bool thrown = false; I c = 0; try { c = d.constrainedSample(r, ff); } catch (std::exception&) { thrown = true; }
      if (tot == 0) { sym_assert(thrown, "a depleted distribution raises an error"); check_state(d, f, tot); return; }
      sym_assert(!thrown, "a constrained draw does not fail while items remain"); if (thrown) return; I al = 0; for (size_t i = 0; i < n && i < ff; ++i) al += f[i];
      if (c == Dist<I>::invalid_state) { sym_assert(al == 0, "a constrained draw reports nothing available only when so"); check_state(d, f, tot); sym_cover("none available"); return; }
      int in = sym_and(c < n, c < ff); sym_assert(in, "a constrained draw returns an allowed category"); if (!in) return; I cc = (I)sym_value((int64_t)c); sym_assert(f[cc] > 0, "a drawn category had items left"); --f[cc]; --tot; check_state(d, f, tot); sym_cover("drawn"); }
  }
}
extern "C" void sym_main() {
  int64_t what = sym_param("what", 0);
  if (what < 2) { go<uint32_t>(); return; }
  // with replacement: only categories of positive frequency, distribution unchanged
  size_t n = 1 + sym_choice("n", 4); std::vector<uint32_t> f(n); uint64_t tot = 0; for (size_t i = 0; i < n; ++i) { f[i] = (uint32_t)sym_int(nm("f", i).c_str(), 0, sym_param("hi", 1000)); tot += f[i]; } sym_assume(tot > 0);
  discrete_distribution_with_replacement<uint32_t> d(f.begin(), f.end()); for (int k = 0; k < 2; ++k) { size_t c = d((uint32_t)sym_u32(nm("r", k).c_str())); int in = c < n; sym_assert(in, "a draw returns a category"); if (!in) return; size_t cc = (size_t)sym_value((int64_t)c); sym_assert(f[cc] > 0, "a drawn category has positive frequency"); int ok = 1; for (size_t i = 0; i < n; ++i) ok = sym_and(ok, d[i] == f[i]); sym_assert(ok, "drawing with replacement changes nothing"); } sym_cover("replaced");
}
