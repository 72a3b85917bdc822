// integerise: one-dimensional (values and population) and n-dimensional
#include "scen.h"
#include "nostats.h"
static double scale(int den) { double r = 1; for (; den > 0; --den) r *= 0.5; for (; den < 0; ++den) r *= 2; return r; }
static py::object dvec(const std::vector<double>& v) { return arr<double>({(ssize_t)v.size()}, v); }
static const int64_t TOT[] = {1, 7, 8, 10, 49, 1000, 65536, 1000003, (1LL << 40) + 1, 3, 2, 6};
static const int64_t POP[] = {0, 1, 2, 3, 5, 10, 100, 1001, 65537, 2147483647, 7, 49};
extern "C" void sym_main() {
  int64_t part = sym_param("part", 0);
  if (part == 0) { // values v/den with total tot/den, any non-negative integers v
    int n = 1 + sym_choice("n", 4); int64_t tot = TOT[sym_choice("tot", 12)], pop = POP[sym_choice("pop", 12)]; int den = (int)sym_param("den", 0); bool conc = sym_param("conc", 0); std::vector<int64_t> v; std::vector<double> d; int64_t t = 0;
    for (int i = 0; i < n; ++i) { int64_t x = sym_int(nm("v", i).c_str(), 0, tot); v.push_back(x); t += x; } sym_assume(t == tot);
    for (auto& x : v) { if (conc) x = sym_value(x); d.push_back((double)x * scale(den)); }
    PyRes r = pycall("integerise", {dvec(d), pyint(pop)}); sym_assert(r.ok(), "non-negative values with a positive sum are accepted"); if (!r.ok()) return;
    auto f = vals_of<int>(item(r.v, 0)); sym_assert(shape_of(item(r.v, 0)) == Shape{n}, "one integer per value"); if ((int)f.size() != n) return; int64_t ft = 0; int nonneg = 1, near = 1, best = 1;
    for (int i = 0; i < n; ++i) { int64_t fi = f[i]; ft += fi; nonneg = sym_and(nonneg, fi >= 0); __int128 a = (__int128)fi * tot, b = (__int128)v[i] * pop; near = sym_and(near, sym_and(a - b < tot, b - a < tot)); for (int j = 0; j < n; ++j) if (j != i) { __int128 c = (__int128)f[j] * tot - (__int128)v[j] * pop; best = sym_and(best, sym_or(fi == 0, a - b - c <= tot)); } sym_obs_i("f", fi); }
    sym_assert(nonneg, "the integers are not negative"); sym_assert(ft == pop, "the integers sum to the population"); sym_assert(near, "each integer is less than 1 away from its exact share"); sym_assert(best, "no other integers of that sum are closer to the shares");
    if (conc) { double se = 0; for (int i = 0; i < n; ++i) { double e = (double)f[i] - (double)v[i] * (double)pop / (double)tot; se += e * e; } sym_assert(sym_close(as_dbl(key(item(r.v, 1), "rmse")), std::sqrt(se / n), 1e-6), "rmse is the root-mean-square difference from the shares"); sym_cover("rmse"); }
    sym_cover("integerised");
  }
  if (part == 4) { // large values that differ little: base*weight + x
    static const int64_t W[][4] = {{1, 1, 1, 1}, {3, 3, 4, 2}, {1, 2, 1, 3}, {5, 1, 1, 7}}; int n = 2 + sym_choice("n", 3); int64_t base = sym_param("base", 1000000007), hi = sym_param("hi", 3), pop = POP[sym_choice("pop", 12)]; auto& w = W[sym_choice("w", 4)]; std::vector<int64_t> v; std::vector<double> d; int64_t tot = 0;
    for (int i = 0; i < n; ++i) { int64_t x = sym_value(sym_int(nm("v", i).c_str(), 0, hi)); v.push_back(w[i] * base + x); tot += v.back(); d.push_back((double)v.back()); } sym_assume((__int128)tot * pop < ((__int128)1 << 45));
    PyRes r = pycall("integerise", {dvec(d), pyint(pop)}); sym_assert(r.ok(), "non-negative values with a positive sum are accepted"); if (!r.ok()) return; auto f = vals_of<int>(item(r.v, 0)); if ((int)f.size() != n) return; int64_t ft = 0; bool near = true, best = true; double se = 0;
    for (int i = 0; i < n; ++i) { ft += f[i]; __int128 a = (__int128)f[i] * tot, b = (__int128)v[i] * pop; near = near && f[i] >= 0 && a - b < tot && b - a < tot; for (int j = 0; j < n; ++j) if (j != i && f[i] > 0) { __int128 c = (__int128)f[j] * tot - (__int128)v[j] * pop; best = best && a - b - c <= tot; } double e = (double)(a - b) / (double)tot; se += e * e; }
    sym_assert(ft == pop, "the integers sum to the population"); sym_assert(near, "each integer is less than 1 away from its exact share"); sym_assert(best, "no other integers of that sum are closer to the shares"); sym_assert(sym_close(as_dbl(key(item(r.v, 1), "rmse")), std::sqrt(se / n), 1e-7), "rmse is the root-mean-square difference from the shares"); sym_cover("close values");
  }
  if (part == 1) { // rejection: negative population, negative or non-finite values, zero sum
    static const double X[] = {0.0, 1.0, -1.0, 0.5, 0.0 / 0.0, 1.0 / 0.0, -1.0 / 0.0, 1e308, -0.25, 5e-324, -5e-324}; int n = 1 + sym_choice("n", 3); std::vector<double> d; bool bad = false; double t = 0; for (int i = 0; i < n; ++i) { double x = X[sym_choice(nm("x", i).c_str(), 11)]; d.push_back(x); if (!(x >= 0 && x < 1.0 / 0.0)) bad = true; t += x; }
    if (!(t > 0) || t == 1.0 / 0.0) bad = true; int64_t pop = sym_int("pop", -3, 5); PyRes r = pycall("integerise", {dvec(d), pyint(sym_value(pop))});
    bool tiny = false; for (auto x : d) if (x > 0 && x < 1e-300) tiny = true;
    if (bad || pop < 0) sym_assert(!r.ok(), "a negative population, negative or non-finite values or a zero sum are rejected"); else if (!tiny) sym_assert(r.ok(), "non-negative values with a positive finite sum are accepted"); sym_cover(r.ok() ? "accepted" : "rejected");
    if (r.ok()) { auto f = vals_of<int>(item(r.v, 0)); int64_t ft = 0; for (auto x : f) { ft += x; sym_assert(x >= 0, "the integers are not negative"); } sym_assert(ft == pop, "the integers sum to the population"); }
  }
  if (part == 2 || part == 3) { // arrays of multiples of 2^-den
    static const std::vector<Shape> SH = {{2, 2}, {2, 3}, {3, 2}, {2, 2, 2}, {1, 3}, {4, 1}, {2}, {3}, {1, 2, 3}, {3, 3}, {4}, {1, 2, 1, 2}, {2, 1, 1, 2, 1}}; const Shape& sh = SH[sym_choice("shape", SH.size())]; size_t n = nel(sh); int den = (int)sym_param("den", 1); int64_t one = 1LL << den, hi = sym_param("hi", 3) * one, phi = sym_param("phi", 2) * one, mult = sym_param("mult", 1); bool conc = part == 2;
    std::vector<int64_t> w; for (size_t i = 0; i < n; ++i) w.push_back(sym_int(nm("w", i).c_str(), 0, hi)); int64_t t = 0; for (auto x : w) t += x; sym_assume(t <= phi);
    std::vector<double> d; auto whole = [&](int64_t x) { return x % one == 0; };
    if (sym_param("whole", 0)) { sym_assume(whole(t)); for (size_t k = 0; k < sh.size(); ++k) for (auto x : ref_reduce(w, sh, {(int64_t)k})) sym_assume(sym_or(sh.size() == 1, whole(x))); }
    std::vector<int64_t> eps(n, 0); if (sym_param("perturb", 0)) { int at = sym_choice("at", (int)n); int64_t sg = sym_choice("size", 5); static const int64_t P[] = {99, -99, 104, 105, -105}; eps[at] = P[sg]; } // in 2^-20
    for (auto& x : w) { if (conc) x = sym_value(x); x *= mult; }
    std::vector<int64_t> u; for (size_t i = 0; i < n; ++i) { int64_t x = w[i] * (1LL << (20 - den)) + eps[i]; u.push_back(x); sym_assume(x >= 0); d.push_back((double)x / 1048576.0); }
    // whole to within 1e-4 (104.8576 units)
    auto nearw = [&](int64_t x) { int64_t f = x % 1048576; return sym_or(f <= 104, f >= 1048576 - 104); }; auto rnd = [&](int64_t x) { return (x + 524288) / 1048576; };
    int64_t ut = 0; for (auto x : u) ut += x; int okay = nearw(ut); std::vector<std::vector<int64_t>> mg; if (sh.size() > 1) for (size_t k = 0; k < sh.size(); ++k) { mg.push_back(ref_reduce(u, sh, {(int64_t)k})); for (auto& x : mg.back()) { okay = sym_and(okay, nearw(x)); x = rnd(x); } }
    PyRes r = pycall("integerise", {arr<double>(sh, d)});
    if (!r.ok()) { sym_cover("raised"); if (sh.size() == 1) sym_assert(sym_not(okay), "a vector with a whole total is accepted"); return; }
    sym_assert(okay, "an array whose total and marginal sums are not all whole is rejected"); py::object res = item(r.v, 0), st = item(r.v, 1); sym_assert(shape_of(res) == sh, "the result has the array's shape"); if (shape_of(res) != sh) return; auto v = vals_of<int64_t>(res);
    int64_t vt = 0; int nonneg = 1; for (auto x : v) { vt += x; nonneg = sym_and(nonneg, x >= 0); sym_obs_i("c", x); } sym_assert(nonneg, "the counts are not negative"); sym_assert(vt == rnd(ut), "the result's total is the nearest whole number to the array's");
    int match = 1; for (size_t k = 0; k < mg.size(); ++k) { auto q = ref_reduce(v, sh, {(int64_t)k}); for (size_t i = 0; i < q.size(); ++i) match = sym_and(match, q[i] == mg[k][i]); } int conv = as_bool(key(st, "conv")); if (conv) sym_assert(match, "convergence is only reported when every marginal is reproduced"); else sym_assert(sym_not(match), "convergence is reported when every marginal is reproduced"); sym_cover(conv ? "converged" : "not converged");
    if (conc) { double se = 0; for (size_t i = 0; i < n; ++i) se += ((double)v[i] - d[i]) * ((double)v[i] - d[i]); sym_assert(sym_close(as_dbl(key(st, "rmse")), std::sqrt(se / n), 1e-7), "rmse is the root-mean-square difference"); }
  }
}
