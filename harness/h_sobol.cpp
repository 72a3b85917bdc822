// Sobol points: stratification for every dimension and position, step by step; independence of the number of dimensions
// SOURCES: Sobol.cpp SobolImpl.cpp
#include "sobolstate.h"
#include "Sobol.h"
static std::vector<P> directions(uint32_t dim, uint32_t lo, uint32_t hi) { std::vector<P> v(hi - lo, P(32)); auto d = all_directions(dim); for (uint32_t j = 0; j < 32; ++j) for (uint32_t i = lo; i < hi; ++i) v[i - lo][j] = d[j][i]; return v; }
extern "C" void sym_main() {
  int64_t part = sym_param("part", 0); uint32_t D = 1111, G = (uint32_t)sym_param("groups", 8); int g = part == 2 || part == 3 ? 0 : sym_choice("group", G); uint32_t lo = D * g / G, hi = D * (g + 1) / G;
  if (part == 0) { // direction numbers: points 0..2^k-1 fall into different intervals of length 2^-k
    if (!faithful(D, 10)) { sym_cover("state not recognised"); return; }
    auto V = directions(D, lo, hi); uint32_t d = sym_u32("d"); // the gray codes of two different positions below 2^k differ by some d of at most k bits
    for (uint32_t i = lo; i < hi; ++i) for (int L = 0; L < 32; ++L) { // d has its top bit at L: some bit of the difference of the points from 31-L up is set
      int any = 0; for (int p = 31 - L; p < 32; ++p) { uint32_t y = (V[i - lo][L] >> p) & 1; for (int j = 0; j < L; ++j) if ((V[i - lo][j] >> p) & 1) y ^= (d >> j) & 1; any = sym_or(any, y != 0); if (p == 31 - L && !sym_is_symbolic(any) && any) break; }
      sym_assert(any, "two of the first 2^k points never share an interval of length 2^-k"); }
    sym_cover("stratified");
  }
  if (part == 1) { // one step from any position, all dimensions
    if (!faithful(D, 10)) { sym_cover("state not recognised"); return; }
    auto V = directions(D, 0, D); SobolData* s = nlopt_sobol_create(D);
    int c = sym_choice("c", 32), L = 0; if (sym_param("allL", 0)) L = c - 1 + sym_choice("L", 33 - c); else { int k = sym_choice("L", 3); L = k == 0 ? c - 1 : k == 1 ? c + 1 : 31; if (k == 2 && c + 1 >= 31) return; } // n = 1 at L, anything, 0 at c, ones below
    if (L == c || L > 31) return;
    uint32_t n = (uint32_t)((1ull << c) - 1), b = c ? c - 1 : 0; if (L > c) { uint32_t mid = sym_u32("mid"); uint32_t mask = (uint32_t)(((1ull << L) - 1) & ~((2ull << c) - 1)); n |= (mid & mask) | (1u << L); b = L; }
    P X(D), out(D, 0); uint32_t x0 = sym_u32("x"); for (uint32_t i = 0; i < D; ++i) X[i] = ((x0 ^ (i * 2654435761u)) >> (31 - b)) << (31 - b); // any current point of b+1 bits
    set_state(s, n, X.data(), b); int r = nlopt_sobol_next(s, out.data()); sym_assert(r == 1, "a point is generated at every position below 2^32-1");
    uint32_t b1 = L > c ? b : c; if constexpr (requires { s->n; }) sym_assert(s->n == n + 1, "the generator is left at the next position");
    for (uint32_t q = lo; q < hi; q += 40) { int ok = 1, k = 1; for (uint32_t i = q; i < hi && i < q + 40; ++i) { uint32_t e = X[i] ^ V[i][c]; ok = sym_and(ok, out[i] == e); if constexpr (requires { s->b; s->x; }) k = sym_and(k, sym_and(s->b[i] == b1, s->x[i] == e >> (31 - b1))); }
      sym_assert(ok, "the next point is the one of the sequence"); sym_assert(k, "the generator's state is that of the next point"); }
    nlopt_sobol_destroy(s); sym_cover("stepped");
  }
  if (part == 2) { // the same coordinates whatever the number of dimensions
    int n = (int)sym_param("points", 20); std::vector<P> pa; { Sobol a(D); for (int k = 0; k < n; ++k) pa.push_back(a.buf()); } bool f = faithful(D, 10); std::vector<P> x; if (f) x = all_directions(D);
    int B = 50, blk = sym_choice("block", 23), D1 = blk * B + 1 + sym_choice("D", B); if (D1 > 1111) return; if (!sym_param("all", 0) && D1 > 40 && D1 < 1100 && D1 % 9) return; Sobol b(D1); bool ok = true;
    for (int k = 0; k < n; ++k) { const P& y = b.buf(); ok = ok && (int)y.size() == D1; for (int i = 0; ok && i < D1; ++i) ok = pa[k][i] == y[i] && y[i] != 0; } sym_assert(ok, "a coordinate does not depend on how many dimensions are generated");
    if (f) { auto y = all_directions(D1); for (uint32_t j = 0; j < 32; ++j) for (int i = 0; ok && i < D1; ++i) ok = x[j][i] == y[j][i]; sym_assert(ok, "a direction number does not depend on how many dimensions are generated"); }
    sym_cover("compared");
  }
  if (part == 3) { // dimensions out of range
    int k = sym_choice("which", 7); static const size_t E[] = {0, 1112, 1ull << 32, (1ull << 32) + 2, (1ull << 40) + 1111, 1ull << 63}; size_t d = k < 6 ? E[k] : (size_t)sym_int("dim", 1112, INT64_MAX); bool thrown = false; try { Sobol s(d); } catch (std::exception&) { thrown = true; } sym_assert(thrown, "a number of dimensions outside 1..1111 is rejected"); sym_cover("rejected");
  }
  if (part == 4) { // stratification of the first points, by counting (any representation)
    int K = (int)sym_param("K", 6); Sobol s(D); std::vector<P> seen(D, P(1u << K, 0)); for (uint32_t i = lo; i < hi; ++i) seen[i][0] = 1; bool ok = true, in = true;
    for (uint32_t n = 1; n < (1u << K); ++n) { const P& x = s.buf(); for (uint32_t i = lo; i < hi; ++i) { in = in && x[i] != 0; if (seen[i][x[i] >> (32 - K)]++) ok = false; } }
    sym_assert(in, "values lie strictly inside (0,1)"); sym_assert(ok, "the first 2^k points fall into different intervals"); sym_cover("counted");
  }
}
