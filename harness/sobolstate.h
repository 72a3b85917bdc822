// Access to a generator's position, so that far-away points can be reached in one step. The state (n, x, b) is the one declared in
// SobolImpl.h; faithful() checks on the first points that it means what this header assumes, otherwise such checks are skipped.
#pragma once
#include "sym.h"
extern "C" {
#include "SobolImpl.h"
}
#include <vector>
#include <string>
#include <stdexcept>
typedef std::vector<uint32_t> P;
inline uint32_t topbit(uint32_t n) { uint32_t b = 0; while (n >>= 1) ++b; return b; } // concrete n only
template <class S> void set_state(S* s, uint32_t n, const uint32_t* X, uint32_t b) { if constexpr (requires { s->n; s->x; s->b; s->sdim; }) { s->n = n; for (uint32_t i = 0; i < s->sdim; ++i) { s->x[i] = X[i] >> (31 - b); s->b[i] = b; } } }
template <class S> bool is_state(S* s, uint32_t n, const uint32_t* X, uint32_t b) { if constexpr (requires { s->n; s->x; s->b; s->sdim; }) { if (s->n != n) return false; for (uint32_t i = 0; i < s->sdim; ++i) if (s->b[i] != b || s->x[i] != X[i] >> (31 - b)) return false; return true; } return false; }
// does the state after each of the first points, and after injecting it, look as assumed?
inline bool faithful(uint32_t dim, uint32_t points = 40) {
  SobolData* s = nlopt_sobol_create(dim); if (!s) return false; P X(dim, 0); bool ok = is_state(s, 0, X.data(), 0);
  for (uint32_t n = 1; ok && n < points; ++n) { ok = nlopt_sobol_next(s, X.data()) == 1 && is_state(s, n, X.data(), topbit(n)); }
  nlopt_sobol_destroy(s); return ok;
}
// direction numbers [j][i] of every dimension: the change the generator makes when it moves from point 2^j-1
inline std::vector<P> all_directions(uint32_t dim) { SobolData* s = nlopt_sobol_create(dim); P X(dim, 0), out(dim, 0); std::vector<P> r; for (uint32_t j = 0; j < 32; ++j) { set_state(s, j == 0 ? 0 : (uint32_t)((1ull << j) - 1), X.data(), 0); if (!nlopt_sobol_next(s, out.data())) out.assign(dim, 0); r.push_back(out); } nlopt_sobol_destroy(s); return r; }
inline uint32_t gray_xor(const uint32_t* v, uint32_t n) { uint32_t g = n ^ (n >> 1), r = 0; for (int j = 0; j < 32; ++j) r ^= v[j] & (0u - ((g >> j) & 1u)); return r; }
