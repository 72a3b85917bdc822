// Sobol sequences as iterators and generators: exhaustion, scalar draws, reset, interleaving, skips
// WRAP: nlopt_sobol_create
#include "scen.h"
#include "nostats.h"
#include "sobolstate.h"
#include "Sobol.h"
static std::vector<SobolData*> g_made;
extern "C" SobolData* __real_nlopt_sobol_create(uint32_t);
extern "C" SobolData* __wrap_nlopt_sobol_create(uint32_t d) { SobolData* s = __real_nlopt_sobol_create(d); g_made.push_back(s); return s; }
static const double SC = 1.0 / 4294967296.0;
static uint32_t rz(uint32_t n) { uint32_t c = 0; while (n & 1) { n >>= 1; ++c; } return c; }
static uint64_t discarded(uint64_t n) { if (n == 0) return 0; if (n == 1) return 1; uint64_t k = 1; while (2 * k < n) k *= 2; return k; }
extern "C" void sym_main() {
  int64_t part = sym_param("part", 0);
  if (part == 0) { // the end of the sequence, from any state: Python iterator and scalar draws
    uint32_t D = 1 + sym_choice("dim", 3); bool scalar = sym_choice("scalar", 2); if (!faithful(D)) { sym_cover("state not recognised"); return; }
    auto V = all_directions(D); P X(D); for (uint32_t i = 0; i < D; ++i) X[i] = sym_u32(nm("x", i).c_str()); uint32_t left = (uint32_t)sym_value(sym_int("left", 0, 5)), n = 4294967295u - left;
    g_made.clear(); PyRes g; Sobol* q = nullptr; if (scalar) q = new Sobol(D); else g = pynew("SobolSequence", {pyint(D)}); if (g_made.size() != 1) { sym_cover("state not recognised"); return; }
    set_state(g_made[0], n, X.data(), 31);
    for (uint32_t k = 0; k < left + 3; ++k) {
      bool more = k < left; if (more) { uint32_t c = rz(n + k); for (uint32_t i = 0; i < D; ++i) X[i] ^= V[c][i]; }
      if (scalar) for (uint32_t i = 0; i < D; ++i) { bool thrown = false; uint32_t v = 0; try { v = (*q)(); } catch (std::exception&) { thrown = true; } sym_assert(thrown == !more, "scalar draws end after 2^32-1 points"); if (!thrown && more) sym_assert(v == X[i], "the last scalar draws are right"); }
      else { PyRes r = pymeth(g.v, "__next__"); sym_assert(more ? r.ok() : r.exc == E_STOP, "iteration ends exactly after 2^32-1 points, as the end of the iteration"); if (r.ok() && more) { auto v = vals_of<double>(r.v); sym_assert(v.size() == D, "a point has one value per dimension"); for (uint32_t i = 0; i < D && i < v.size(); ++i) sym_assert(v[i] == X[i] * SC, "the last points are right"); } if (!more) sym_cover("ended"); }
    }
    delete q;
  }
  if (part == 1) { // histories of scalar draws and resets: successive coordinates of successive points
    uint32_t D = 1 + sym_choice("dim", 4); int len = (int)sym_param("len", 7); static const uint32_t SK[] = {0, 1, 3, 6}; uint32_t sk = SK[sym_choice("first", 4)];
    Sobol q(D, sk); std::vector<P> pts; { Sobol r(D); for (int k = 0; k < 16; ++k) pts.push_back(r.buf()); } size_t pt = discarded(sk), co = 0;
    for (int k = 0; k < len; ++k) { int op = sym_choice(nm("op", k).c_str(), 3);
      if (op == 0) { uint32_t v = q(); sym_assert(v == pts[pt][co], "drawing one at a time yields successive coordinates"); if (++co == D) { co = 0; ++pt; } }
      else { uint32_t z = op == 1 ? 0 : 3; if (z) q.reset(z); else q.reset(); pt = discarded(z); co = 0; sym_cover("reset"); } }
    P w = pts[co ? pt + 1 : pt]; const P& b = q.buf(); sym_assert(b == w, "the next whole point follows"); sym_assert(q.dim() == D && q.min() == 0 && q.max() == 4294967295u, "a generator reports its dimension and range");
  }
  if (part == 2) { // two iterators (and generators) advance independently, in any order
    int n = (int)sym_param("len", 6); uint32_t D0 = 1 + sym_choice("d0", 3), D1 = 1 + sym_choice("d1", 3); std::vector<std::vector<double>> e0, e1; { PyRes a = pynew("SobolSequence", {pyint(D0)}), b = pynew("SobolSequence", {pyint(D1), pyint(3)}); for (int k = 0; k < n; ++k) e0.push_back(vals_of<double>(pymeth(a.v, "__next__").v)); for (int k = 0; k < n; ++k) e1.push_back(vals_of<double>(pymeth(b.v, "__next__").v)); }
    PyRes a = pynew("SobolSequence", {pyint(D0)}), b = pynew("SobolSequence", {pyint(D1), pyint(3)}); int i = 0, j = 0; std::vector<std::pair<PyRes, std::vector<double>>> kept;
    for (int k = 0; k < n; ++k) { if (sym_choice(nm("turn", k).c_str(), 2)) { if (sym_choice("it", 2)) { PyRes t = pymeth(b.v, "__iter__"); sym_assert(t.ok() && t.v.ptr() == b.v.ptr(), "an iterator iterates over itself"); } kept.emplace_back(pymeth(b.v, "__next__"), e1[j]); sym_assert(vals_of<double>(kept.back().first.v) == e1[j++], "the second sequence is its own"); } else { kept.emplace_back(pymeth(a.v, "__next__"), e0[i]); sym_assert(vals_of<double>(kept.back().first.v) == e0[i++], "the first sequence is its own"); } }
    for (auto& q : kept) sym_assert(vals_of<double>(q.first.v) == q.second, "points already returned do not change");
    sym_cover("interleaved");
  }
  if (part == 5) { // two generators drawn from one value at a time, and reset, in any order
    int n = (int)sym_param("len", 6); uint32_t D0 = 1 + sym_choice("d0", 3), D1 = 1 + sym_choice("d1", 3); std::vector<uint32_t> e[2]; { Sobol a(D0), b(D1, 3); for (int k = 0; k <= n + 4; ++k) { const P& u = a.buf(); e[0].insert(e[0].end(), u.begin(), u.end()); } for (int k = 0; k <= n + 4; ++k) { const P& u = b.buf(); e[1].insert(e[1].end(), u.begin(), u.end()); } }
    Sobol a(D0), b(D1, 3); Sobol* q[2] = {&a, &b}; uint32_t D[2] = {D0, D1}; size_t at[2] = {0, 0};
    for (int k = 0; k < n; ++k) { int w = sym_choice(nm("turn", k).c_str(), 2), op = sym_choice(nm("op", k).c_str(), 3); if (op < 2) { sym_assert((*q[w])() == e[w][at[w]], "each generator continues its own sequence"); ++at[w]; if (op == 1) while (at[w] % D[w]) { sym_assert((*q[w])() == e[w][at[w]], "each generator continues its own sequence"); ++at[w]; } } else { if (w) b.reset(3); else a.reset(); at[w] = 0; } }
    sym_cover("two generators");
  }
  if (part == 3) { // skips of the Python iterator and of the generator
    uint32_t D = 1 + sym_choice("dim", 3); uint64_t n = (uint64_t)sym_value(sym_int("n", 0, sym_param("nmax", 70))), k = discarded(n); PyRes a = pynew("SobolSequence", {pyint(D)}), b = pynew("SobolSequence", {pyint(D), pyint((int64_t)n)}); Sobol r(D, (uint32_t)n), t(D);
    for (int z = 0; z < 3; ++z) t.buf(); t.reset((uint32_t)n); for (uint64_t z = 0; z < k; ++z) pymeth(a.v, "__next__");
    for (int z = 0; z < 3; ++z) { PyRes x = pymeth(a.v, "__next__"), y = pymeth(b.v, "__next__"); auto xv = vals_of<double>(x.v); sym_assert(x.ok() && y.ok() && xv == vals_of<double>(y.v), "skipping discards the documented number of points"); const P& u = r.buf(); const P& v = t.buf(); for (uint32_t i = 0; i < D; ++i) sym_assert(u[i] * SC == xv[i] && v[i] * SC == xv[i], "a generator's skips and reset skips discard the same points"); }
    sym_cover("skipped");
  }
  if (part == 4) { // values handed to Python: 32-bit fractions strictly inside (0,1)
    uint32_t D = 1 + sym_choice("dim", 3); if (!faithful(D)) { sym_cover("state not recognised"); return; } auto V = all_directions(D); g_made.clear(); PyRes g = pynew("SobolSequence", {pyint(D)}); if (g_made.size() != 1) { sym_cover("state not recognised"); return; }
    int c = sym_choice("c", 32); P X(D); for (uint32_t i = 0; i < D; ++i) { X[i] = sym_u32(nm("x", i).c_str()); sym_assume(X[i] != V[c][i]); } set_state(g_made[0], c == 31 ? 0x7fffffffu : (0x80000000u | (c ? 0xffffffffu >> (32 - c) : 0u)), X.data(), 31);
    PyRes r = pymeth(g.v, "__next__"); sym_assert(r.ok(), "a point is generated"); if (!r.ok()) return; auto v = vals_of<double>(r.v); sym_assert(v.size() == D && shape_of(r.v).size() == 1, "a point has one value per dimension");
    for (uint32_t i = 0; i < D && i < v.size(); ++i) { sym_assert(v[i] == (X[i] ^ V[c][i]) * SC, "values are the generator's, scaled to (0,1)"); sym_assert(sym_and(v[i] > 0, v[i] < 1), "values lie strictly inside (0,1)"); } sym_cover("scaled");
  }
}
