// Array primitives: reduce, slice, iteration, addressing (element values symbolic, shapes and dimension subsets enumerated)
#include "sym.h"
#include "NDArrayUtils.h"
#include <functional>
#include <algorithm>
typedef std::vector<int64_t> V;
static const std::vector<V> SHAPES = {{4}, {1}, {2, 3}, {3, 2}, {1, 4}, {4, 1}, {2, 3, 2}, {3, 1, 2}, {1, 1, 1}, {2, 2, 3}, {2, 3, 1, 2}, {2, 2, 2, 2}, {2, 1, 2, 3}, {2, 2, 1, 2, 2}, {3, 4}, {4, 3, 2}, {0, 2}, {2, 0, 3}};
static size_t nel(const V& s) { size_t n = 1; for (auto x : s) n *= x; return n; }
static V unflat(size_t k, const V& s) { V r(s.size()); for (size_t i = s.size(); i-- > 0;) { r[i] = k % s[i]; k /= s[i]; } return r; }
static size_t flat(const V& ix, const V& s) { size_t r = 0; for (size_t i = 0; i < s.size(); ++i) r = r * s[i] + ix[i]; return r; }
static std::vector<V> ordered_subsets(size_t n) { std::vector<V> r; V cur; std::vector<int> used(n, 0); std::function<void()> go = [&] { if (!cur.empty()) r.push_back(cur); for (size_t i = 0; i < n; ++i) if (!used[i]) { used[i] = 1; cur.push_back(i); go(); cur.pop_back(); used[i] = 0; } }; go(); return r; }
template <class T> std::vector<T> ref_reduce(const std::vector<T>& a, const V& s, const V& dims) { V o; for (auto d : dims) o.push_back(s[d]); std::vector<T> r(nel(o), T(0)); for (size_t k = 0; k < a.size(); ++k) { V ix = unflat(k, s), jx; for (auto d : dims) jx.push_back(ix[d]); r[flat(jx, o)] += a[k]; } return r; }
static std::string nm(const char* b, size_t i) { return std::string(b) + (char)('0' + i / 10 % 10) + (char)('0' + i % 10); }
template <class T> T elem(size_t i) { if constexpr (std::is_same<T, double>::value) return sym_dyadic(nm("a", i).c_str(), -(1 << 20), 1 << 20, 4); else return (T)sym_int(nm("a", i).c_str(), sizeof(T) == 4 ? -(1ll << 20) : -(1ll << 40), sizeof(T) == 4 ? 1ll << 20 : 1ll << 40); }
template <class T> void values(int what, const V& s) {
  std::vector<T> v(nel(s)); for (size_t i = 0; i < v.size(); ++i) v[i] = elem<T>(i);
  NDArray<T> a(s); sym_assert(a.storageSize() == v.size() && a.dim() == s.size(), "storage has one place per coordinate");
  for (size_t i = 0; i < v.size(); ++i) a[unflat(i, s)] = v[i];
  if (what == 0) { // addressing is row-major and one-to-one; sum and minimum
    int ok = 1; for (size_t i = 0; i < v.size(); ++i) ok = sym_and(ok, sym_and(a.rawData()[i] == v[i], a[unflat(i, s)] == v[i])); sym_assert(ok, "each coordinate has its own place in row-major order");
    T t = 0, mn = v[0], mx = v[0]; for (auto x : v) t += x; for (size_t i = 1; i < v.size(); ++i) { mn = std::min(v[i], mn); mx = std::max(v[i], mx); } sym_assert(sum(a) == t, "sum of all elements"); sym_assert(min(a) == mn, "minimum of all elements"); sym_assert(max(a) == mx, "maximum of all elements");
    NDArray<T> c(V(1, 1)); NDArray<T>::copy(a, c); ok = c.sizes() == s; for (size_t i = 0; i < v.size(); ++i) ok = sym_and(ok, c[unflat(i, s)] == v[i]); sym_assert(ok, "a copy has the same shape and elements");
    NDArray<T> m(std::move(c)); ok = m.sizes() == s; for (size_t i = 0; i < v.size(); ++i) ok = sym_and(ok, m[unflat(i, s)] == v[i]); sym_assert(ok, "a moved array has the same shape and elements");
    NDArray<T> g(V{2, 1}); g.resize(s); g.assign(T(7)); ok = g.sizes() == s && g.storageSize() == v.size(); for (size_t i = 0; i < v.size(); ++i) ok = sym_and(ok, g[unflat(i, s)] == T(7)); sym_assert(ok, "a resized array has every element");
  }
  if (what == 1) { // reduce to a vector, along each dimension
    for (size_t d = 0; d < s.size(); ++d) { std::vector<T> r = reduce<T>(a, d), e = ref_reduce(v, s, V(1, d)); int ok = r.size() == e.size(); for (size_t i = 0; i < e.size() && i < r.size(); ++i) ok = sym_and(ok, r[i] == e[i]); sym_assert(ok, "sums along one dimension"); }
    bool thrown = false; try { reduce<T>(a, s.size()); } catch (std::exception&) { thrown = true; } sym_assert(thrown, "a dimension that does not exist is rejected");
  }
  if (what == 2) { // reduce to an ordered subset of the dimensions
    auto subs = ordered_subsets(s.size()); V dims = subs[sym_choice("dims", subs.size())];
    NDArray<T> r = reduce<T>(a, dims); auto e = ref_reduce(v, s, dims); V os; for (auto d : dims) os.push_back(s[d]);
    int ok = r.sizes() == os; if (ok) for (size_t i = 0; i < e.size(); ++i) ok = sym_and(ok, r[unflat(i, os)] == e[i]); sym_assert(ok, "reduction to the named dimensions in the named order");
    ok = 1; for (size_t i = 0; i < v.size(); ++i) ok = sym_and(ok, a[unflat(i, s)] == v[i]); sym_assert(ok, "reduction leaves its input alone"); sym_cover("reduced");
  }
  if (what == 3 && s.size() > 1) { // slice: any proper ordered subset of dimensions, each at any coordinate
    auto subs = ordered_subsets(s.size()); V dims = subs[sym_choice("dims", subs.size())]; if (dims.size() == s.size()) return;
    std::vector<std::pair<int64_t, int64_t>> fx; for (size_t i = 0; i < dims.size(); ++i) fx.emplace_back(dims[i], sym_value(sym_int(nm("at", i).c_str(), 0, s[dims[i]] - 1)));
    NDArray<T> r = fx.size() == 1 && sym_choice("single", 2) ? slice<T>(a, fx[0]) : slice<T>(a, fx);
    V os, fr; for (size_t d = 0; d < s.size(); ++d) { bool f = false; for (auto& p : fx) f |= p.first == (int64_t)d; if (!f) { os.push_back(s[d]); fr.push_back(d); } }
    int ok = r.sizes() == os; if (ok) for (size_t i = 0; i < nel(os); ++i) { V jx = unflat(i, os), ix(s.size()); for (auto& p : fx) ix[p.first] = p.second; for (size_t j = 0; j < fr.size(); ++j) ix[fr[j]] = jx[j]; ok = sym_and(ok, r[jx] == v[flat(ix, s)]); }
    sym_assert(ok, "a slice holds the elements at the fixed coordinates, other dimensions in order"); sym_cover("sliced");
  }
}
static void iteration(int what, const V& s) {
  size_t n = nel(s);
  if (what == 4) { Index ix(s); size_t k = 0; for (; !ix.end() && k <= n; ++ix, ++k) { const V& r = ix; sym_assert(k < n && r == unflat(k, s), "row-major iteration visits each coordinate once, in order"); } sym_assert(k == n, "row-major iteration ends after the last coordinate");
    int64_t stop = sym_value(sym_int("stop", 0, n ? n - 1 : 0)); Index j(s); for (int64_t i = 0; i < stop; ++i) ++j; j.reset(); k = 0; for (; !j.end() && k <= n; ++j, ++k) { const V& r = j; sym_assert(k < n && r == unflat(k, s), "iteration starts again after a reset"); } sym_assert(k == n, "iteration after a reset ends"); }
  if (what == 5) { TransposedIndex ix(s); size_t k = 0; V rs(s.rbegin(), s.rend()); for (; !ix.end() && k <= n; ++ix, ++k) { V e = unflat(k, rs); V er(e.rbegin(), e.rend()); const V& r = ix; sym_assert(k < n && r == er, "column-major iteration visits each coordinate once, in order"); } sym_assert(k == n, "column-major iteration ends after the last coordinate"); }
  if (what == 6) { // mapped iteration moves only the mapped dimensions, last named fastest
    auto subs = ordered_subsets(s.size()); V dims = subs[sym_choice("dims", subs.size())]; Index ix(s); V os; for (auto d : dims) os.push_back(s[d]);
    V start(s.size(), 0); for (size_t d = 0; d < s.size(); ++d) { bool in = false; for (auto x : dims) in |= x == (int64_t)d; if (!in) { if (s[d]) start[d] = sym_value(sym_int(nm("p", d).c_str(), 0, s[d] - 1)); ix[d] = start[d]; } }
    MappedIndex m(ix, dims); size_t k = 0; for (; !m.end() && k <= nel(os); ++m, ++k) { V e = unflat(k, os), f = start; bool ok = k < nel(os); for (size_t i = 0; i < dims.size() && ok; ++i) { f[dims[i]] = e[i]; ok = m[i] == e[i]; } const V& r = ix; sym_assert(ok && r == f, "mapped iteration visits each combination of the mapped dimensions once, in order"); } sym_assert(k == nel(os), "mapped iteration ends after the last combination"); }
}
// one step of each iterator, from any position in an array of any size
// (only if positions can be set from outside: an implementation that counts its steps instead is checked by the enumeration above)
static bool settable(int kind) {
  V s{2, 3}; for (size_t k = 0; k < 6; ++k) { V p = unflat(k, s), e = unflat((k + 1) % 6, s); bool last = k == 5; if (kind == 1) { p = V{(int64_t)k % 2, (int64_t)k / 2}; e = V{(int64_t)(k + 1) % 2, (int64_t)(k + 1) % 6 / 2}; }
    auto ok = [&](const V& r, bool end) { return end == last && (last || r == e); };
    if (kind == 0) { Index ix(s); ix[0] = p[0]; ix[1] = p[1]; ++ix; if (!ok(ix, ix.end())) return false; }
    if (kind == 1) { TransposedIndex ix(s); ix[0] = p[0]; ix[1] = p[1]; ++ix; if (!ok(ix, ix.end())) return false; }
    if (kind == 2) { Index ix(s); MappedIndex m(ix, V{0, 1}); ix[0] = p[0]; ix[1] = p[1]; ++m; if (!ok(ix, m.end())) return false; }
    if (kind == 3) { V t{2, 2, 3}; FixedIndex f(t, {{1, 1}}); f[0] = p[0]; f[1] = p[1]; ++f; const V& r = f.operator const Index&(); if (!ok(V{r[0], r[2]}, f.end())) return false; } }
  return true;
}
static void step(int n, int kind) {
  if (!settable(kind)) { sym_cover("state not recognised"); return; }
  static const int64_t MX[] = {1ll << 40, 1ll << 30, 1ll << 20, 1ll << 15}; V s, p; for (int d = 0; d < n; ++d) s.push_back(sym_int(nm("size", d).c_str(), 1, MX[n - 1]));
  for (int d = 0; d < n; ++d) { int64_t x = sym_int(nm("pos", d).c_str(), 0, MX[n - 1] - 1); sym_assume(x < s[d]); p.push_back(x); }
  V dims; if (kind < 2) for (int d = 0; d < n; ++d) dims.push_back(kind == 0 ? d : n - 1 - d); else { auto subs = ordered_subsets(n); dims = subs[sym_choice("dims", subs.size())]; if (kind == 3) { V rest; for (int d = 0; d < n; ++d) if (std::find(dims.begin(), dims.end(), d) == dims.end()) rest.push_back(d); dims.swap(rest); if (dims.empty()) return; } }
  V e = p; bool carry = true; for (size_t k = dims.size(); k-- > 0 && carry;) { int64_t d = dims[k]; if (e[d] + 1 == s[d]) e[d] = 0; else { ++e[d]; carry = false; } } // the successor, the last of dims fastest
  auto chk = [&](const V& r, bool end) { sym_assert(end == carry, "a step ends the iteration exactly at the last position"); if (!carry) { int ok = r.size() == (size_t)n; for (int d = 0; d < n && ok; ++d) ok = sym_and(ok, r[d] == e[d]); sym_assert(ok, "a step moves to the next position"); } sym_cover(carry ? "ended" : "stepped"); };
  if (kind == 0) { Index ix(s); for (int d = 0; d < n; ++d) ix[d] = p[d]; sym_assert(!ix.end(), "an array with elements has a first position"); ++ix; const V& r = ix; chk(r, ix.end()); }
  if (kind == 1) { TransposedIndex ix(s); for (int d = 0; d < n; ++d) ix[d] = p[d]; sym_assert(!ix.end(), "an array with elements has a first position"); ++ix; const V& r = ix; chk(r, ix.end()); }
  if (kind == 2) { Index ix(s); MappedIndex m(ix, dims); for (int d = 0; d < n; ++d) ix[d] = p[d]; ++m; const V& r = ix; chk(r, m.end()); }
  if (kind == 3) { std::vector<std::pair<int64_t, int64_t>> fx; for (int d = 0; d < n; ++d) if (std::find(dims.begin(), dims.end(), d) == dims.end()) fx.emplace_back(d, p[d]); FixedIndex f(s, fx); sym_assert(f.sizes().size() == dims.size(), "the free dimensions are those not fixed"); if (f.sizes().size() != dims.size()) return; int ok = 1; for (size_t j = 0; j < dims.size(); ++j) { ok = sym_and(ok, f.sizes()[j] == s[dims[j]]); f[j] = p[dims[j]]; } sym_assert(ok, "the free dimensions keep their sizes"); ++f; const V& r = f.operator const Index&(); chk(r, f.end()); }
}
// the address of any element of a large array (a view: no storage of that size is needed)
static void address(int si, int how) {
  static const std::vector<V> LS = {{1 << 20, 3}, {70000, 70000}, {3, 1 << 29, 5}, {1 << 10, 1 << 20, 1 << 5}, {40000, 3, 40000}, {46341, 46341}, {2, 65536, 2, 65536}, {1 << 29, 9}}; const V& s = LS[si]; static double base[1]; NDArray<double> a(s, base); const NDArray<double>& ca = a;
  V p; int64_t lin = 0; for (size_t d = 0; d < s.size(); ++d) { p.push_back(sym_int(nm("p", d).c_str(), 0, s[d] - 1)); lin = lin * s[d] + p[d]; }
  int64_t n = 1; for (auto x : s) n *= x; sym_assert((int64_t)a.storageSize() == n, "an array has as many elements as the product of its sizes");
  uintptr_t at = 0; Index ix(s); for (size_t d = 0; d < s.size(); ++d) ix[d] = p[d];
  if (how == 0) at = (uintptr_t)&a[p]; if (how == 1) at = (uintptr_t)&ca[p]; if (how == 2) { V dims; for (size_t d = 0; d < s.size(); ++d) dims.push_back(d); MappedIndex m(ix, dims); at = (uintptr_t)&a[m]; } if (how == 3) { V dims; for (size_t d = 0; d < s.size(); ++d) dims.push_back(d); MappedIndex m(ix, dims); at = (uintptr_t)&ca[m]; }
  sym_assert((int64_t)(at - (uintptr_t)base) == lin * (int64_t)sizeof(double), "each element of a large array has its own place, in row-major order"); sym_cover("addressed");
}
extern "C" void sym_main() {
  if (sym_param("address", 0)) { address(sym_choice("lshape", 8), sym_choice("how", 4)); return; }
  if (sym_param("step", 0)) { step(1 + sym_choice("n", 4), sym_choice("kind", 4)); return; }
  int sh = sym_choice("shape", SHAPES.size()), what = sym_choice("what", 7), ty = what < 4 ? sym_choice("type", 3) : 0; const V& s = SHAPES[sh]; if (!nel(s) && (what == 0 || what == 3 || what == 6)) return;
  if (what >= 4) iteration(what, s); else if (ty == 0) values<int64_t>(what, s); else if (ty == 1) values<double>(what, s); else values<int>(what, s);
}
