// NDArray storage: sequences of construction, resizing, copying, moving, viewing and releasing (values symbolic, operations and shapes enumerated)
#include "sym.h"
#include "NDArray.h"
#include <memory>
typedef std::vector<int64_t> V;
static int64_t g_live = 0; static bool g_under = false;
struct E { int64_t v; E() : v(0) { ++g_live; } E(int64_t x) : v(x) { ++g_live; } E(const E& e) : v(e.v) { ++g_live; } E& operator=(const E& e) { v = e.v; return *this; } ~E() { if (--g_live < 0) g_under = true; } };
static const std::vector<V> SH = {{2}, {1, 3}, {2, 2}, {1}, {2, 0}, {3, 1, 2}, {4}};
static size_t nel(const V& s) { size_t n = 1; for (auto x : s) n *= x; return n; }
static V unflat(size_t k, const V& s) { V r(s.size()); for (size_t i = s.size(); i-- > 0;) { r[i] = k % s[i]; k /= s[i]; } return r; }
static std::string nm(const char* b, size_t i) { return std::string(b) + (char)('0' + i / 10 % 10) + (char)('0' + i % 10); }
struct Slot { std::unique_ptr<NDArray<E>> a; V s; std::vector<int64_t> v; bool known = false, owned = true; };
static int g_n = 0;
static void write(Slot& t) { t.v.clear(); for (size_t i = 0; i < nel(t.s); ++i) { int64_t x = sym_int(nm("x", g_n++).c_str(), -(1ll << 40), 1ll << 40); (*t.a)[unflat(i, t.s)] = E(x); t.v.push_back(x); } t.known = true; }
static void check(const Slot& t) {
  if (!t.a) return; const NDArray<E>& a = *t.a; bool sh = a.sizes() == t.s && a.dim() == t.s.size() && a.storageSize() == nel(t.s) && (size_t)(a.end() - a.begin()) == nel(t.s); for (size_t d = 0; d < t.s.size() && sh; ++d) sh = a.size(d) == (size_t)t.s[d]; sym_assert(sh, "an array has the shape it was given"); if (!sh || !t.known) return;
  int ok = 1; for (size_t i = 0; i < t.v.size(); ++i) { V ix = unflat(i, t.s); std::vector<int64_t*> px; for (auto& x : ix) px.push_back(&x); ok = sym_and(ok, sym_and(a[ix].v == t.v[i], sym_and(a[px].v == t.v[i], a.rawData()[i].v == t.v[i]))); } sym_assert(ok, "an array keeps the elements it was given");
}
extern "C" void sym_main() {
  int steps = (int)sym_param("steps", 3), ns = (int)sym_param("shapes", (int64_t)SH.size());
  { std::vector<E> ext(6); std::vector<int64_t> extv; Slot t[2]; E* released = nullptr;
    t[0].s = SH[sym_choice("s0", ns)]; t[0].a.reset(new NDArray<E>(t[0].s)); write(t[0]); t[1].a.reset(new NDArray<E>()); t[1].known = true; // (a default-constructed array has no dimensions)
    if (t[1].a->storageSize() != 0 || t[1].a->dim() != 0) sym_assert(0, "a default-constructed array is empty"); bool def1 = true;
    for (int k = 0; k < steps; ++k) {
      int op = sym_choice(nm("op", k).c_str(), 7), i = sym_choice(nm("on", k).c_str(), 2), j = 1 - i; if (!t[i].a) return; if (i == 1 && def1 && op != 0 && op != 5) return;
      if (op == 0 || op == 4) { // resize, then (or not) fill
        V s = SH[sym_choice(nm("s", k + 1).c_str(), ns)]; bool thrown = false; try { t[i].a->resize(s); } catch (std::exception&) { thrown = true; }
        sym_assert(thrown == !t[i].owned, "an array is resized exactly when it owns its storage"); if (!thrown) { t[i].s = s; if (i == 1) def1 = false; t[i].known = false; if (op == 0) { write(t[i]); sym_cover("resized"); } else { t[i].a->assign(E(7)); t[i].v.assign(nel(s), 7); t[i].known = true; } } }
      else if (op == 1) { // copy into the other array
        if (!t[j].a) return; bool thrown = false; try { NDArray<E>::copy(*t[i].a, *t[j].a); } catch (std::exception&) { thrown = true; } sym_assert(thrown == !t[j].owned, "an array is copied to exactly when it owns its storage"); if (!thrown) { t[j].s = t[i].s; t[j].v = t[i].v; t[j].known = t[i].known; if (j == 1) def1 = false; sym_cover("copied"); } }
      else if (op == 2) { // move into a new array; the old one is destroyed first or last
        bool first = sym_choice(nm("first", k).c_str(), 2); std::unique_ptr<NDArray<E>> b(new NDArray<E>(std::move(*t[i].a))); if (first) t[i].a.reset(); t[i].a.swap(b); sym_cover("moved"); }
      else if (op == 3) { bool thrown = false; try { t[i].a->resize(V()); } catch (std::exception&) { thrown = true; } sym_assert(thrown, "an array without dimensions is refused"); }
      else if (op == 5) { // replaced by a view of foreign storage
        V s = SH[sym_choice(nm("s", k + 1).c_str(), ns)]; t[i].a.reset(new NDArray<E>(s, ext.data())); t[i].s = s; t[i].owned = false; if (i == 1) def1 = false; if (!t[j].owned) t[j].known = false; write(t[i]); int ok = 1; for (size_t q = 0; q < nel(s); ++q) ok = sym_and(ok, ext[q].v == t[i].v[q]); sym_assert(ok, "a view writes to the storage it was given"); sym_cover("view"); }
      else if (op == 6) { if (!t[i].owned || released) return; E* p = const_cast<E*>(t[i].a->rawData()); t[i].a->release(); t[i].owned = false; released = p; check(t[i]); t[i].a.reset(); t[i].a.reset(new NDArray<E>(V{1})); t[i].s = V{1}; t[i].owned = true; write(t[i]); int64_t before = g_live; delete[] p; sym_assert(!p || g_live <= before, "released storage belongs to the caller"); sym_cover("released"); }
      check(t[0]); if (!def1) check(t[1]);
    }
    for (int i = 0; i < 1; ++i) if (t[i].a && t[i].known && t[i].v.size() > 1) { int64_t q = sym_int(nm("q", i).c_str(), 0, (int64_t)t[i].v.size() - 1); V w = t[i].v; sym_assert(t[i].a->rawData()[q].v == w.data()[q], "an array keeps every element, whichever is read"); } }
  sym_assert(g_live == 0 && !g_under, "every element is destroyed exactly once");
}
