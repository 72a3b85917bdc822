#include "pyclient.h"
static const std::vector<Shape> shapes = {{1}, {4}, {2, 2}, {3, 2}, {1, 3}, {2, 1, 2}, {2, 2, 2}, {1, 2, 1, 2}, {2, 1, 1, 2, 1}};
// large counts and long dimensions: the same guarantees, positions and counts enumerated
static void large() {
  static const std::vector<Shape> LS = {{2, 2}, {1, 3}, {300}, {2, 140}, {130, 2}, {1, 60, 1, 2, 1}, {33000}, {2, 40000}, {70000, 1}}; static const int64_t CV[] = {0, 1, 127, 128, 255, 256, 257, 300, 32768, 65536, 65537}; int si = sym_choice("lshape", LS.size()); const Shape& sh = LS[si]; size_t n = nel(sh);
  std::vector<int64_t> c(n, 0); size_t at; if (n > 1000) { const size_t AT[] = {0, 32766, 32767, 32768, n / 2, n - 1}; at = AT[sym_choice("far", 6)]; } else at = (size_t)sym_value(sym_int("at", 0, n - 1)); if (n < 10) { c[at] = CV[sym_choice("big", 11)]; c[(at + 1) % n] = sym_value(sym_int("other", 0, 3)); } else { c[at] = 2; c[n - 1 - at] += 1; }
  PyRes r = pycall("flatten", {arr<int64_t>(sh, c)}); sym_assert(r.ok(), "a table without negative counts is accepted"); if (!r.ok()) return; bool ok = count_of(r.v) == sh.size(); int64_t pop = 0; for (auto x : c) pop += x;
  for (size_t d = 0; ok && d < sh.size(); ++d) { auto& col = static_cast<py::PyList*>(item(r.v, d).ptr())->v; ok = (int64_t)col.size() == pop; size_t row = 0; for (size_t k = 0; k < n && ok; ++k) if (c[k]) { int64_t e = unflat(k, sh)[d]; for (int64_t j = 0; j < c[k] && ok; ++j) ok = as_int(col[row++]) == e; } }
  sym_assert(ok, "large tables: each state appears as often as its count, in order"); sym_cover("flattened");
}
extern "C" void sym_main() {
  if (sym_param("large", 0)) return large();
  int si = sym_choice("shape", shapes.size()); const Shape& sh = shapes[si]; size_t n = nel(sh); int64_t hi = sym_param("hi", 2), lo = sym_param("lo", -1);
  std::vector<int64_t> c(n); for (size_t i = 0; i < n; ++i) c[i] = sym_int(nm("c", i).c_str(), lo, hi);
  PyRes r = pycall("flatten", {arr<int64_t>(sh, c)});
  int neg = 0; int64_t pop = 0; for (size_t i = 0; i < n; ++i) { neg = sym_or(neg, c[i] < 0); pop += c[i]; }
  if (!r.ok()) { sym_assert(neg, "a table without negative counts is accepted"); sym_cover("rejected"); return; }
  sym_assert(sym_not(neg), "a negative count is rejected"); sym_cover("flattened");
  sym_assert(r.v.ptr()->kind == py::K_LIST && count_of(r.v) == sh.size(), "one column per dimension"); if (count_of(r.v) != sh.size()) return;
  for (size_t d = 0; d < sh.size(); ++d) sym_assert((int64_t)count_of(item(r.v, d)) == pop, "one row per individual");
  size_t row = 0, rows = count_of(item(r.v, 0));
  for (size_t k = 0; k < n; ++k) { auto ix = unflat(k, sh);
    for (int64_t j = 0; j < c[k]; ++j, ++row) for (size_t d = 0; d < sh.size(); ++d) { int64_t v = row < count_of(item(r.v, d)) ? as_int(item(item(r.v, d), row)) : -1; sym_assert(v == ix[d], "rows list the states in order, each as often as its count"); sym_obs_i("v", v); } }
  sym_assert(row == rows, "no extra rows");
}
