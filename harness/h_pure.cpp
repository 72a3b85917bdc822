// Python entry points: results do not depend on layout, type or container (C14); calls are pure and repeatable (C15)
#include "scen.h"
#ifndef FULLSTATS
#include "nostats.h"
#endif
enum { F_QIS, F_QISI, F_IPF, F_INT1, F_INTN, F_FLAT };
static const char* FN[] = {"qis", "qisi", "ipf", "integerise", "integerise", "flatten"};
struct A { bool dbl; Shape sh; std::vector<int64_t> iv; std::vector<double> dv; }; // one array argument, values in row-major order
struct Call { int fn; A seed; bool has_seed = false; std::vector<A> idx, mar; bool has_lists = false; int64_t extra = -1; };
static A ai(Shape s, std::vector<int64_t> v) { A a; a.dbl = false; a.sh = s; a.iv = v; return a; }
static A ad(Shape s, std::vector<double> v) { A a; a.dbl = true; a.sh = s; a.dv = v; return a; }
// var: 0 contiguous native type, 1-4 the other layouts, 5 and 6 other numeric types, 7 nested lists
static py::object mk(const A& a, int var, bool integral = true) {
  if (var == 7) return a.dbl ? nested(a.sh, a.dv) : nested(a.sh, a.iv);
  int lay = var < 5 ? var : var == 8 ? L_UNIT : L_C;
  if (a.dbl) { if (!sym_param("conc", 1) && var >= 5) return arr_dt<double>(integral ? (var == 5 ? py::D_I32 : py::D_I64) : py::D_F64, a.sh, a.dv, L_OFFSET); if (var == 5 || (var == 6 && !integral)) return arr_dt<double>(py::D_F32, a.sh, a.dv, lay); if (var == 6) return arr_dt<double>(py::D_I64, a.sh, a.dv, lay); return arr<double>(a.sh, a.dv, lay); }
  if (var == 5) return arr_dt<int64_t>(py::D_I32, a.sh, a.iv, lay); if (var == 6) return arr_dt<int64_t>(py::D_F64, a.sh, a.iv, lay); return arr<int64_t>(a.sh, a.iv, lay);
}
static std::vector<py::object> args(const Call& c, int var, int ivar, bool integral) {
  std::vector<py::object> r; if (c.has_seed) r.push_back(mk(c.seed, var, integral));
  if (c.has_lists) { std::vector<py::object> i, m; for (auto& a : c.idx) i.push_back(mk(a, ivar)); for (auto& a : c.mar) m.push_back(mk(a, var, integral)); r.push_back(pylist(i)); r.push_back(pylist(m)); }
  if (c.extra >= 0) r.push_back(pyint(c.extra)); return r;
}
struct Out { int exc; std::vector<Shape> sh; std::vector<int64_t> iv; std::vector<double> dv; };
static void take(Out& o, const py::object& v) {
  switch (v.ptr()->kind) {
    case py::K_ARRAY: { o.sh.push_back(shape_of(v)); py::PyArray* a = static_cast<py::PyArray*>(v.ptr()); o.iv.push_back(a->dt); if (a->dt == py::D_F64) for (auto x : vals_of<double>(v)) o.dv.push_back(x); else for (auto x : vals_of<int64_t>(v)) o.iv.push_back(x); break; }
    case py::K_LIST: case py::K_TUPLE: for (size_t i = 0; i < count_of(v); ++i) take(o, item(v, i)); o.iv.push_back(count_of(v)); break;
    case py::K_DICT: for (auto& e : static_cast<py::PyDict*>(v.ptr())->v) take(o, e.second); break;
    case py::K_FLOAT: o.dv.push_back(as_dbl(v)); break; case py::K_INT: case py::K_BOOL: o.iv.push_back(as_int(v)); break; default: o.iv.push_back(-77); }
}
static Out out(const PyRes& r) { Out o; o.exc = r.exc; if (r.ok()) take(o, r.v); return o; }
static int same(const Out& a, const Out& b) { if (a.exc != b.exc || a.sh != b.sh || a.iv.size() != b.iv.size() || a.dv.size() != b.dv.size()) return 0; int ok = 1; for (size_t i = 0; i < a.iv.size(); ++i) ok = sym_and(ok, a.iv[i] == b.iv[i]); for (size_t i = 0; i < a.dv.size(); ++i) ok = sym_and(ok, sym_same(a.dv[i], b.dv[i])); return ok; }
static PyRes go(const Call& c, const std::vector<py::object>& a) { return pycall(FN[c.fn], a); }
static Call make(int fn, bool integral) {
  Call c; c.fn = fn; int64_t phi = sym_param("phi", 1);
  if (fn <= F_IPF) {
    int si = sym_param("scen", 5); Prob p = make_problem(si, sym_param("plo", 0), phi); const Scen& s = *p.s; c.has_lists = true;
    if (sym_param("conc", 1)) for (auto& m : p.m) for (auto& x : m) x = sym_value(x);
    for (size_t k = 0; k < p.m.size(); ++k) { c.idx.push_back(ai({(ssize_t)s.idx[k].size()}, s.idx[k])); if (fn == F_IPF) { std::vector<double> d; for (auto x : p.m[k]) d.push_back((double)x); c.mar.push_back(ad(p.msh[k], d)); } else c.mar.push_back(ai(p.msh[k], p.m[k])); }
    if (fn != F_QIS) { c.has_seed = true; std::vector<double> d(nel(s.sizes)); for (size_t i = 0; i < d.size(); ++i) d[i] = sym_param("conc", 1) ? 1 + (double)((i * 5 + 2) % 7) / (integral ? 1 : 4) : integral ? (double)sym_int(nm("s", i).c_str(), 1, 4) : sym_dyadic(nm("s", i).c_str(), 1, 16, 2); c.seed = ad(s.sizes, d); }
    return c;
  }
  c.has_seed = true;
  if (sym_param("unit", 0)) { static const std::vector<Shape> U = {{1}, {1, 3}, {3, 1}, {1, 1}, {1, 2, 1}}; const Shape& sh = U[fn == F_INT1 ? 0 : sym_choice("ushape", 5)]; size_t n = nel(sh);
    if (fn == F_FLAT) { std::vector<int64_t> v; for (size_t i = 0; i < n; ++i) v.push_back(sym_int(nm("s", i).c_str(), 0, 2)); c.seed = ai(sh, v); } else { std::vector<double> v; for (size_t i = 0; i < n; ++i) v.push_back((double)sym_value(sym_int(nm("s", i).c_str(), 0, 2))); c.seed = ad(sh, v); } if (fn == F_INT1) c.extra = 3; return c; }
  if (fn == F_INT1) { std::vector<double> d(3); for (size_t i = 0; i < 3; ++i) d[i] = integral ? (double)sym_int(nm("s", i).c_str(), 0, 3) : sym_dyadic(nm("s", i).c_str(), 0, sym_param("smax", 6), 2); c.seed = ad({3}, d); c.extra = sym_value(sym_int("pop", 0, 4)); if (sym_param("conc", 1)) for (auto& x : c.seed.dv) x = sym_value((int64_t)(x * 4)) / 4.0; }
  if (fn == F_INTN) { std::vector<double> d(6); for (size_t i = 0; i < 6; ++i) d[i] = sym_value(sym_int(nm("s", i).c_str(), 0, i % 2 ? 2 : 1)) * (integral ? 1 : 0.5); c.seed = ad({2, 3}, d); }
  if (fn == F_FLAT) { std::vector<int64_t> d(6); for (size_t i = 0; i < 6; ++i) d[i] = sym_int(nm("s", i).c_str(), 0, 2); c.seed = ai({2, 3}, d); }
  return c;
}
static Out snap(const std::vector<py::object>& a) { Out o; o.exc = 0; for (auto& x : a) take(o, x); return o; }
static void scribble(const py::object& v) { if (v.ptr()->kind == py::K_ARRAY) { py::PyArray* a = static_cast<py::PyArray*>(v.ptr()); if (a->count() > 0) { std::vector<ssize_t> ix(a->shape.size(), 0); int64_t x = 5; do py::pbm_castcopy(a->dt, py::pbm_at(a, ix), py::D_I64, (const char*)&x); while (py::pbm_next(ix, a->shape)); } } else if (v.ptr()->kind == py::K_LIST) for (size_t i = 0; i < count_of(v); ++i) scribble(item(v, i)); }
// failing calls of every entry point: before, during and after the main work
static void failing() {
  pycall("qis", {pylist({vec1({0}), vec1({1})}), pylist({vec1({2, 1}), vec1({1, 1})})}); pycall("qis", {pylist({vec1({0}), vec1({2})}), pylist({vec1({2, 1}), vec1({1, 2})})});
  { auto m = arr<int64_t>({2, 2}, {0, 2, 2, 0}), n = arr<int64_t>({2, 2}, {2, 0, 0, 2}); pycall("qis", {pylist({vec1({0, 1}), vec1({1, 2}), vec1({2, 0})}), pylist({m, m, m})}); pycall("qis", {pylist({vec1({0, 1}), vec1({0, 2}), vec1({1, 2, 0})}), pylist({m, n, arr<int64_t>({2, 2, 2}, {1, 0, 0, 1, 0, 1, 1, 0})})}); }
  pycall("qisi", {arr<double>({2, 2}, {0, 0, 0, 0}), pylist({vec1({0}), vec1({1})}), pylist({vec1({2, 1}), vec1({1, 2})})}); pycall("qisi", {arr<double>({2, 2}, {1, 2, 3, -1}), pylist({vec1({0}), vec1({1})}), pylist({vec1({2, 1}), vec1({1, 2})})}); pycall("qisi", {arr<double>({2, 2}, {1, 0, 0, 1}), pylist({vec1({0}), vec1({1})}), pylist({vec1({3, 0}), vec1({1, 2})})});
  pycall("ipf", {arr<double>({2, 2}, {1, 2, 3, -1}), pylist({vec1({0}), vec1({1})}), pylist({arr<double>({2}, {2, 1}), arr<double>({2}, {1, 2})})}); pycall("ipf", {arr<double>({2, 3}, {1, 2, 3, 1, 1, 1}), pylist({vec1({0}), vec1({1})}), pylist({arr<double>({2}, {2, 1}), arr<double>({2}, {1, 2})})});
  pycall("integerise", {arr<double>({3}, {-0.5, 0.25, 0.25}), pyint(5)}); pycall("integerise", {arr<double>({3}, {0.5, 0.25, 0.25}), pyint(-5)}); pycall("integerise", {arr<double>({2, 2}, {0.5, 0.5, 0.5, 0.25})}); pycall("flatten", {arr<int64_t>({2, 2}, {1, 0, -2, 1})}); pynew("SobolSequence", {pyint(0)}); pynew("SobolSequence", {pyint(1112)});
}
// the call alone, in a fresh process
struct Alone { const Call* c; bool integral; int exc; uint32_t ns, ni, nd; int64_t v[600]; double d[200]; };
static void alone(void* q) {
  Alone& a = *(Alone*)q; Out o; { auto g = args(*a.c, 0, 0, a.integral); PyRes r = go(*a.c, g); o = out(r); }
  a.exc = o.exc; a.ns = a.ni = a.nd = 0; uint32_t k = 0; for (auto& s : o.sh) { a.v[k++] = s.size(); for (auto x : s) a.v[k++] = x; } a.ns = k; for (auto x : o.iv) a.v[k++] = x; a.ni = k; for (auto x : o.dv) a.d[a.nd++] = x;
}
static Out unpack(const Alone& a) { Out o; o.exc = a.exc; uint32_t k = 0; while (k < a.ns) { Shape s; for (int64_t n = a.v[k++]; n > 0; --n) s.push_back(a.v[k++]); o.sh.push_back(s); } for (; k < a.ni; ++k) o.iv.push_back(a.v[k]); for (uint32_t i = 0; i < a.nd; ++i) o.dv.push_back(a.d[i]); return o; }
// some other problem: every shape of the list, by every function that takes marginals
static void other(int fn, int si) {
  const Scen& s = scens()[si]; std::vector<int64_t> cell(nel(s.sizes)); for (size_t i = 0; i < cell.size(); ++i) cell[i] = i * 3 % 4 == 3 ? 2 : i % 5 == 0;
  std::vector<py::object> m; for (auto& ix : s.idx) { Shape os; auto v = ref_reduce(cell, s.sizes, ix, &os); if (fn == F_IPF) { std::vector<double> d; for (auto x : v) d.push_back((double)x); m.push_back(arr<double>(os, d)); } else m.push_back(arr<int64_t>(os, v)); }
  std::vector<py::object> a; if (fn != F_QIS) { std::vector<double> d; for (size_t i = 0; i < cell.size(); ++i) d.push_back(0.25 * (1 + (i * 5 + 3) % 9)); a.push_back(arr<double>(s.sizes, d)); } a.push_back(ilist(s)); a.push_back(pylist(m)); pycall(FN[fn], a);
}
static void after_others() {
  int fn = sym_choice("fn", 6); bool integral = sym_choice("integral", 2); Call c = make(fn, integral); pyinit(); Alone al; al.c = &c; al.integral = integral; sym_isolated(alone, &al, sizeof al); Out o0 = unpack(al);
  int of = sym_choice("otherfn", 3), os = sym_param("few", 0) ? (int[]){0, 5, 8, 25}[sym_choice("otherscen", 4)] : sym_choice("otherscen", 26); other(of, os);
  Out o1; { auto a = args(c, 0, 0, integral); o1 = out(go(c, a)); } sym_assert(same(o0, o1), "a call after another call gives the result it gives in a fresh process"); sym_cover(o0.exc ? "raised" : "returned");
  for (auto x : o1.iv) sym_obs_i("i", x);
}
extern "C" void sym_main() {
  if (sym_param("alone", 0)) { after_others(); return; }
  int fn = sym_choice("fn", 6); int64_t what = sym_param("what", 14); bool integral = sym_choice("integral", 2);
  Call c = make(fn, integral); auto a0 = args(c, 0, 0, integral); Out before = snap(a0);
  PyRes r0 = go(c, a0); Out o0 = out(r0); if (o0.exc) sym_cover("raised"); else sym_cover("returned");
  if (what == 14) {
    bool unit = sym_param("unit", 0); int var = unit ? sym_choice("uvar", 2) * 8 : sym_choice("var", 8), ivar = c.has_lists ? sym_choice("ivar", unit ? 4 : 3) : 0; static const int IV[] = {0, 2, 5, 8};
    Out o1 = out(go(c, args(c, var, IV[ivar] == 0 && var == 7 ? 7 : IV[ivar], integral))); sym_assert(same(o0, o1), "equal inputs in another layout, type or container give the same result");
    if (r0.ok()) for (auto x : o0.iv) sym_obs_i("i", x);
  } else {
    sym_assert(same(before, snap(a0)), "arguments are not modified");
    Out o1 = out(go(c, a0)); sym_assert(same(o0, o1), "repeating a call gives the same result");
    int mid = sym_param("fails", 0) ? 4 : sym_choice("mid", 4);
    if (mid == 0) { Call d = c; if (d.has_lists) d.mar[0] = ai({1}, {7}); else d.seed = ai({1, 1}, {-1}); PyRes x = go(d, args(d, 0, 0, true)); (void)x; } // a failing (or different) call
    if (mid == 1) { pycall("qis", {pylist({vec1({0}), vec1({1})}), pylist({vec1({2, 1}), vec1({1, 2})})}); pycall("flatten", {arr<int64_t>({2, 2}, {1, 0, 2, 1})}); }
    if (mid == 2) { pycall("qisi", {arr<double>({2, 2}, {1, 2, 3, 1}), pylist({vec1({0}), vec1({1})}), pylist({vec1({2, 1}), vec1({1, 2})}), pyint(3)}); pycall("integerise", {arr<double>({3}, {0.5, 0.25, 0.25}), pyint(5)}); }
    if (mid == 3) { pycall("ipf", {arr<double>({2, 2}, {1, 2, 3, 1}), pylist({vec1({0}), vec1({1})}), pylist({arr<double>({2}, {2, 1}), arr<double>({2}, {1, 2})})}); pycall("integerise", {arr<double>({2, 2}, {0.5, 0.5, 0.5, 0.5})}); auto g = pynew("SobolSequence", {pyint(3)}); pymeth(g.v, "__next__"); }
    if (mid == 4) for (int rep = 0; rep < 3; ++rep) failing();
    sym_assert(same(o0, out(r0)), "earlier results are not altered by later calls");
    Out o2 = out(go(c, args(c, 0, 0, integral))); sym_assert(same(o0, o2), "a call repeated after other calls gives the same result");
    sym_assert(same(before, snap(a0)), "arguments are still unmodified");
    for (auto& x : a0) scribble(x);
    sym_assert(same(o0, out(r0)), "results do not share memory with the arguments");
  }
}
