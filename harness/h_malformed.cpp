// Arguments of the accepted types, however malformed, work or raise: nothing is read or written outside its array, nothing hangs
#include "scen.h"
#include <limits>
static const Shape SH[] = {{}, {0}, {1}, {2}, {3}, {0, 2}, {2, 0}, {1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}, {1, 2, 1}, {2, 2, 2}, {0, 0}, {1, 1, 1, 2}};
static const int NSH = sizeof(SH) / sizeof(SH[0]);
static const double DV[] = {0.0, 1.0, -1.0, 0.5, 5e-324, 1e-300, 1e300, 1.7976931348623157e308, 1.0 / 0.0, -1.0 / 0.0, 0.0 / 0.0, 9.3e18, 4294967296.0, 1.0000000001};
static const int NDV = sizeof(DV) / sizeof(DV[0]);
static const int64_t IVAL[] = {0, 1, 2, -1, INT64_MAX, INT64_MIN, 1ll << 62, 4294967296ll};
static const char* FN[] = {"qis", "qisi", "ipf"};
static py::object uni(bool dbl, const Shape& s, int64_t tot) { size_t n = nel(s); if (dbl) return arr<double>(s, std::vector<double>(n, n ? (double)tot / n : 0)); return arr<int64_t>(s, std::vector<int64_t>(n, n ? tot / (int64_t)n : 0)); }
static void done(const PyRes& r) { if (r.ok()) sym_cover("returned"); else sym_cover("raised"); }
extern "C" void sym_main() {
  int64_t part = sym_param("part", 0);
  if (part == 0) { // marginals of any shape with any indices: qis, qisi, ipf
    int fn = sym_choice("fn", 3), a = sym_choice("m0", NSH), b = sym_choice("m1", NSH); int64_t tot = sym_choice("tot", 2) * 12, lo = sym_param("lo", -1), hi = sym_param("hi", 2);
    std::vector<py::object> il, ml; size_t tl = 0;
    for (int k = 0; k < 2; ++k) { const Shape& s = SH[k ? b : a]; std::vector<int64_t> ix; for (size_t j = 0; j < s.size(); ++j) { int64_t d = (int64_t)(tl + j); if (s.size() <= 2) d = sym_int((std::string("i") + (char)(48 + k) + (char)(48 + j)).c_str(), lo, hi); ix.push_back(d); } tl += s.size(); il.push_back(vec1(ix)); ml.push_back(uni(fn == 2, s, tot)); }
    std::vector<py::object> args; if (fn) { int sd = sym_choice("seed", (int)sym_param("nseed", 4)); static const Shape SS[] = {{2, 2}, {2, 3}, {}, {1, 2, 2}}; args.push_back(arr<double>(SS[sd], std::vector<double>(nel(SS[sd]), 1.0))); }
    args.push_back(pylist(il)); args.push_back(pylist(ml)); done(pycall(FN[fn], args));
  }
  if (part == 1) { // index arrays of any shape and value; lists that are empty or short
    int fn = sym_choice("fn", 3), sh = sym_choice("ish", NSH), ls = sym_choice("lists", 4); int64_t v = IVAL[sym_choice("v", 8)];
    const Shape& s = SH[sh]; py::object ia = arr<int64_t>(s, std::vector<int64_t>(nel(s), v));
    std::vector<py::object> il = {ia, vec1({1})}, ml = {uni(fn == 2, {2}, 12), uni(fn == 2, {2}, 12)}; if (ls == 1) il.clear(); if (ls == 2) { il.pop_back(); ml.pop_back(); } if (ls == 3) { il.clear(); ml.clear(); }
    std::vector<py::object> args; if (fn) args.push_back(arr<double>({2, 2}, {1, 1, 1, 1})); args.push_back(pylist(il)); args.push_back(pylist(ml)); int64_t sk = sym_choice("skips", 5); static const int64_t SK[] = {0, -1, INT64_MIN, INT64_MAX, 1ll << 32}; if (sk && fn < 2) args.push_back(pyint(SK[sk])); done(pycall(FN[fn], args));
  }
  if (part == 2) { // extreme values in seed and marginals: ipf; seed only: qisi
    int fn = 1 + sym_choice("fn", 2); double x = DV[sym_choice("x", NDV)], y = DV[sym_choice("y", NDV)]; int cover = sym_choice("cover", 2);
    py::object seed = arr<double>({2, 2}, {x, 1, 1, y}); std::vector<py::object> il, ml; double z = fn == 2 ? DV[sym_choice("z", NDV)] : 1;
    if (cover) { il = {vec1({0, 1}), vec1({1})}; if (fn == 2) ml = {arr<double>({2, 2}, {z, 0, 0, z}), arr<double>({2}, {z, z})}; else ml = {arr<int64_t>({2, 2}, {1, 0, 2, 1}), vec1({3, 1})}; }
    else { il = {vec1({0}), vec1({1})}; if (fn == 2) ml = {arr<double>({2}, {z, 1}), arr<double>({2}, {1, z})}; else ml = {vec1({3, 1}), vec1({2, 2})}; }
    done(pycall(FN[fn], {seed, pylist(il), pylist(ml)}));
  }
  if (part == 6) { // index arrays longer or shorter than the marginal has dimensions
    static const Shape MS[] = {{2}, {2, 2}, {2, 3}, {1, 2, 1}}, SS[] = {{2, 2}, {2, 2, 2}, {2, 2, 2, 2}}; int fn = sym_choice("fn", 3), a = sym_choice("m0", 4), b = sym_choice("m1", 2), first = sym_choice("first", 2); int64_t hi = sym_param("hi", 3);
    std::vector<int64_t> i0, i1; size_t n0 = sym_choice("n0", 5), n1 = MS[b].size(); for (size_t j = 0; j < n0; ++j) i0.push_back(sym_int((std::string("i") + (char)(48 + j)).c_str(), 0, hi)); for (size_t j = 0; j < n1; ++j) i1.push_back(sym_int((std::string("j") + (char)(48 + j)).c_str(), 0, hi));
    std::vector<py::object> il = {vec1(i0), vec1(i1)}, ml = {uni(fn == 2, MS[a], 12), uni(fn == 2, MS[b], 12)}; if (first) { std::swap(il[0], il[1]); std::swap(ml[0], ml[1]); }
    std::vector<py::object> args; if (fn) { const Shape& s = SS[sym_choice("seed", 3)]; args.push_back(arr<double>(s, std::vector<double>(nel(s), 1.0))); } args.push_back(pylist(il)); args.push_back(pylist(ml)); done(pycall(FN[fn], args));
  }
  if (part == 3) { // integerise, 1-d and n-d, and flatten
    int sh = sym_choice("shape", NSH), kind = sym_choice("kind", 3); const Shape& s = SH[sh]; size_t n = nel(s);
    if (kind == 0) { std::vector<double> v(n, 1.0); if (n) v[n - 1] = DV[sym_choice("x", NDV)]; if (n > 1) v[0] = DV[sym_choice("y", NDV)]; static const int64_t P[] = {0, 1, -1, 7, 2147483647, 2147483648ll, INT64_MIN}; done(pycall("integerise", {arr<double>(s, v), pyint(P[sym_choice("pop", 7)])})); }
    if (kind == 1) { std::vector<double> v(n, 1.0); if (n) v[n - 1] = DV[sym_choice("x", NDV)]; double t = 0; for (auto x : v) t += x; if (t > 1e6 && t < 1e19 && s.size() > 1) return; done(pycall("integerise", {arr<double>(s, v)})); } // a large total is merely slow
    if (kind == 2) { static const int64_t F[] = {0, 1, 2, -1, INT64_MIN, INT64_MAX}; std::vector<int64_t> v(n, 1); if (n) v[n - 1] = F[sym_choice("x", 6)]; if (n > 1) v[0] = F[sym_choice("y", 6)]; done(pycall("flatten", {arr<int64_t>(s, v)})); }
  }
  if (part == 4) { // SobolSequence
    static const int64_t D[] = {0, 1, 2, 3, 1111, 1112, -1, 1ll << 31, 1ll << 32, (1ll << 32) + 2, INT64_MAX}, S[] = {0, 1, 2, 3, 7, -1, 1ll << 32, INT64_MAX};
    int64_t d = D[sym_choice("dim", 11)], k = S[sym_choice("skips", 8)]; PyRes g = sym_choice("two", 2) ? pynew("SobolSequence", {pyint(d), pyint(k)}) : pynew("SobolSequence", {pyint(d)}); done(g);
    if (g.ok()) { PyRes x = pymeth(g.v, "__next__"); sym_assert(x.ok() && shape_of(x.v) == Shape{(ssize_t)d}, "an accepted dimension is generated"); pymeth(g.v, "__iter__"); } 
  }
  if (part == 5) { // extreme integer marginals that cannot be a population: qis, qisi
    int fn = sym_choice("fn", 2); int64_t x = IVAL[sym_choice("x", 8)], y = IVAL[sym_choice("y", 8)]; if ((x >= 0 && x > 100 && x == y)) return; // a consistent large population is merely slow
    std::vector<py::object> args; if (fn) args.push_back(arr<double>({2, 2}, {1, 1, 1, 1})); args.push_back(pylist({vec1({0}), vec1({1})})); args.push_back(pylist({vec1({x, 0}), vec1({0, y})})); done(pycall(FN[fn], args));
  }
}
