// qis, qisi and ipf reject exactly the problems that are not consistent (values of the marginals symbolic)
// WRAP: _ZN3QIS5solveEb
// WRAP: _ZN4QISI5solveERK7NDArrayIdEb
#include "scen.h"
#include "nostats.h"
// reaching the solution phase counts as acceptance and ends the call (in the replay, for ipf, the solution is computed)
static bool g_accepted; struct Accepted {};
void hx_s1(void*, bool) asm("override._ZN3QIS5solveEb"); void hx_s1(void*, bool) { g_accepted = true; throw Accepted(); }
void hx_s2(void*, void*, bool) asm("override._ZN4QISI5solveERK7NDArrayIdEb"); void hx_s2(void*, void*, bool) { g_accepted = true; throw Accepted(); }
void hx_s3(void*, void*) asm("override._ZN3IPFIdE5solveERK7NDArrayIdE"); void hx_s3(void*, void*) { g_accepted = true; throw Accepted(); }
extern "C" void* __wrap__ZN3QIS5solveEb(void*, bool) { g_accepted = true; throw Accepted(); }
extern "C" void* __wrap__ZN4QISI5solveERK7NDArrayIdEb(void*, void*, bool) { g_accepted = true; throw Accepted(); }
static const char* FN[] = {"qis", "qisi", "ipf"};
extern "C" void sym_main() {
  int fn = sym_choice("fn", 3), si = sym_choice("scen", scens().size());
  int64_t lo = sym_param("lo", -1), hi = sym_param("hi", 2), phi = sym_param("phi", 3), q = sym_param("quarters", 0) ? 4 : 1; // ipf: values in quarters
  int bad = fn == 2 ? sym_choice("bad", 4) : 0; const double BAD[] = {0, 0.0 / 0.0, 1.0 / 0.0, -1.0 / 0.0};
  Prob p = make_problem(si, 0, hi * q, false, lo * q); const Scen& s = *p.s;
  std::vector<int64_t> tot; int ok = 1;
  for (auto& v : p.m) { int64_t t = 0; for (auto x : v) { t += x; ok = sym_and(ok, x >= 0); } tot.push_back(t); }
  for (size_t k = 1; k < tot.size(); ++k) ok = sym_and(ok, q == 1 ? tot[k] == tot[0] : (tot[k] + q / 2 + 100 * q) / q == (tot[0] + q / 2 + 100 * q) / q);
  sym_assume(sym_and(tot[0] <= phi * q, tot[0] >= sym_param("tlo", 0)));
  for (size_t d = 0; d < s.sizes.size(); ++d) { std::vector<int64_t> ref; bool have = false;
    for (size_t k = 0; k < s.idx.size(); ++k) for (size_t j = 0; j < s.idx[k].size(); ++j) if (s.idx[k][j] == (int64_t)d) { auto r = ref_reduce(p.m[k], p.msh[k], {(int64_t)j}); if (!have) { ref = r; have = true; } else for (size_t i = 0; i < r.size(); ++i) ok = sym_and(ok, r[i] == ref[i]); } }
  std::vector<py::object> ml; for (size_t k = 0; k < p.m.size(); ++k) { if (fn == 2) { std::vector<double> dv; for (auto x : p.m[k]) dv.push_back((double)x / q); if (bad && k + 1 == p.m.size()) { dv[dv.size() / 2] = BAD[bad]; ok = 0; } ml.push_back(arr<double>(p.msh[k], dv)); } else ml.push_back(arr<int64_t>(p.msh[k], p.m[k])); }
  std::vector<py::object> a; if (fn) a.push_back(arr<double>(s.sizes, std::vector<double>(nel(s.sizes), 1.0)));
  a.push_back(ilist(s)); a.push_back(pylist(ml));
  PyRes r = pycall(FN[fn], a);
  if (r.ok() || g_accepted) { sym_cover("accepted"); sym_assert(ok, "an inconsistent problem is rejected"); }
  else { sym_cover("rejected"); sym_assert(sym_not(ok), "a consistent problem is accepted"); }
}
