// qis with large marginals: the first draws, whatever quasirandom values are drawn, never fail when the marginals are independent
// WRAP: _ZN5Sobol3bufEv
#include "scen.h"
#include "nostats.h"
static size_t g_dim; static int g_draws, g_max;
static const std::vector<uint32_t>& draw() { if (g_draws++ == g_max) { sym_cover("drawn"); sym_cut("the first draws only"); } static std::vector<uint32_t> v; v.resize(g_dim); for (size_t d = 0; d < g_dim; ++d) v[d] = sym_u32(nm("v", d).c_str()); return v; }
const std::vector<uint32_t>& hx_buf(void*) asm("override._ZN5Sobol3bufEv");
const std::vector<uint32_t>& hx_buf(void*) { return draw(); }
extern "C" const std::vector<uint32_t>& __wrap__ZN5Sobol3bufEv(void*) { return draw(); }
static const int64_t M24 = 1 << 24, M31 = 1ll << 31;
static const std::vector<std::vector<int64_t>> PAT = {{M24, 1, 1, 1}, {1, M24, 1, 1}, {1, 1, M24 + 1, 1}, {M31, 1, 1, 3}, {1, 1, 1, M31}, {M31 - 1, M31 - 5, 1, 1}, {1000003, 999983, 0, 77777}, {0, 3, M31 + 7, 0}, {M31, 0, 0, 0}, {65536, 65535, 65537, 1}, {0, 4294967295ll, 0, 0}, {1431655765, 1431655765, 1431655765, 0}, {1ll << 32, 1, 1, 2}, {1ll << 40, 3, 1, (1ll << 33) + 5}}; // the last two: integerise only
static const std::vector<Scen> SC = {{{{0}, {1}}, {4, 4}}, {{{0, 1}, {2}}, {2, 2, 4}}, {{{2, 0}, {1}}, {2, 4, 2}}, {{{1}, {0}}, {4, 4}}};
// what comes back before an individual per unit of the total has been drawn does not have the total's individuals
static void total(PyRes& r, int64_t t, bool pop) {
  if (!r.ok()) return; auto v = vals_of<int64_t>(item(r.v, 0)); int64_t n = 0; for (auto x : v) n += x; sym_assert(n == t, "the result has as many individuals as the marginals");
  if (pop) { bool has = has_key(item(r.v, 1), "pop"); sym_assert(has && as_int(key(item(r.v, 1), "pop")) == t, "the population reported is the total of the marginals"); }
}
extern "C" void sym_main() {
  int fn = sym_choice("fn", 3); const auto& a = PAT[sym_choice("pattern", PAT.size() - (fn == 2 ? 0 : 2))]; g_max = (int)sym_param("draws", 2); int64_t t = 0; for (auto x : a) t += x;
  if (fn == 2) { g_dim = 2; static const int W[] = {0, 1, 2, 3}; std::vector<double> d; for (int k = 0; k < 4; ++k) d.push_back((double)a[W[k]]); PyRes r = pycall("integerise", {arr<double>({2, 2}, d)}); sym_assert(r.ok() || g_draws, "an array of whole numbers is not rejected"); total(r, t, false); return; }
  const Scen& s = SC[sym_choice("shape", SC.size())]; g_dim = s.sizes.size();
  int form = sym_choice("other", 3); std::vector<int64_t> b(4); if (form == 0) b = {1, t - 2, 0, 1}; else if (form == 1) b = {t / 4, t / 4, t / 4, t - 3 * (t / 4)}; else b = {0, 0, t - 1, 1};
  std::vector<py::object> m; std::vector<Shape> sh; for (auto& ix : s.idx) { Shape z; for (auto d : ix) z.push_back(s.sizes[d]); sh.push_back(z); } m.push_back(arr<int64_t>(sh[0], a)); m.push_back(arr<int64_t>(sh[1], b));
  std::vector<py::object> args = {ilist(s), pylist(m)}; if (fn) { std::vector<double> sd(nel(s.sizes)); for (size_t i = 0; i < sd.size(); ++i) sd[i] = 1 + (i * 7 % 5) * 0.25; args.insert(args.begin(), arr<double>(s.sizes, sd)); }
  PyRes r = pycall(fn ? "qisi" : "qis", args); if (fn == 0) sym_assert(r.ok(), "independent marginals never fail"); total(r, t, true);
}
