// qis, qisi and ipf reject exactly the problems whose lists, dimensions, sizes or seed do not fit together (indices symbolic)
#include "scen.h"
#include "nostats.h"
static const char* FN[] = {"qis", "qisi", "ipf"};
// every array sums to 12 and is uniform, so that values are consistent whenever the structure is
static const std::vector<std::vector<Shape>> SH = {
  {{2}, {2}}, {{2}, {3}}, {{2, 2}, {2}}, {{2, 3}, {2, 3}}, {{2, 3}, {3, 2}}, {{2}, {3}, {2}}, {{2, 2}, {3}, {2}}, {{2, 3}, {3, 2}, {2}}, {{1}, {2, 2}}, {{2, 2, 3}, {3}}, {{3}}, {{2, 2}},
};
extern "C" void sym_main() {
  int fn = sym_choice("fn", 3), sh = sym_choice("sh", SH.size()); int len = sym_choice("len", 4); // 0: as fits, 1: first index one too long, 2: last index one too short or long, 3: one index fewer
  int64_t lo = sym_param("lo", -1), hi = sym_param("hi", 3); auto shp = SH[sh];
  std::vector<std::vector<int64_t>> idx(shp.size());
  for (size_t k = 0; k < shp.size(); ++k) { size_t n = shp[k].size(); if (len == 1 && k == 0) ++n; if (len == 2 && k + 1 == shp.size()) n = n > 1 ? n - 1 : 2; for (size_t j = 0; j < n; ++j) idx[k].push_back(sym_value(sym_int((std::string("i") + (char)('0' + k) + (char)('0' + j)).c_str(), lo, hi))); }
  if (len == 3) { if (sym_choice("fewer", 2)) idx.pop_back(); else shp.pop_back(); }
  // the definition
  bool ok = idx.size() == shp.size() && shp.size() >= 2; std::map<int64_t, int64_t> size;
  if (ok) for (size_t k = 0; k < shp.size(); ++k) { if (idx[k].size() != shp[k].size()) { ok = false; continue; }
    for (size_t j = 0; j < idx[k].size(); ++j) { for (size_t l = 0; l < j; ++l) if (idx[k][l] == idx[k][j]) ok = false; auto it = size.find(idx[k][j]); if (it == size.end()) size[idx[k][j]] = shp[k][j]; else if (it->second != shp[k][j]) ok = false; } }
  if (ok && size.size() < 2) ok = false;
  if (ok) for (size_t d = 0; d < size.size(); ++d) if (!size.count(d)) ok = false;
  Shape full; if (ok) for (auto& e : size) full.push_back(e.second); else full = {2, 3};
  int sd = 0; if (fn && ok) { sd = sym_choice("seed", 6); Shape f = full;
    switch (sd) { case 1: f.push_back(1); break; case 2: f.pop_back(); break; case 3: std::swap(f.front(), f.back()); break; case 4: f.back() += 1; break; case 5: f.insert(f.begin(), 1); break; }
    if (sd == 3 && f == full) sd = 0; full = f; if (sd) ok = false; }
  std::vector<py::object> il, ml; for (auto& i : idx) il.push_back(vec1(i));
  for (auto& s : shp) { if (fn == 2) ml.push_back(arr<double>(s, std::vector<double>(nel(s), 12.0 / nel(s)))); else ml.push_back(arr<int64_t>(s, std::vector<int64_t>(nel(s), 12 / nel(s)))); }
  std::vector<py::object> a; if (fn) a.push_back(arr<double>(full, std::vector<double>(nel(full), 1.0)));
  a.push_back(pylist(il)); a.push_back(pylist(ml));
  PyRes r = pycall(FN[fn], a);
  if (r.ok()) { sym_cover("accepted"); sym_assert(ok, "a problem that does not fit together is rejected"); } else { sym_cover("rejected"); sym_assert(!ok, "a problem that fits together is accepted"); }
}
