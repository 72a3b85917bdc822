// R qis, qisi and ipf: index lists of every kind, counted from 1
#include "rclient.h"
#include "nostats.h"
static const std::vector<std::vector<Shape>> SH = {{{2}, {2}}, {{2}, {3}}, {{2, 2}, {2}}, {{2, 3}, {3, 2}}, {{2}, {3}, {2}}, {{2, 2, 3}, {3}}, {{3}}, {{2, 2}}};
extern "C" void sym_main() {
  int fn = sym_choice("fn", 3), sh = sym_choice("sh", SH.size()), len = sym_choice("len", 4); int64_t lo = sym_param("lo", 0), hi = sym_param("hi", 4); auto shp = SH[sh]; std::vector<std::vector<int64_t>> idx(shp.size());
  for (size_t k = 0; k < shp.size(); ++k) { size_t n = shp[k].size(); if (len == 1 && k == 0) ++n; if (len == 2 && k + 1 == shp.size()) n = n > 1 ? n - 1 : 2; for (size_t j = 0; j < n; ++j) idx[k].push_back(sym_value(sym_int((std::string("i") + (char)('0' + k) + (char)('0' + j)).c_str(), lo, hi))); }
  if (len == 3) { if (sym_choice("fewer", 2)) idx.pop_back(); else shp.pop_back(); }
  bool ok = idx.size() == shp.size() && shp.size() >= 2; std::map<int64_t, int64_t> size;
  if (ok) for (size_t k = 0; k < shp.size(); ++k) { if (idx[k].size() != shp[k].size()) { ok = false; continue; } for (size_t j = 0; j < idx[k].size(); ++j) { for (size_t l = 0; l < j; ++l) if (idx[k][l] == idx[k][j]) ok = false; auto it = size.find(idx[k][j]); if (it == size.end()) size[idx[k][j]] = shp[k][j]; else if (it->second != shp[k][j]) ok = false; } }
  if (ok && size.size() < 2) ok = false; if (ok) for (size_t d = 1; d <= size.size(); ++d) if (!size.count(d)) ok = false;
  Shape full; if (ok) for (auto& e : size) full.push_back(e.second); else full = {2, 3};
  int sd = 0; if (fn && ok) { sd = sym_choice("seed", 6); Shape f = full; switch (sd) { case 1: f.push_back(1); break; case 2: f.pop_back(); break; case 3: std::swap(f.front(), f.back()); break; case 4: f.back() += 1; break; case 5: f.insert(f.begin(), 1); break; } if (sd == 3 && f == full) sd = 0; full = f; if (sd) ok = false; }
  std::vector<SEXP> il, ml; for (auto& i : idx) il.push_back(rints(i)); for (auto& s : shp) { bool nd = s.size() == 1; if (fn == 2) ml.push_back(rnum_array(s, std::vector<double>(nel(s), 12.0 / nel(s)), nd)); else ml.push_back(rint_array(s, std::vector<int64_t>(nel(s), 12 / nel(s)), nd)); }
  SEXP S = rnum_array(full, std::vector<double>(nel(full), 1.0)), I = rlist(il), M = rlist(ml), K = rints({0}); RRes r = rguard([&] { return fn == 0 ? _humanleague_qis(I, M, K) : fn == 1 ? _humanleague_qisi(S, I, M, K) : _humanleague_ipf(S, I, M); }); sym_assert(!r.odd, "errors are reported as R errors");
  if (r.ok()) { sym_cover("accepted"); sym_assert(ok, "a problem that does not fit together is rejected"); SEXP res = rget(r.v, "result"); sym_assert(!ok || (res && rshape(res) == full) || fn == 0, "the result has the problem's shape"); } else { sym_cover("rejected"); sym_assert(!ok, "a problem that fits together is accepted"); }
}
