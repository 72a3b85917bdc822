// What an R caller does: builds column-major arrays and lists, calls the registered routines, looks at results.
#pragma once
#include "scen.h"
#include <Rcpp.h>
extern "C" { SEXP _humanleague_ipf(SEXP, SEXP, SEXP); SEXP _humanleague_qis(SEXP, SEXP, SEXP); SEXP _humanleague_qisi(SEXP, SEXP, SEXP, SEXP); SEXP _humanleague_integerise(SEXP); SEXP _humanleague_prob2IntFreq(SEXP, SEXP); SEXP _humanleague_sobolSequence(SEXP, SEXP, SEXP); SEXP _humanleague_flatten(SEXP, SEXP); }
struct RRes { bool raised = false, odd = false; SEXP v = nullptr; bool ok() const { return !raised; } };
template <class F> RRes rguard(F f) { RRes r; try { r.v = f(); } catch (RError&) { r.raised = true; } catch (...) { r.raised = r.odd = true; } return r; }
// position in column-major order of the k-th element in row-major order
inline size_t colmajor(size_t k, const Shape& s) { auto ix = unflat(k, s); size_t r = 0; for (size_t d = s.size(); d-- > 0;) r = r * s[d] + ix[d]; return r; }
inline SEXP rdim(const Shape& s) { SEXP d = new SEXPREC(INTSXP, s.size()); for (size_t i = 0; i < s.size(); ++i) d->iv[i] = (int)s[i]; return d; }
inline SEXP rint_array(const Shape& s, const std::vector<int64_t>& v, bool nodim = false) { SEXP a = new SEXPREC(INTSXP, v.size()); for (size_t i = 0; i < v.size(); ++i) a->iv[colmajor(i, s)] = (int)v[i]; if (!nodim) a->at["dim"] = rdim(s); return a; }
inline SEXP rnum_array(const Shape& s, const std::vector<double>& v, bool nodim = false) { SEXP a = new SEXPREC(REALSXP, v.size()); for (size_t i = 0; i < v.size(); ++i) a->dv[colmajor(i, s)] = v[i]; if (!nodim) a->at["dim"] = rdim(s); return a; }
inline SEXP rints(const std::vector<int64_t>& v) { return rint_array({(ssize_t)v.size()}, v, true); }
inline SEXP rnums(const std::vector<double>& v) { return rnum_array({(ssize_t)v.size()}, v, true); }
inline SEXP rlist(const std::vector<SEXP>& v) { SEXP l = new SEXPREC(VECSXP, v.size()); l->lv = v; return l; }
inline SEXP rstrs(const std::vector<std::string>& v) { SEXP l = new SEXPREC(STRSXP, v.size()); l->sv = v; return l; }
inline SEXP rget(SEXP l, const char* k) { if (l->type != VECSXP || !l->at.count("names")) return nullptr; SEXP n = l->at["names"]; for (R_xlen_t i = 0; i < n->n; ++i) if (n->sv[i] == k) return l->lv[i]; return nullptr; }
inline Shape rshape(SEXP a) { Shape s; if (a->at.count("dim")) { SEXP d = a->at["dim"]; for (R_xlen_t i = 0; i < d->n; ++i) s.push_back(d->iv[i]); } else s.push_back(a->n); return s; }
// row-major values
inline std::vector<int64_t> rivals(SEXP a, const Shape& s) { std::vector<int64_t> r(a->n); for (R_xlen_t i = 0; i < a->n; ++i) { size_t c = colmajor(i, s); r[i] = a->type == REALSXP ? (int64_t)a->dv[c] : (int64_t)a->iv[c]; } return r; }
inline std::vector<double> rdvals(SEXP a, const Shape& s) { std::vector<double> r(a->n); for (R_xlen_t i = 0; i < a->n; ++i) { size_t c = colmajor(i, s); r[i] = a->type == REALSXP ? a->dv[c] : (double)a->iv[c]; } return r; }
inline double rnum(SEXP a) { return a->type == REALSXP ? a->dv[0] : (double)a->iv[0]; }
inline int64_t rint1(SEXP a) { return a->type == REALSXP ? (int64_t)a->dv[0] : (int64_t)a->iv[0]; }
inline SEXP rindices(const Scen& s) { std::vector<SEXP> v; for (auto& i : s.idx) { std::vector<int64_t> w(i); for (auto& x : w) ++x; v.push_back(rints(w)); } return rlist(v); }
inline bool rsame(SEXP a, SEXP b) { if (a->type != b->type || a->n != b->n) return false; int ok = 1; for (R_xlen_t i = 0; i < a->n; ++i) { if (a->type == REALSXP) ok = sym_and(ok, a->dv[i] == b->dv[i]); else if (a->type == INTSXP || a->type == LGLSXP) ok = sym_and(ok, a->iv[i] == b->iv[i]); else if (a->type == VECSXP && !rsame(a->lv[i], b->lv[i])) return false; } return ok; }
inline SEXP rcopy(SEXP a) { SEXP r = new SEXPREC(a->type, a->n); r->at = a->at; for (R_xlen_t i = 0; i < a->n; ++i) { if (a->type == REALSXP) r->dv[i] = a->dv[i]; else if (a->type == INTSXP || a->type == LGLSXP) r->iv[i] = a->iv[i]; else if (a->type == STRSXP) r->sv[i] = a->sv[i]; else if (a->type == VECSXP) r->lv[i] = rcopy(a->lv[i]); } return r; }
