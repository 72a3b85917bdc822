// Executable model of the part of Rcpp (and of R's vectors) that an R layer uses: vectors with attributes, shared between
// the R side and C++ when the type matches and coerced (with attributes) when it does not, lists, dimensions, data frames.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <numeric>
#include <functional>
#include <iterator>
#include <limits>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <iostream>
#include <climits>
typedef ptrdiff_t R_xlen_t; typedef int R_len_t; typedef unsigned char Rbyte;
#define NA_INTEGER INT_MIN
#define NA_LOGICAL INT_MIN
#define R_PosInf (1.0 / 0.0)
#define R_NegInf (-1.0 / 0.0)
#define R_NaN (0.0 / 0.0)
#define NA_REAL (0.0 / 0.0)
enum SEXPTYPE_ { NILSXP = 0, LGLSXP = 10, INTSXP = 13, REALSXP = 14, STRSXP = 16, VECSXP = 19 };
struct SEXPREC {
  int type; R_xlen_t n; int* iv = nullptr; double* dv = nullptr; std::vector<std::string> sv; std::vector<SEXPREC*> lv; std::map<std::string, SEXPREC*> at;
  SEXPREC(int t, R_xlen_t k) : type(t), n(k) {
    if (k < 0) throw std::length_error("negative length vectors are not allowed");
    if (t == INTSXP || t == LGLSXP) { iv = new int[k]; for (R_xlen_t i = 0; i < k; ++i) iv[i] = 0; } else if (t == REALSXP) { dv = new double[k]; for (R_xlen_t i = 0; i < k; ++i) dv[i] = 0; } else if (t == STRSXP) sv.resize(k); else if (t == VECSXP) lv.resize(k);
  }
};
typedef SEXPREC* SEXP; // (nothing is collected: objects live until the run ends)
inline SEXP rm_nil() { static SEXPREC* n = new SEXPREC(NILSXP, 0); return n; }
#define R_NilValue rm_nil()
inline int TYPEOF(SEXP s) { return s->type; }
inline R_xlen_t Rf_xlength(SEXP s) { return s->n; }
inline R_len_t Rf_length(SEXP s) { return (R_len_t)s->n; }
inline bool Rf_isNull(SEXP s) { return s->type == NILSXP; }
inline int* INTEGER(SEXP s) { return s->iv; }
inline double* REAL(SEXP s) { return s->dv; }
inline double R_IsNA_(double x) { return x != x; }
#define ISNAN(x) std::isnan(x)
#define ISNA(x) std::isnan(x)
#define R_FINITE(x) std::isfinite(x)
struct RError { std::string what; };
extern bool rm_checkUserInterrupt;
#define R_DimSymbol "dim"
#define R_NamesSymbol "names"
inline SEXP Rf_getAttrib(SEXP s, const char* k) { auto i = s->at.find(k); return i == s->at.end() ? R_NilValue : i->second; }

namespace Rcpp {
class exception : public std::exception { std::string m; public: explicit exception(const char* s, bool = true) : m(s) {} explicit exception(const std::string& s) : m(s) {} const char* what() const noexcept override { return m.c_str(); } virtual ~exception() noexcept {} };
struct not_compatible : exception { explicit not_compatible(const std::string& s) : exception(s.c_str()) {} };
struct index_out_of_bounds : exception { explicit index_out_of_bounds(const std::string& s) : exception(s.c_str()) {} };
struct not_a_matrix : exception { not_a_matrix() : exception("not a matrix") {} };
template <class... A> [[noreturn]] void stop(const std::string& s, A&&...) { throw exception(s.c_str()); }
template <class... A> void warning(const std::string&, A&&...) {}
inline void checkUserInterrupt() {}
static std::ostream& Rcout = std::cout; static std::ostream& Rcerr = std::cerr;
struct RNGScope { RNGScope() {} ~RNGScope() {} };
template <int T> struct rm_store; template <> struct rm_store<INTSXP> { typedef int type; static int*& p(SEXP s) { return s->iv; } }; template <> struct rm_store<LGLSXP> : rm_store<INTSXP> {}; template <> struct rm_store<REALSXP> { typedef double type; static double*& p(SEXP s) { return s->dv; } };
inline int rm_toint(double x) { return x != x || x >= 2147483648.0 || x <= -2147483649.0 ? NA_INTEGER : (int)x; }
// as R's coerceVector: the object itself when the type matches, otherwise a copy that keeps the attributes
inline SEXP rm_coerce(SEXP s, int t) {
  if (s->type == t) return s;
  bool num = s->type == INTSXP || s->type == REALSXP || s->type == LGLSXP; if (!num || !(t == INTSXP || t == REALSXP || t == LGLSXP)) throw not_compatible("Not compatible with requested type");
  SEXP r = new SEXPREC(t, s->n); r->at = s->at; for (R_xlen_t i = 0; i < s->n; ++i) { if (t == REALSXP) r->dv[i] = s->iv[i] == NA_INTEGER ? NA_REAL : (double)s->iv[i]; else if (s->type == REALSXP) r->iv[i] = rm_toint(s->dv[i]); else r->iv[i] = s->iv[i]; } return r;
}
template <class T> struct rm_num { static T get(SEXP s, R_xlen_t i) { return s->type == REALSXP ? (T)s->dv[i] : (T)s->iv[i]; } };
template <> struct rm_num<int> { static int get(SEXP s, R_xlen_t i) { return s->type == REALSXP ? rm_toint(s->dv[i]) : s->iv[i]; } };
template <class T> struct rm_as { };
template <class T> T as(SEXP s);
// ---- wrap
inline SEXP wrap(SEXP s) { return s; }
inline SEXP rm_scalar(int t, double d, int i) { SEXP s = new SEXPREC(t, 1); if (t == REALSXP) s->dv[0] = d; else s->iv[0] = i; return s; }
inline SEXP wrap(bool b) { return rm_scalar(LGLSXP, 0, b); }
inline SEXP wrap(int v) { return rm_scalar(INTSXP, 0, v); }
inline SEXP wrap(unsigned v) { return rm_scalar(REALSXP, v, 0); }
inline SEXP wrap(long v) { return rm_scalar(REALSXP, (double)v, 0); }
inline SEXP wrap(unsigned long v) { return rm_scalar(REALSXP, (double)v, 0); }
inline SEXP wrap(long long v) { return rm_scalar(REALSXP, (double)v, 0); }
inline SEXP wrap(unsigned long long v) { return rm_scalar(REALSXP, (double)v, 0); }
inline SEXP wrap(double v) { return rm_scalar(REALSXP, v, 0); }
inline SEXP wrap(float v) { return rm_scalar(REALSXP, v, 0); }
inline SEXP wrap(const std::string& v) { SEXP s = new SEXPREC(STRSXP, 1); s->sv[0] = v; return s; }
inline SEXP wrap(const char* v) { return wrap(std::string(v)); }
template <class T> SEXP wrap(const std::vector<T>& v) {
  if constexpr (std::is_same<T, std::string>::value) { SEXP s = new SEXPREC(STRSXP, v.size()); s->sv = v; return s; }
  else if constexpr (std::is_same<T, bool>::value) { SEXP s = new SEXPREC(LGLSXP, v.size()); for (size_t i = 0; i < v.size(); ++i) s->iv[i] = v[i]; return s; }
  else if constexpr (std::is_same<T, int>::value || (std::is_integral<T>::value && sizeof(T) < 4)) { SEXP s = new SEXPREC(INTSXP, v.size()); for (size_t i = 0; i < v.size(); ++i) s->iv[i] = v[i]; return s; }
  else if constexpr (std::is_arithmetic<T>::value) { SEXP s = new SEXPREC(REALSXP, v.size()); for (size_t i = 0; i < v.size(); ++i) s->dv[i] = (double)v[i]; return s; }
  else { SEXP s = new SEXPREC(VECSXP, v.size()); for (size_t i = 0; i < v.size(); ++i) s->lv[i] = wrap(v[i]); return s; }
}
class RObject; class Dimension; template <int T> class Vector; class List_; class CharVector;
class AttrProxy {
  SEXP s; std::string k;
public:
  AttrProxy(SEXP x, const std::string& n) : s(x), k(n) {}
  SEXP get() const { auto i = s->at.find(k); return i == s->at.end() ? R_NilValue : i->second; }
  operator SEXP() const { return get(); }
  template <class T, class = typename std::enable_if<!std::is_same<T, SEXP>::value && !std::is_reference<T>::value>::type> operator T() const { return as<T>(get()); }
  template <class T> AttrProxy& operator=(const T& v) { set(wrap(v)); return *this; }
  AttrProxy& operator=(const AttrProxy& o) { set(o.get()); return *this; }
  bool isNULL() const { return get()->type == NILSXP; }
private:
  void set(SEXP v) { if (k == "dim") { v = rm_coerce(v, INTSXP); double n = 1; for (R_xlen_t i = 0; i < v->n; ++i) { if (v->iv[i] < 0) throw std::runtime_error("the dims contain negative values"); n *= v->iv[i]; } if (v->n == 0 || n != (double)s->n) throw std::runtime_error("dims do not match the length of object"); } s->at[k] = v; }
};
class RObject {
protected: SEXP m = R_NilValue;
public:
  RObject() {} RObject(SEXP s) : m(s) {}
  RObject& operator=(SEXP s) { m = s; return *this; }
  template <class T, class = typename std::enable_if<!std::is_convertible<T, SEXP>::value>::type> RObject& operator=(const T& v) { m = wrap(v); return *this; }
  operator SEXP() const { return m; }
  bool hasAttribute(const std::string& k) const { return m->at.count(k) > 0; }
  AttrProxy attr(const std::string& k) const { return AttrProxy(m, k); }
  AttrProxy names() const { return AttrProxy(m, "names"); }
  bool isNULL() const { return m->type == NILSXP; }
  int sexp_type() const { return m->type; }
  SEXP get__() const { return m; }
};
class Dimension {
  std::vector<int> d;
public:
  Dimension() {} Dimension(SEXP s) { s = rm_coerce(s, INTSXP); d.assign(s->iv, s->iv + s->n); } Dimension(const AttrProxy& p) : Dimension(p.get()) {}
  explicit Dimension(size_t a) : d{(int)a} {} Dimension(size_t a, size_t b) : d{(int)a, (int)b} {} Dimension(size_t a, size_t b, size_t c) : d{(int)a, (int)b, (int)c} {}
  Dimension(const std::vector<int>& v) : d(v) {}
  int size() const { return (int)d.size(); } R_xlen_t prod() const { R_xlen_t n = 1; for (int x : d) n *= x; return n; }
  int& operator[](int i) { if (i < 0 || i >= (int)d.size()) throw std::range_error("index out of bounds"); return d[i]; } int operator[](int i) const { if (i < 0 || i >= (int)d.size()) throw std::range_error("index out of bounds"); return d[i]; }
  std::vector<int>::iterator begin() { return d.begin(); } std::vector<int>::iterator end() { return d.end(); } std::vector<int>::const_iterator begin() const { return d.begin(); } std::vector<int>::const_iterator end() const { return d.end(); }
  SEXP sexp() const { return wrap(d); }
};
inline SEXP wrap(const Dimension& d) { return d.sexp(); }
inline SEXP wrap(const RObject& o) { return o.get__(); }
template <int T> class Vector : public RObject {
public:
  typedef typename rm_store<T>::type stored_type; typedef stored_type value_type; typedef stored_type* iterator; typedef const stored_type* const_iterator; typedef stored_type& Proxy;
  Vector() { m = new SEXPREC(T, 0); }
  Vector(SEXP s) { m = rm_coerce(s, T); }
  Vector(const RObject& o) { m = rm_coerce(o.get__(), T); }
  Vector(const AttrProxy& p) { m = rm_coerce(p.get(), T); }
  template <class I, class = typename std::enable_if<std::is_integral<I>::value>::type> Vector(const I& n) { m = new SEXPREC(T, (R_xlen_t)n); }
  template <class I, class V, class = typename std::enable_if<std::is_integral<I>::value && std::is_arithmetic<V>::value>::type> Vector(const I& n, const V& v) { m = new SEXPREC(T, (R_xlen_t)n); std::fill(begin(), end(), (stored_type)v); }
  template <class It, class = typename std::iterator_traits<It>::iterator_category, class = void> Vector(It a, It b) { m = new SEXPREC(T, std::distance(a, b)); std::copy(a, b, begin()); }
  Vector(const Dimension& d) { if (d.size() == 0) throw std::runtime_error("the dims have length zero"); for (int x : d) if (x < 0) throw std::runtime_error("the dims contain negative values"); m = new SEXPREC(T, d.prod()); m->at["dim"] = d.sexp(); }
  R_xlen_t size() const { return m->n; } R_xlen_t length() const { return m->n; }
  iterator begin() { return rm_store<T>::p(m); } iterator end() { return begin() + m->n; } const_iterator begin() const { return rm_store<T>::p(m); } const_iterator end() const { return begin() + m->n; } const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
  template <class I, class = typename std::enable_if<std::is_integral<I>::value>::type> stored_type& operator[](I i) { return rm_store<T>::p(m)[(R_xlen_t)i]; } template <class I, class = typename std::enable_if<std::is_integral<I>::value>::type> const stored_type& operator[](I i) const { return rm_store<T>::p(m)[(R_xlen_t)i]; }
  stored_type& operator()(size_t i) { if (i >= (size_t)m->n) throw index_out_of_bounds("index out of bounds"); return rm_store<T>::p(m)[i]; } stored_type& at(size_t i) { return (*this)(i); }
  template <class... A> static Vector create(const A&... a) { Vector r((R_xlen_t)sizeof...(A)); stored_type t[] = {(stored_type)a...}; std::copy(t, t + sizeof...(A), r.begin()); return r; }
  void fill(stored_type v) { std::fill(begin(), end(), v); }
  bool is_na(stored_type v) const { return T == REALSXP ? v != v : v == (stored_type)NA_INTEGER; }
};
typedef Vector<INTSXP> IntegerVector; typedef Vector<REALSXP> NumericVector; typedef Vector<LGLSXP> LogicalVector;
template <int T> Vector<T> clone(const Vector<T>& v) { SEXP s = new SEXPREC(T, v.size()); s->at = v.get__()->at; std::copy(v.begin(), v.end(), rm_store<T>::p(s)); return Vector<T>(s); }
template <int T> typename Vector<T>::stored_type sum(const Vector<T>& v) { typename Vector<T>::stored_type t = 0; for (auto x : v) t += x; return t; }
template <int T> typename Vector<T>::stored_type min(const Vector<T>& v) { return *std::min_element(v.begin(), v.end()); }
template <int T> typename Vector<T>::stored_type max(const Vector<T>& v) { return *std::max_element(v.begin(), v.end()); }
template <int T, class F> LogicalVector rm_cmp(const Vector<T>& v, F f) { LogicalVector r(v.size()); for (R_xlen_t i = 0; i < v.size(); ++i) r[i] = v[i] != v[i] ? NA_LOGICAL : f(v[i]); return r; }
#define RM_CMP(op) template <int T, class U, class = typename std::enable_if<std::is_arithmetic<U>::value>::type> LogicalVector operator op(const Vector<T>& v, U u) { return rm_cmp(v, [u](auto x) { return x op u; }); }
RM_CMP(<) RM_CMP(>) RM_CMP(<=) RM_CMP(>=) RM_CMP(==) RM_CMP(!=)
inline int any(const LogicalVector& v) { bool na = false; for (int x : v) { if (x == NA_LOGICAL) na = true; else if (x) return 1; } return na ? NA_LOGICAL : 0; }
inline int all(const LogicalVector& v) { bool na = false; for (int x : v) { if (x == NA_LOGICAL) na = true; else if (!x) return 0; } return na ? NA_LOGICAL : 1; }
inline bool is_true(int x) { return x == 1; } inline bool is_false(int x) { return x == 0; } inline bool is_na(int x) { return x == NA_LOGICAL; }
template <int T> LogicalVector is_na(const Vector<T>& v) { LogicalVector r(v.size()); for (R_xlen_t i = 0; i < v.size(); ++i) r[i] = v.is_na(v[i]); return r; }
template <int T> class Matrix : public Vector<T> {
  int nr() const { return rm_dim(0); } int rm_dim(int i) const { SEXP d = this->m->at.at("dim"); return d->iv[i]; }
public:
  typedef typename Vector<T>::stored_type stored_type;
  template <class A, class B, class = typename std::enable_if<std::is_integral<A>::value && std::is_integral<B>::value>::type> Matrix(const A& r, const B& c) : Vector<T>(Dimension((size_t)r, (size_t)c)) {}
  Matrix(SEXP s) : Vector<T>(s) { if (!this->hasAttribute("dim") || this->m->at["dim"]->n != 2) throw not_a_matrix(); }
  stored_type& operator()(size_t i, size_t j) { return rm_store<T>::p(this->m)[(R_xlen_t)i + (R_xlen_t)nr() * (R_xlen_t)j]; } // unchecked, as in Rcpp
  int nrow() const { return nr(); } int ncol() const { return rm_dim(1); } int rows() const { return nr(); } int cols() const { return rm_dim(1); }
};
typedef Matrix<INTSXP> IntegerMatrix; typedef Matrix<REALSXP> NumericMatrix;
class CharacterVector : public RObject {
public:
  struct Proxy { SEXP s; R_xlen_t i; operator std::string() const { return s->sv.data()[i]; } Proxy& operator=(const std::string& v) { s->sv.data()[i] = v; return *this; } };
  CharacterVector() { m = new SEXPREC(STRSXP, 0); } CharacterVector(SEXP s) { if (s->type != STRSXP) throw not_compatible("Not compatible with STRSXP"); m = s; } template <class I, class = typename std::enable_if<std::is_integral<I>::value>::type> explicit CharacterVector(I n) { m = new SEXPREC(STRSXP, (R_xlen_t)n); }
  R_xlen_t size() const { return m->n; } R_xlen_t length() const { return m->n; } Proxy operator[](R_xlen_t i) const { return Proxy{m, i}; }
};
typedef CharacterVector StringVector;
class List : public RObject {
  SEXP names_(bool make) { auto i = m->at.find("names"); if (i != m->at.end()) return i->second; if (!make) return nullptr; SEXP n = new SEXPREC(STRSXP, m->n); m->at["names"] = n; return n; }
public:
  class Proxy { SEXP l; R_xlen_t i; public: Proxy(SEXP s, R_xlen_t k) : l(s), i(k) {} SEXP get() const { return l->lv.data()[i]; } operator SEXP() const { return get(); } template <class T, class = typename std::enable_if<!std::is_same<T, SEXP>::value && !std::is_reference<T>::value>::type> operator T() const { return as<T>(get()); } template <class T> Proxy& operator=(const T& v) { l->lv.data()[i] = wrap(v); return *this; } Proxy& operator=(const Proxy& o) { l->lv.data()[i] = o.get(); return *this; } };
  class NameProxy { List& l; std::string k; R_xlen_t find() const { SEXP n = l.names_(false); if (n) for (R_xlen_t i = 0; i < n->n; ++i) if (n->sv[i] == k) return i; return -1; }
  public: NameProxy(List& x, const std::string& n) : l(x), k(n) {} SEXP get() const { R_xlen_t i = find(); if (i < 0) throw index_out_of_bounds("no such element: " + k); return l.m->lv[i]; } operator SEXP() const { return get(); } template <class T, class = typename std::enable_if<!std::is_same<T, SEXP>::value && !std::is_reference<T>::value>::type> operator T() const { return as<T>(get()); }
    template <class T> NameProxy& operator=(const T& v) { R_xlen_t i = find(); if (i < 0) l.push_back(v, k); else l.m->lv[i] = wrap(v); return *this; } };
  List() { m = new SEXPREC(VECSXP, 0); } List(SEXP s) { if (s->type != VECSXP) { if (s->type == NILSXP || s->type == STRSXP) throw not_compatible("Not compatible with list"); SEXP r = new SEXPREC(VECSXP, s->n); for (R_xlen_t i = 0; i < s->n; ++i) { r->lv[i] = new SEXPREC(s->type, 1); if (s->iv) r->lv[i]->iv[0] = s->iv[i]; else r->lv[i]->dv[0] = s->dv[i]; } s = r; } m = s; } // as.list on an atomic vector
  template <class I, class = typename std::enable_if<std::is_integral<I>::value>::type> explicit List(I n) { m = new SEXPREC(VECSXP, (R_xlen_t)n); for (auto& x : m->lv) x = R_NilValue; }
  R_xlen_t size() const { return m->n; } R_xlen_t length() const { return m->n; }
  template <class I, class = typename std::enable_if<std::is_integral<I>::value>::type> Proxy operator[](I i) const { return Proxy(m, (R_xlen_t)i); } NameProxy operator[](const std::string& k) { return NameProxy(*this, k); } NameProxy operator[](const char* k) { return NameProxy(*this, k); }
  template <class T> void push_back(const T& v, const std::string& k) { SEXP n = names_(true), o = new SEXPREC(VECSXP, m->n + 1); std::copy(m->lv.begin(), m->lv.end(), o->lv.begin()); o->lv[m->n] = wrap(v); SEXP nn = new SEXPREC(STRSXP, n->n + 1); std::copy(n->sv.begin(), n->sv.end(), nn->sv.begin()); nn->sv[n->n] = k; o->at = m->at; o->at["names"] = nn; m = o; }
  template <class T> void push_back(const T& v) { SEXP o = new SEXPREC(VECSXP, m->n + 1); std::copy(m->lv.begin(), m->lv.end(), o->lv.begin()); o->lv[m->n] = wrap(v); o->at = m->at; if (o->at.count("names")) { SEXP nn = new SEXPREC(STRSXP, m->n + 1), n = o->at["names"]; std::copy(n->sv.begin(), n->sv.end(), nn->sv.begin()); o->at["names"] = nn; } m = o; }
  bool containsElementNamed(const char* k) { SEXP n = names_(false); if (n) for (auto& x : n->sv) if (x == k) return true; return false; }
  struct Named_ { std::string k; SEXP v; };
  template <class... A> static List create(const A&... a) { List l; (l.push_back(a.v, a.k), ...); return l; }
};
typedef List GenericVector;
struct Named { std::string k; SEXP v = nullptr; explicit Named(const std::string& s) : k(s) {} template <class T> Named(const std::string& s, const T& x) : k(s), v(wrap(x)) {} template <class T> Named operator=(const T& x) const { Named r(k); r.v = wrap(x); return r; } };
struct rm_under { Named operator[](const char* k) const { return Named(k); } }; static const rm_under _;
class DataFrame : public RObject {
public:
  template <class... A> static DataFrame create(const A&... a) { return DataFrame(List::create(a...)); }
  DataFrame() { m = List().get__(); } DataFrame(const List& l) { SEXP s = l.get__(); R_xlen_t n = -1; for (SEXP c : s->lv) { if (n < 0) n = c->n; else if (n != c->n) throw std::runtime_error("arguments imply differing number of rows"); } m = s; m->at["class"] = wrap("data.frame"); } DataFrame(SEXP s) : DataFrame(List(s)) {}
  R_xlen_t size() const { return m->n; } R_xlen_t length() const { return m->n; } int nrows() const { return m->n ? (int)m->lv[0]->n : 0; } int nrow() const { return nrows(); }
};
template <class T> class Nullable { SEXP s; bool has; public: Nullable() : s(R_NilValue), has(false) {} Nullable(SEXP x) : s(x), has(true) {} bool isNull() const { return !has || s->type == NILSXP; } bool isNotNull() const { return !isNull(); } bool isSet() const { return has; } SEXP get() const { return s; } operator SEXP() const { return s; } T as() const { return T(s); } };
inline const char* rm_dimsym() { return "dim"; }
// ---- as
template <class T> struct rm_as_ { static T get(SEXP s) { return T(s); } };
template <> struct rm_as_<SEXP> { static SEXP get(SEXP s) { return s; } };
#define RM_AS_SCALAR(T) template <> struct rm_as_<T> { static T get(SEXP s) { if (s->n != 1) throw not_compatible("Expecting a single value"); if (s->type != INTSXP && s->type != REALSXP && s->type != LGLSXP) throw not_compatible("Not compatible with requested type"); return rm_num<T>::get(s, 0); } };
RM_AS_SCALAR(int) RM_AS_SCALAR(double) RM_AS_SCALAR(long) RM_AS_SCALAR(unsigned) RM_AS_SCALAR(unsigned long) RM_AS_SCALAR(long long) RM_AS_SCALAR(float)
template <> struct rm_as_<bool> { static bool get(SEXP s) { if (s->n != 1) throw not_compatible("Expecting a single value"); return rm_num<int>::get(s, 0) != 0; } };
template <> struct rm_as_<std::string> { static std::string get(SEXP s) { if (s->type != STRSXP || s->n != 1) throw not_compatible("Expecting a single string value"); return s->sv[0]; } };
template <class T> struct rm_as_<std::vector<T>> { static std::vector<T> get(SEXP s) { std::vector<T> r; if constexpr (std::is_same<T, std::string>::value) { if (s->type != STRSXP) throw not_compatible("Not compatible with STRSXP"); r = s->sv; } else { if (s->type != INTSXP && s->type != REALSXP && s->type != LGLSXP) throw not_compatible("Not compatible with requested type"); for (R_xlen_t i = 0; i < s->n; ++i) r.push_back(rm_num<T>::get(s, i)); } return r; } };
template <class T> T as(SEXP s) { return rm_as_<T>::get(s); }
template <class T> T as(const AttrProxy& p) { return as<T>(p.get()); }
template <class T> T as(const RObject& p) { return as<T>(p.get__()); }
template <class T> T as(const List::Proxy& p) { return as<T>(p.get()); }
template <class T> T as(const CharacterVector::Proxy& p) { return as<T>(wrap((std::string)p)); }
namespace traits {
  template <class T> struct input_parameter { struct type { SEXP s; type(SEXP x) : s(x) {} operator T() const { return as<typename std::remove_cv<T>::type>(s); } }; };
  template <class T> struct input_parameter<const T&> { struct type { T v; type(SEXP x) : v(as<T>(x)) {} operator const T&() const { return v; } }; };
  template <class T> struct input_parameter<T&> { struct type { T v; type(SEXP x) : v(as<T>(x)) {} operator T&() { return v; } }; };
}
}
#define RcppExport extern "C"
#define BEGIN_RCPP try {
#define END_RCPP } catch (RError&) { throw; } catch (std::exception& e) { throw RError{e.what()}; } catch (...) { throw RError{"c++ exception (unknown reason)"}; }
typedef void* (*DL_FUNC)(); struct R_CallMethodDef { const char* name; DL_FUNC fun; int n; }; struct DllInfo; struct R_CMethodDef; 
inline int R_registerRoutines(DllInfo*, const void*, const R_CallMethodDef*, const void*, const void*) { return 1; }
inline int R_useDynamicSymbols(DllInfo*, int) { return 0; }
#ifndef FALSE
#define FALSE 0
#define TRUE 1
#endif
