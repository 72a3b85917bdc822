// Executable model of the part of pybind11/numpy that a binding layer uses: reference-counted Python objects, ndarray
// with dtype, shape, strides and ownership, pybind11's two-pass overload resolution and its numpy conversion rules
// (forcecast / c_style / f_style). It replaces the installed headers so that module.cpp itself is executed.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <array>
#include <map>
#include <memory>
#include <functional>
#include <stdexcept>
#include <tuple>
#include <type_traits>
#include <utility>
#include <initializer_list>
#include <limits>
#include <optional>
#include <sys/types.h>
#include <cmath>
#include <complex>
#include <algorithm>
#include <numeric>
#define PYBIND11_VERSION_MAJOR 2
#define PYBIND11_VERSION_MINOR 13
namespace pybind11 {
using ssize_t = ::ssize_t;
using std::size_t;
enum Kind { K_NONE, K_INT, K_FLOAT, K_BOOL, K_STR, K_ARRAY, K_LIST, K_TUPLE, K_DICT, K_INST, K_FUNC, K_MODULE, K_CAPSULE };
enum DT { D_F64, D_I64, D_I32, D_U8, D_BOOL, D_F32, D_I16, D_U32, D_U64, D_I8, D_U16, D_OTHER };

// ---------------------------------------------------------------- exceptions
#define PBM_EXC(n) class n : public std::runtime_error { public: n() : std::runtime_error(#n) {} explicit n(const char* s) : std::runtime_error(s) {} explicit n(const std::string& s) : std::runtime_error(s) {} };
class builtin_exception : public std::runtime_error { public: using std::runtime_error::runtime_error; virtual void set_error() const {} };
#define PBM_BEXC(n) class n : public builtin_exception { public: n() : builtin_exception("") {} explicit n(const char* s) : builtin_exception(s) {} explicit n(const std::string& s) : builtin_exception(s) {} };
PBM_BEXC(stop_iteration) PBM_BEXC(index_error) PBM_BEXC(key_error) PBM_BEXC(value_error) PBM_BEXC(type_error) PBM_BEXC(buffer_error) PBM_BEXC(import_error) PBM_BEXC(attribute_error) PBM_BEXC(cast_error) PBM_BEXC(reference_cast_error)
inline int& pbm_pending() { static int k = 0; return k; }
class error_already_set : public std::exception { public: int kind; explicit error_already_set(int k = 0) : kind(k ? k : pbm_pending()) { pbm_pending() = 0; } const char* what() const noexcept override { return "python error"; } };

struct PyObj { int refs = 0; int kind; explicit PyObj(int k) : kind(k) {} virtual ~PyObj() {} };
struct PyInt : PyObj { int64_t v; explicit PyInt(int64_t x) : PyObj(K_INT), v(x) {} };
struct PyFloat : PyObj { double v; explicit PyFloat(double x) : PyObj(K_FLOAT), v(x) {} };
struct PyBool : PyObj { bool v; explicit PyBool(bool x) : PyObj(K_BOOL), v(x) {} };
struct PyStr : PyObj { std::string v; explicit PyStr(std::string x) : PyObj(K_STR), v(std::move(x)) {} };
struct PyNone : PyObj { PyNone() : PyObj(K_NONE) {} };

class handle;
class object;
namespace detail { struct accessor_base; }
class arg_v; class arg;

class handle {
protected:
  PyObj* m_ptr = nullptr;
public:
  handle() = default;
  handle(PyObj* p) : m_ptr(p) {}
  handle(std::nullptr_t) {}
  PyObj* ptr() const { return m_ptr; }
  PyObj*& ptr() { return m_ptr; }
  const handle& inc_ref() const { if (m_ptr) ++m_ptr->refs; return *this; }
  const handle& dec_ref() const { if (m_ptr && --m_ptr->refs == 0) delete m_ptr; return *this; }
  explicit operator bool() const { return m_ptr != nullptr; }
  bool is_none() const { return m_ptr && m_ptr->kind == K_NONE; }
  bool is(const handle& o) const { return m_ptr == o.m_ptr; }
  int ref_count() const { return m_ptr->refs; }
  template <class T> T cast() const;
  template <class T> object operator[](T&& key) const;
  inline object attr(const char* name) const;
};
class object : public handle {
public:
  struct borrowed_t {}; struct stolen_t {};
  object() = default;
  object(handle h, borrowed_t) : handle(h) { inc_ref(); }
  object(handle h, stolen_t) : handle(h) {}
  object(const object& o) : handle(o) { inc_ref(); }
  object(object&& o) noexcept { m_ptr = o.m_ptr; o.m_ptr = nullptr; }
  ~object() { dec_ref(); }
  object& operator=(const object& o) { if (m_ptr != o.m_ptr) { o.inc_ref(); handle t(m_ptr); m_ptr = o.m_ptr; t.dec_ref(); } return *this; }
  object& operator=(object&& o) noexcept { if (this != &o) { handle t(m_ptr); m_ptr = o.m_ptr; o.m_ptr = nullptr; t.dec_ref(); } return *this; }
  handle release() { PyObj* t = m_ptr; m_ptr = nullptr; return handle(t); }
};
template <class T> T reinterpret_borrow(handle h) { return T(h, object::borrowed_t{}); }
template <class T> T reinterpret_steal(handle h) { return T(h, object::stolen_t{}); }
inline object pbm_new(PyObj* p) { return object(handle(p), object::borrowed_t{}); }

struct PyList : PyObj { std::vector<object> v; PyList() : PyObj(K_LIST) {} };
struct PyTuple : PyObj { std::vector<object> v; PyTuple() : PyObj(K_TUPLE) {} };
struct PyDict : PyObj { std::vector<std::pair<std::string, object>> v; PyDict() : PyObj(K_DICT) {} };
struct PyArray : PyObj {
  DT dt; ssize_t esize; std::vector<ssize_t> shape, strides; char* data = nullptr; char* owned = nullptr; object base; bool writeable = true;
  PyArray() : PyObj(K_ARRAY) {}
  ~PyArray() override { if (owned) delete[] owned; }
  ssize_t count() const { ssize_t n = 1; for (ssize_t s : shape) n *= s; return n; }
  bool c_contig() const { if (count() == 0) return true; ssize_t s = esize; for (size_t i = shape.size(); i-- > 0;) { if (shape[i] != 1 && strides[i] != s) return false; s *= shape[i]; } return true; }
  bool f_contig() const { if (count() == 0) return true; ssize_t s = esize; for (size_t i = 0; i < shape.size(); ++i) { if (shape[i] != 1 && strides[i] != s) return false; s *= shape[i]; } return true; }
};
struct PyInst : PyObj { void* p; const void* type; void (*del)(void*); PyInst() : PyObj(K_INST) {} ~PyInst() override; };
inline std::vector<PyInst*>& pbm_instances() { static std::vector<PyInst*> v; return v; }
inline PyInst::~PyInst() { auto& v = pbm_instances(); for (size_t i = 0; i < v.size(); ++i) if (v[i] == this) { v.erase(v.begin() + i); break; } if (del) del(p); }
template <class T> const void* pbm_type() { static char c; return &c; }

template <class T> struct pbm_dt { static constexpr DT v = D_OTHER; };
template <> struct pbm_dt<double> { static constexpr DT v = D_F64; };
template <> struct pbm_dt<float> { static constexpr DT v = D_F32; };
template <> struct pbm_dt<bool> { static constexpr DT v = D_BOOL; };
template <> struct pbm_dt<long> { static constexpr DT v = D_I64; };
template <> struct pbm_dt<long long> { static constexpr DT v = D_I64; };
template <> struct pbm_dt<int> { static constexpr DT v = D_I32; };
template <> struct pbm_dt<short> { static constexpr DT v = D_I16; };
template <> struct pbm_dt<signed char> { static constexpr DT v = D_I8; };
template <> struct pbm_dt<unsigned char> { static constexpr DT v = D_U8; };
template <> struct pbm_dt<unsigned short> { static constexpr DT v = D_U16; };
template <> struct pbm_dt<unsigned int> { static constexpr DT v = D_U32; };
template <> struct pbm_dt<unsigned long> { static constexpr DT v = D_U64; };
template <> struct pbm_dt<unsigned long long> { static constexpr DT v = D_U64; };
inline ssize_t pbm_esize(DT d) { switch (d) { case D_F64: case D_I64: case D_U64: return 8; case D_I32: case D_F32: case D_U32: return 4; case D_I16: case D_U16: return 2; default: return 1; } }
template <class T> T pbm_get(DT d, const char* p) {
  switch (d) {
    case D_F64: return (T)*(const double*)p; case D_I64: return (T)*(const int64_t*)p; case D_I32: return (T)*(const int32_t*)p; case D_U8: return (T)*(const uint8_t*)p; case D_BOOL: return (T)(*(const uint8_t*)p != 0);
    case D_F32: return (T)*(const float*)p; case D_I16: return (T)*(const int16_t*)p; case D_U32: return (T)*(const uint32_t*)p; case D_U64: return (T)*(const uint64_t*)p; case D_I8: return (T)*(const int8_t*)p; case D_U16: return (T)*(const uint16_t*)p; default: return T(); }
}
inline void pbm_castcopy(DT d, char* dst, DT s, const char* src) {
  if (d == s) { memcpy(dst, src, pbm_esize(d)); return; }
  switch (d) { case D_F64: *(double*)dst = pbm_get<double>(s, src); break; case D_I64: *(int64_t*)dst = pbm_get<int64_t>(s, src); break; case D_I32: *(int32_t*)dst = pbm_get<int32_t>(s, src); break; case D_U8: *(uint8_t*)dst = pbm_get<uint8_t>(s, src); break;
    case D_BOOL: *(uint8_t*)dst = s == D_F64 ? (pbm_get<double>(s, src) != 0) : (pbm_get<int64_t>(s, src) != 0); break; case D_F32: *(float*)dst = pbm_get<float>(s, src); break; case D_I16: *(int16_t*)dst = pbm_get<int16_t>(s, src); break; case D_U32: *(uint32_t*)dst = pbm_get<uint32_t>(s, src); break; case D_U64: *(uint64_t*)dst = pbm_get<uint64_t>(s, src); break; case D_I8: *(int8_t*)dst = pbm_get<int8_t>(s, src); break; case D_U16: *(uint16_t*)dst = pbm_get<uint16_t>(s, src); break; default: break; }
}
inline void pbm_cstrides(PyArray* a) { a->strides.resize(a->shape.size()); ssize_t s = a->esize; for (size_t i = a->shape.size(); i-- > 0;) { a->strides[i] = s; s *= a->shape[i] > 0 ? a->shape[i] : 1; } }
inline void pbm_fstrides(PyArray* a) { a->strides.resize(a->shape.size()); ssize_t s = a->esize; for (size_t i = 0; i < a->shape.size(); ++i) { a->strides[i] = s; s *= a->shape[i] > 0 ? a->shape[i] : 1; } }
inline void pbm_kstrides(PyArray* a, const PyArray* src) { // keep the source's axis order
  std::vector<size_t> ord(src->shape.size()); for (size_t i = 0; i < ord.size(); ++i) ord[i] = i;
  auto ab = [](ssize_t x) { return x < 0 ? -x : x; };
  for (size_t i = 1; i < ord.size(); ++i) for (size_t j = i; j > 0 && ab(src->strides[ord[j]]) > ab(src->strides[ord[j - 1]]); --j) std::swap(ord[j], ord[j - 1]);
  a->strides.resize(a->shape.size()); ssize_t s = a->esize; for (size_t i = ord.size(); i-- > 0;) { a->strides[ord[i]] = s; s *= a->shape[ord[i]] > 0 ? a->shape[ord[i]] : 1; }
}
inline void pbm_alloc(PyArray* a) { ssize_t n = a->count() * a->esize; a->owned = new char[n > 0 ? n : 1]; a->data = a->owned; }
inline bool pbm_next(std::vector<ssize_t>& ix, const std::vector<ssize_t>& sh) { for (size_t i = sh.size(); i-- > 0;) { if (++ix[i] < sh[i]) return true; ix[i] = 0; } return false; }
inline char* pbm_at(const PyArray* a, const std::vector<ssize_t>& ix) { char* p = a->data; for (size_t i = 0; i < ix.size(); ++i) p += ix[i] * a->strides[i]; return p; }
inline void pbm_copydata(PyArray* d, const PyArray* s) { if (s->count() <= 0) return; std::vector<ssize_t> ix(s->shape.size(), 0); do { pbm_castcopy(d->dt, pbm_at(d, ix), s->dt, pbm_at(s, ix)); } while (pbm_next(ix, s->shape)); }
enum { PBM_C = 1, PBM_F = 2, PBM_FORCE = 0x10 };
inline bool pbm_num(PyObj* o) { return o->kind == K_INT || o->kind == K_FLOAT || o->kind == K_BOOL; }
inline bool pbm_shape(PyObj* o, std::vector<ssize_t>& sh) { // shape of a nested sequence; false if ragged or not numeric
  if (pbm_num(o)) return true; 
  if (o->kind == K_ARRAY) { for (ssize_t x : static_cast<PyArray*>(o)->shape) sh.push_back(x); return true; }
  std::vector<object>* v = o->kind == K_LIST ? &static_cast<PyList*>(o)->v : o->kind == K_TUPLE ? &static_cast<PyTuple*>(o)->v : nullptr; if (!v) return false;
  sh.push_back(v->size()); std::vector<ssize_t> first; bool have = false;
  for (auto& e : *v) { std::vector<ssize_t> s; if (!pbm_shape(e.ptr(), s)) return false; if (have && s != first) return false; first = s; have = true; }
  for (ssize_t x : first) sh.push_back(x); return true;
}
inline void pbm_fill(PyObj* o, PyArray* a, char*& p) {
  if (o->kind == K_INT) { int64_t v = static_cast<PyInt*>(o)->v; pbm_castcopy(a->dt, p, D_I64, (const char*)&v); p += a->esize; }
  else if (o->kind == K_FLOAT) { double v = static_cast<PyFloat*>(o)->v; pbm_castcopy(a->dt, p, D_F64, (const char*)&v); p += a->esize; }
  else if (o->kind == K_BOOL) { int64_t v = static_cast<PyBool*>(o)->v; pbm_castcopy(a->dt, p, D_I64, (const char*)&v); p += a->esize; }
  else if (o->kind == K_ARRAY) { PyArray* s = static_cast<PyArray*>(o); if (s->count() <= 0) return; std::vector<ssize_t> ix(s->shape.size(), 0); do { pbm_castcopy(a->dt, p, s->dt, pbm_at(s, ix)); p += a->esize; } while (pbm_next(ix, s->shape)); }
  else { auto& v = o->kind == K_LIST ? static_cast<PyList*>(o)->v : static_cast<PyTuple*>(o)->v; for (auto& e : v) pbm_fill(e.ptr(), a, p); }
}
inline bool pbm_safe(DT from, DT to) { // numpy 'safe' casting (without forcecast)
  if (from == to) return true; auto sz = pbm_esize; bool ff = from == D_F64 || from == D_F32, tf = to == D_F64 || to == D_F32;
  if (from == D_BOOL) return true; if (to == D_BOOL) return false; if (ff) return tf && sz(to) >= sz(from); bool fu = from == D_U8 || from == D_U16 || from == D_U32 || from == D_U64, tu = to == D_U8 || to == D_U16 || to == D_U32 || to == D_U64;
  if (tf) return sz(to) > sz(from) || (to == D_F64); if (fu == tu) return sz(to) >= sz(from); if (fu) return sz(to) > sz(from); return false;
}
// PyArray_FromAny(o, dtype, flags); null object if it fails
inline object pbm_from_any(PyObj* o, DT dt, int flags) {
  if (!o) return object();
  if (o->kind == K_ARRAY) { PyArray* s = static_cast<PyArray*>(o);
    if (dt == D_OTHER) dt = s->dt;
    if (s->dt != dt && !(flags & PBM_FORCE) && !pbm_safe(s->dt, dt)) return object();
    bool copy = s->dt != dt || ((flags & PBM_C) && !s->c_contig()) || ((flags & PBM_F) && !s->f_contig());
    if (!copy) return object(handle(o), object::borrowed_t{});
    PyArray* a = new PyArray(); object r = pbm_new(a); a->dt = dt; a->esize = pbm_esize(dt); a->shape = s->shape; if (flags & PBM_F) pbm_fstrides(a); else if (flags & PBM_C) pbm_cstrides(a); else pbm_kstrides(a, s); pbm_alloc(a); pbm_copydata(a, s); return r; }
  std::vector<ssize_t> sh; if (!pbm_shape(o, sh)) return object();
  PyArray* a = new PyArray(); object r = pbm_new(a); a->dt = dt == D_OTHER ? D_F64 : dt; a->esize = pbm_esize(a->dt); a->shape = sh; pbm_cstrides(a); pbm_alloc(a); char* p = a->data; pbm_fill(o, a, p);
  if (flags & PBM_F && sh.size() > 1) { PyArray* f = new PyArray(); object q = pbm_new(f); f->dt = a->dt; f->esize = a->esize; f->shape = sh; pbm_fstrides(f); pbm_alloc(f); pbm_copydata(f, a); return q; }
  return r;
}

// ---------------------------------------------------------------- C++ -> Python
template <class T> object pbm_cast(T&& v);
template <class T> object cast(T&& v) { return pbm_cast(std::forward<T>(v)); }
class arg { public: const char* name; bool nc = false; constexpr explicit arg(const char* n = nullptr) : name(n) {} template <class T> arg_v operator=(T&& v) const; arg& noconvert(bool f = true) { nc = f; return *this; } arg& none(bool = true) { return *this; } };
class arg_v : public arg { public: object value; arg_v(const arg& a, object v) : arg(a), value(std::move(v)) {} arg_v& noconvert(bool f = true) { nc = f; return *this; } arg_v& none(bool = true) { return *this; } };
template <class T> arg_v arg::operator=(T&& v) const { return arg_v(*this, pbm_cast(std::forward<T>(v))); }
struct kw_only {}; struct pos_only {};
namespace literals { constexpr arg operator""_a(const char* n, size_t) { return arg(n); } }

struct PyCapsule : PyObj { void* p; void (*d1)(void*); void (*d0)(); PyCapsule(const void* q, void (*a)(void*), void (*b)()) : PyObj(K_CAPSULE), p(const_cast<void*>(q)), d1(a), d0(b) {} ~PyCapsule() override { if (d1) d1(p); if (d0) d0(); } };
class capsule : public object { public: capsule() = default; capsule(handle h, borrowed_t b) : object(h, b) {} capsule(handle h, stolen_t b) : object(h, b) {}
  capsule(const void* v, void (*d)(void*)) : object(pbm_new(new PyCapsule(v, d, nullptr))) {} explicit capsule(const void* v, const char* = nullptr) : object(pbm_new(new PyCapsule(v, nullptr, nullptr))) {} explicit capsule(void (*d)()) : object(pbm_new(new PyCapsule((const void*)d, nullptr, d))) {}
  static bool check_(handle h) { return h.ptr() && h.ptr()->kind == K_CAPSULE; } template <class T = void> T* get_pointer() const { return static_cast<T*>(static_cast<PyCapsule*>(m_ptr)->p); } template <class T> operator T*() const { return get_pointer<T>(); } };
template <class... A> struct overload_cast_impl { constexpr overload_cast_impl() {} template <class R> constexpr auto operator()(R (*f)(A...)) const { return f; } template <class R, class C> constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const { return f; } template <class R, class C> constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const { return f; } };
template <class... A> static constexpr overload_cast_impl<A...> overload_cast{}; static constexpr auto const_ = std::true_type{};
class none : public object { public: none() : object(pbm_new(new PyNone())) {} };
class int_ : public object { public: int_() : object(pbm_new(new PyInt(0))) {} int_(handle h, borrowed_t b) : object(h, b) {} template <class T, std::enable_if_t<std::is_integral<T>::value, int> = 0> int_(T v) : object(pbm_new(new PyInt((int64_t)v))) {} operator int64_t() const { return static_cast<PyInt*>(m_ptr)->v; } static bool check_(handle h) { return h.ptr() && h.ptr()->kind == K_INT; } };
class float_ : public object { public: float_(double v = 0) : object(pbm_new(new PyFloat(v))) {} float_(handle h, borrowed_t b) : object(h, b) {} operator double() const { return static_cast<PyFloat*>(m_ptr)->v; } static bool check_(handle h) { return h.ptr() && h.ptr()->kind == K_FLOAT; } };
class bool_ : public object { public: bool_(bool v = false) : object(pbm_new(new PyBool(v))) {} bool_(handle h, borrowed_t b) : object(h, b) {} operator bool() const { return static_cast<PyBool*>(m_ptr)->v; } static bool check_(handle h) { return h.ptr() && h.ptr()->kind == K_BOOL; } };
class str : public object { public: str(const char* s = "") : object(pbm_new(new PyStr(s))) {} str(const std::string& s) : object(pbm_new(new PyStr(s))) {} str(handle h, borrowed_t b) : object(h, b) {} explicit str(handle h) : object(h.ptr() && h.ptr()->kind == K_STR ? object(h, borrowed_t{}) : pbm_new(new PyStr("?"))) {} operator std::string() const { return static_cast<PyStr*>(m_ptr)->v; } template <class... A> str format(A&&...) const { return *this; } static bool check_(handle h) { return h.ptr() && h.ptr()->kind == K_STR; } };

// item reference usable on both sides of an assignment
class item_accessor {
  object c; object key; ssize_t ix;
public:
  item_accessor(object cc, object k, ssize_t i) : c(std::move(cc)), key(std::move(k)), ix(i) {}
  item_accessor(const item_accessor&) = default;
  object get() const {
    PyObj* p = c.ptr();
    if (p->kind == K_LIST) { auto& v = static_cast<PyList*>(p)->v; ssize_t i = ix < 0 ? ix + (ssize_t)v.size() : ix; if (i < 0 || i >= (ssize_t)v.size()) throw error_already_set(1); return v[i]; }
    if (p->kind == K_TUPLE) { auto& v = static_cast<PyTuple*>(p)->v; ssize_t i = ix < 0 ? ix + (ssize_t)v.size() : ix; if (i < 0 || i >= (ssize_t)v.size()) throw error_already_set(1); return v[i]; }
    if (p->kind == K_DICT) { const std::string& k = static_cast<PyStr*>(key.ptr())->v; for (auto& e : static_cast<PyDict*>(p)->v) if (e.first == k) return e.second; throw error_already_set(2); }
    throw error_already_set(3);
  }
  void set(object o) const {
    PyObj* p = c.ptr();
    if (p->kind == K_LIST) { auto& v = static_cast<PyList*>(p)->v; ssize_t i = ix < 0 ? ix + (ssize_t)v.size() : ix; if (i < 0 || i >= (ssize_t)v.size()) throw error_already_set(1); v[i] = std::move(o); return; }
    if (p->kind == K_TUPLE) { auto& v = static_cast<PyTuple*>(p)->v; if (ix < 0 || ix >= (ssize_t)v.size()) throw error_already_set(1); v[ix] = std::move(o); return; }
    if (p->kind == K_DICT) { const std::string& k = static_cast<PyStr*>(key.ptr())->v; for (auto& e : static_cast<PyDict*>(p)->v) if (e.first == k) { e.second = std::move(o); return; } static_cast<PyDict*>(p)->v.emplace_back(k, std::move(o)); return; }
    throw error_already_set(3);
  }
  template <class T> const item_accessor& operator=(T&& v) const { set(pbm_cast(std::forward<T>(v))); return *this; }
  const item_accessor& operator=(const item_accessor& o) const { set(o.get()); return *this; }
  operator object() const { return get(); }
  template <class T> T cast() const { return get().template cast<T>(); }
  PyObj* ptr() const { return get().ptr(); }
  template <class K> item_accessor operator[](K&& k) const;
  bool is_none() const { return get().is_none(); }
  object attr(const char* n) const { return get().attr(n); }
};
inline item_accessor pbm_item(const object& c, ssize_t i) { return item_accessor(c, object(), i); }
inline item_accessor pbm_item(const object& c, const char* k) { return item_accessor(c, pbm_new(new PyStr(k)), 0); }
inline item_accessor pbm_item(const object& c, const std::string& k) { return item_accessor(c, pbm_new(new PyStr(k)), 0); }
inline item_accessor pbm_item(const object& c, const handle& k) { if (k.ptr()->kind == K_INT) return item_accessor(c, object(), static_cast<PyInt*>(k.ptr())->v); return item_accessor(c, object(k, object::borrowed_t{}), 0); }
template <class K> item_accessor item_accessor::operator[](K&& k) const { return pbm_item(get(), std::forward<K>(k)); }
template <class T> object handle::operator[](T&& k) const { object c(*this, object::borrowed_t{}); if constexpr (std::is_integral<std::decay_t<T>>::value) return pbm_item(c, (ssize_t)k).get(); else return pbm_item(c, std::forward<T>(k)).get(); }

template <class P> struct seq_iter { const std::vector<object>* v; size_t i; const object& operator*() const { return (*v)[i]; } seq_iter& operator++() { ++i; return *this; } seq_iter operator++(int) { auto t = *this; ++i; return t; } bool operator!=(const seq_iter& o) const { return i != o.i; } bool operator==(const seq_iter& o) const { return i == o.i; } const object* operator->() const { return &(*v)[i]; } using iterator_category = std::forward_iterator_tag; using value_type = object; using difference_type = ssize_t; using pointer = const object*; using reference = const object&; };

class tuple : public object {
public:
  explicit tuple(ssize_t n = 0) : object(pbm_new(new PyTuple())) { V().resize(n); for (auto& o : V()) o = none(); }
  template <class T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, ssize_t>::value, int> = 0> explicit tuple(T n) : tuple((ssize_t)n) {}
  tuple(const object& o) : object(o) { if (!check_(o)) throw error_already_set(3); }
  tuple(handle h, borrowed_t b) : object(h, b) {} tuple(handle h, stolen_t b) : object(h, b) {}
  std::vector<object>& V() const { return static_cast<PyTuple*>(m_ptr)->v; }
  size_t size() const { return V().size(); } bool empty() const { return V().empty(); }
  template <class I, std::enable_if_t<std::is_integral<I>::value, int> = 0> item_accessor operator[](I i) const { return pbm_item(*this, (ssize_t)i); }
  item_accessor operator[](handle h) const { return pbm_item(*this, h); }
  seq_iter<tuple> begin() const { return {&V(), 0}; } seq_iter<tuple> end() const { return {&V(), V().size()}; }
  static bool check_(handle h) { return h.ptr() && h.ptr()->kind == K_TUPLE; }
};
class list : public object {
public:
  explicit list(ssize_t n = 0) : object(pbm_new(new PyList())) { if (n < 0) throw error_already_set(4); V().resize(n); for (auto& o : V()) o = none(); }
  template <class T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, ssize_t>::value, int> = 0> explicit list(T n) : list((ssize_t)n) {}
  list(const object& o) : object(o) { if (!check_(o)) throw error_already_set(3); }
  list(handle h, borrowed_t b) : object(h, b) {} list(handle h, stolen_t b) : object(h, b) {}
  std::vector<object>& V() const { return static_cast<PyList*>(m_ptr)->v; }
  size_t size() const { return V().size(); } bool empty() const { return V().empty(); } void clear() { V().clear(); }
  template <class I, std::enable_if_t<std::is_integral<I>::value, int> = 0> item_accessor operator[](I i) const { return pbm_item(*this, (ssize_t)i); }
  item_accessor operator[](handle h) const { return pbm_item(*this, h); }
  template <class T> void append(T&& v) const { V().push_back(pbm_cast(std::forward<T>(v))); }
  template <class I, class T> void insert(const I& ix, T&& v) const { size_t i = (size_t)ix; if (i > V().size()) i = V().size(); V().insert(V().begin() + i, pbm_cast(std::forward<T>(v))); }
  seq_iter<list> begin() const { return {&V(), 0}; } seq_iter<list> end() const { return {&V(), V().size()}; }
  static bool check_(handle h) { return h.ptr() && h.ptr()->kind == K_LIST; }
};
class dict : public object {
  template <class A> void add(const A& a) { pbm_item(*this, a.name) = a.value; }
public:
  dict() : object(pbm_new(new PyDict())) {}
  template <class A0, class... A, std::enable_if_t<std::is_base_of<arg_v, std::decay_t<A0>>::value, int> = 0> explicit dict(A0&& a0, A&&... a) : dict() { add(a0); (add(a), ...); }
  dict(const object& o) : object(o) { if (!check_(o)) throw error_already_set(3); }
  dict(handle h, borrowed_t b) : object(h, b) {} dict(handle h, stolen_t b) : object(h, b) {}
  std::vector<std::pair<std::string, object>>& V() const { return static_cast<PyDict*>(m_ptr)->v; }
  size_t size() const { return V().size(); } bool empty() const { return V().empty(); }
  template <class K> item_accessor operator[](K&& k) const { return pbm_item(*this, std::forward<K>(k)); }
  bool contains(const char* k) const { for (auto& e : V()) if (e.first == k) return true; return false; } bool contains(const std::string& k) const { return contains(k.c_str()); }
  auto begin() const { return V().begin(); } auto end() const { return V().end(); }
  static bool check_(handle h) { return h.ptr() && h.ptr()->kind == K_DICT; }
};
class sequence : public object { public: sequence(handle h, borrowed_t b) : object(h, b) {} std::vector<object>& V() const { return m_ptr->kind == K_LIST ? static_cast<PyList*>(m_ptr)->v : static_cast<PyTuple*>(m_ptr)->v; } size_t size() const { return V().size(); } template <class I, std::enable_if_t<std::is_integral<I>::value, int> = 0> item_accessor operator[](I i) const { return pbm_item(*this, (ssize_t)i); } seq_iter<list> begin() const { return {&V(), 0}; } seq_iter<list> end() const { return {&V(), V().size()}; } static bool check_(handle h) { return list::check_(h) || tuple::check_(h); } };
using iterable = sequence; class args : public tuple { public: using tuple::tuple; }; class kwargs : public dict { public: using dict::dict; };
inline size_t len(handle h) { PyObj* p = h.ptr(); switch (p->kind) { case K_LIST: return static_cast<PyList*>(p)->v.size(); case K_TUPLE: return static_cast<PyTuple*>(p)->v.size(); case K_DICT: return static_cast<PyDict*>(p)->v.size(); case K_ARRAY: return static_cast<PyArray*>(p)->shape.at(0); default: throw error_already_set(3); } }
template <class... A> tuple make_tuple(A&&... a) { tuple t; (t.V().push_back(pbm_cast(std::forward<A>(a))), ...); return t; }
template <class T> bool isinstance(handle h) { return T::check_(h); }
template <class... A> void print(A&&...) {}
struct gil_scoped_release { gil_scoped_release() {} ~gil_scoped_release() {} }; struct gil_scoped_acquire { gil_scoped_acquire() {} ~gil_scoped_acquire() {} };
template <class...> struct call_guard {}; template <size_t, size_t> struct keep_alive {};
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
struct doc { const char* s; explicit doc(const char* x) : s(x) {} }; struct name { const char* s; explicit name(const char* x) : s(x) {} }; struct is_method {}; struct is_operator {}; struct prepend {}; struct dynamic_attr {}; struct module_local { module_local(bool = true) {} }; struct buffer_protocol {}; struct is_final {};
class options { public: options& disable_function_signatures() { return *this; } options& disable_user_defined_docstrings() { return *this; } options& enable_function_signatures() { return *this; } };

// ---------------------------------------------------------------- numpy (declared here, completed in numpy.h)
template <class T> struct any_container { std::vector<T> v; any_container() {} 
  template <class I, std::enable_if_t<std::is_integral<I>::value, int> = 0> any_container(const std::initializer_list<I>& l) { for (auto x : l) v.push_back((T)x); }
  any_container(std::vector<T>&& x) : v(std::move(x)) {}
  template <class C, class = decltype(std::begin(std::declval<const C&>())), class = std::enable_if_t<!std::is_same<std::decay_t<C>, any_container>::value>> any_container(const C& c) { for (auto& x : c) v.push_back((T)x); }
  template <class It, class = typename std::iterator_traits<It>::value_type> any_container(It b, It e) { for (; b != e; ++b) v.push_back((T)*b); }
  operator std::vector<T>&&() && { return std::move(v); } std::vector<T>& operator*() { return v; } std::vector<T>* operator->() { return &v; } const std::vector<T>& operator*() const { return v; } };
struct buffer_info { void* ptr = nullptr; ssize_t itemsize = 0, size = 0; std::string format; ssize_t ndim = 0; std::vector<ssize_t> shape, strides; bool readonly = false; buffer_info() {}
  buffer_info(void* p, ssize_t is, const std::string& f, ssize_t nd, any_container<ssize_t> sh, any_container<ssize_t> st, bool ro = false) : ptr(p), itemsize(is), size(1), format(f), ndim(nd), shape(sh.v), strides(st.v), readonly(ro) { for (auto s : shape) size *= s; } };
template <class T> struct format_descriptor { static std::string format() { return "?"; } };
class dtype : public object { public: DT d; explicit dtype(DT x = D_F64) : d(x) {} template <class T> static dtype of() { return dtype(pbm_dt<T>::v); } char kind() const { switch (d) { case D_F64: case D_F32: return 'f'; case D_BOOL: return 'b'; case D_U8: case D_U16: case D_U32: case D_U64: return 'u'; default: return 'i'; } } ssize_t itemsize() const { return pbm_esize(d); } bool is(const dtype& o) const { return d == o.d; } bool equal(const dtype& o) const { return d == o.d; } char char_() const { return "dlibBfhILbH?"[d]; } int num() const { return d; } bool operator==(const dtype& o) const { return d == o.d; } };
template <class T, bool Mut, int N> struct pbm_unchecked { char* data; std::vector<ssize_t> sh, st; template <class... I> auto& operator()(I... i) const { ssize_t ix[] = {(ssize_t)i...}; char* p = data; for (size_t k = 0; k < sizeof...(i); ++k) p += ix[k] * st[k]; return *(std::conditional_t<Mut, T, const T>*)p; } auto& operator[](ssize_t i) const { return (*this)(i); } template <class... I> auto* data_(I... i) const { return &(*this)(i...); } ssize_t shape(ssize_t i) const { return sh[i]; } ssize_t ndim() const { return sh.size(); } ssize_t size() const { ssize_t n = 1; for (auto s : sh) n *= s; return n; } ssize_t nbytes() const { return size() * sizeof(T); } };
class array : public object {
public:
  using ShapeContainer = any_container<ssize_t>; using StridesContainer = any_container<ssize_t>;
  enum { c_style = PBM_C, f_style = PBM_F, forcecast = PBM_FORCE };
  array() : array(D_F64, std::vector<ssize_t>{0}, {}, nullptr, handle()) {}
  array(handle h, borrowed_t b) : object(h, b) {} array(handle h, stolen_t b) : object(h, b) {}
  array(DT d, std::vector<ssize_t> sh, std::vector<ssize_t> st, const void* ptr, handle base) : object(pbm_new(new PyArray())) {
    PyArray* a = A(); a->dt = d; a->esize = pbm_esize(d); a->shape = std::move(sh); for (ssize_t s : a->shape) if (s < 0) throw error_already_set(4); bool giv = !st.empty(); if (!giv) pbm_cstrides(a); else a->strides = std::move(st); if (a->strides.size() != a->shape.size()) throw value_error("NumPy: shape ndim doesn't match strides ndim");
    if (base && ptr) { a->data = (char*)const_cast<void*>(ptr); a->base = object(base, borrowed_t{}); }
    else if (!ptr) { if (giv) { /* new memory laid out with these strides */ ssize_t ext = a->esize; for (size_t i = 0; i < a->shape.size(); ++i) ext += (a->shape[i] - 1) * a->strides[i]; a->owned = new char[ext > 0 ? ext : 1]; a->data = a->owned; } else pbm_alloc(a); }
    else { PyArray src; src.dt = d; src.esize = a->esize; src.shape = a->shape; src.strides = a->strides; src.data = (char*)const_cast<void*>(ptr); if (giv) pbm_cstrides(a); pbm_alloc(a); ssize_t n = a->count() * a->esize; if (src.c_contig()) { if (n > 0) memcpy(a->data, ptr, n); } else pbm_copydata(a, &src); } }
  array(const dtype& d, ShapeContainer sh, const void* p = nullptr, handle base = handle()) : array(d.d, sh.v, {}, p, base) {}
  array(const dtype& d, ShapeContainer sh, StridesContainer st, const void* p = nullptr, handle base = handle()) : array(d.d, sh.v, st.v, p, base) {}
  PyArray* A() const { return static_cast<PyArray*>(m_ptr); }
  pybind11::dtype dtype() const { return pybind11::dtype(A()->dt); }
  ssize_t size() const { return A()->count(); } ssize_t itemsize() const { return A()->esize; } ssize_t nbytes() const { return size() * itemsize(); } ssize_t ndim() const { return A()->shape.size(); }
  const ssize_t* shape() const { return A()->shape.data(); } ssize_t shape(ssize_t i) const { if (i >= ndim()) throw index_error("invalid axis"); return A()->shape[i]; }
  const ssize_t* strides() const { return A()->strides.data(); } ssize_t strides(ssize_t i) const { if (i >= ndim()) throw index_error("invalid axis"); return A()->strides[i]; }
  int flags() const { return (A()->c_contig() ? 1 : 0) | (A()->f_contig() ? 2 : 0) | (A()->writeable ? 0x400 : 0); } bool writeable() const { return A()->writeable; } bool owndata() const { return A()->owned != nullptr; } object base() const { return A()->base; }
  template <class... I> ssize_t offset_at(I... i) const { ssize_t ix[] = {0, (ssize_t)i...}; if ((ssize_t)sizeof...(i) > ndim()) throw index_error("too many indices"); ssize_t o = 0; for (size_t k = 0; k < sizeof...(i); ++k) { if (ix[k + 1] >= A()->shape[k]) throw index_error("index out of bounds"); o += ix[k + 1] * A()->strides[k]; } return o; }
  template <class... I> const void* data(I... i) const { return A()->data + offset_at(i...); }
  template <class... I> void* mutable_data(I... i) { if (!A()->writeable) throw std::domain_error("array is not writeable"); return A()->data + offset_at(i...); }
  buffer_info request(bool writable = false) const { if (writable && !A()->writeable) throw error_already_set(5); buffer_info b; b.ptr = A()->data; b.itemsize = A()->esize; b.size = A()->count(); b.ndim = ndim(); b.shape = A()->shape; b.strides = A()->strides; b.readonly = !A()->writeable; return b; }
  array reshape(ShapeContainer sh) const { PyArray* n = new PyArray(); array r(pbm_new(n), borrowed_t{}); n->dt = A()->dt; n->esize = A()->esize; n->shape = sh.v; ssize_t c = 1; for (auto s : n->shape) c *= s; if (c != A()->count()) throw error_already_set(4); pbm_cstrides(n); if (A()->c_contig()) { n->data = A()->data; n->base = *this; } else { pbm_alloc(n); array t(pbm_from_any(A(), A()->dt, PBM_C), borrowed_t{}); memcpy(n->data, t.A()->data, c * n->esize); } return r; }
  array squeeze() const { std::vector<ssize_t> s; for (auto x : A()->shape) if (x != 1) s.push_back(x); return reshape(ShapeContainer(std::move(s))); }
  static bool check_(handle h) { return h.ptr() && h.ptr()->kind == K_ARRAY; }
  static array ensure(handle h, int fl = 0) { object o = pbm_from_any(h.ptr(), D_OTHER, fl); return array(o, borrowed_t{}); }
};
template <class T, int ExtraFlags = array::forcecast> class array_t : public array {
public:
  using value_type = T;
  static_assert(!std::is_same<T, void>::value, "");
  array_t() : array(pbm_dt<T>::v, std::vector<ssize_t>{0}, {}, nullptr, handle()) {}
  array_t(handle h, borrowed_t b) : array(h, b) {} array_t(handle h, stolen_t b) : array(h, b) {}
  array_t(const object& o) : array(pbm_from_any(o.ptr(), pbm_dt<T>::v, ExtraFlags), borrowed_t{}) { if (!m_ptr) throw error_already_set(3); }
  array_t(const array_t& o) = default; array_t(array_t&& o) = default; array_t& operator=(const array_t&) = default; array_t& operator=(array_t&&) = default;
  explicit array_t(const buffer_info& b, handle base = handle()) : array(pbm_dt<T>::v, b.shape, b.strides, b.ptr, base) {}
  array_t(ShapeContainer sh, StridesContainer st, const T* p = nullptr, handle base = handle()) : array(pbm_dt<T>::v, (ExtraFlags & PBM_F) && 0 ? sh.v : sh.v, st.v, p, base) {}
  explicit array_t(ShapeContainer sh, const T* p = nullptr, handle base = handle()) : array(pbm_dt<T>::v, sh.v, fst(sh.v), p, base) {}
  template <class I, std::enable_if_t<std::is_integral<I>::value, int> = 0> explicit array_t(I n, const T* p = nullptr, handle base = handle()) : array(pbm_dt<T>::v, std::vector<ssize_t>{(ssize_t)n}, {}, p, base) {}
  static std::vector<ssize_t> fst(const std::vector<ssize_t>& sh) { if (!(ExtraFlags & PBM_F)) return {}; std::vector<ssize_t> st(sh.size()); ssize_t s = sizeof(T); for (size_t i = 0; i < sh.size(); ++i) { st[i] = s; s *= sh[i]; } return st; }
  constexpr ssize_t itemsize() const { return sizeof(T); }
  template <class... I> ssize_t index_at(I... i) const { return offset_at(i...) / (ssize_t)sizeof(T); }
  template <class... I> const T* data(I... i) const { return (const T*)array::data(i...); }
  template <class... I> T* mutable_data(I... i) { return (T*)array::mutable_data(i...); }
  template <class... I> const T& at(I... i) const { if ((ssize_t)sizeof...(i) != ndim()) throw index_error("index dimension mismatch"); return *data(i...); }
  template <class... I> T& mutable_at(I... i) { if ((ssize_t)sizeof...(i) != ndim()) throw index_error("index dimension mismatch"); return *mutable_data(i...); }
  template <int N = -1> pbm_unchecked<T, false, N> unchecked() const { if (N >= 0 && ndim() != N) throw std::domain_error("array has incorrect number of dimensions"); return {A()->data, A()->shape, A()->strides}; }
  template <int N = -1> pbm_unchecked<T, true, N> mutable_unchecked() { if (N >= 0 && ndim() != N) throw std::domain_error("array has incorrect number of dimensions"); return {A()->data, A()->shape, A()->strides}; }
  static bool check_(handle h) { if (!h.ptr() || h.ptr()->kind != K_ARRAY) return false; PyArray* a = static_cast<PyArray*>(h.ptr()); if (a->dt != pbm_dt<T>::v) return false; if ((ExtraFlags & PBM_C) && !a->c_contig()) return false; if ((ExtraFlags & PBM_F) && !a->f_contig()) return false; return true; }
  static array_t ensure(handle h) { object o = pbm_from_any(h.ptr(), pbm_dt<T>::v, ExtraFlags); return array_t(o, borrowed_t{}); }
};

template <class T> struct is_pyobject : std::is_base_of<handle, std::decay_t<T>> {};
template <class T> struct pbm_isvec : std::false_type {}; template <class T, class A> struct pbm_isvec<std::vector<T, A>> : std::true_type {};
template <class T> struct pbm_isarr : std::false_type {}; template <class T, size_t N> struct pbm_isarr<std::array<T, N>> : std::true_type {};
template <class T> struct pbm_istup : std::false_type {}; template <class... T> struct pbm_istup<std::tuple<T...>> : std::true_type {}; template <class A, class B> struct pbm_istup<std::pair<A, B>> : std::true_type {};
template <class T> struct pbm_ismap : std::false_type {}; template <class V> struct pbm_ismap<std::map<std::string, V>> : std::true_type {};
template <class T> struct pbm_isopt : std::false_type {}; template <class T> struct pbm_isopt<std::optional<T>> : std::true_type {};
template <class T> struct pbm_isuptr : std::false_type {}; template <class T> struct pbm_isuptr<std::unique_ptr<T>> : std::true_type {};
template <class T> object pbm_wrap(T* p, bool own) { for (auto* i : pbm_instances()) if (i->p == (const void*)p && i->type == pbm_type<T>()) return object(handle(i), object::borrowed_t{}); PyInst* i = new PyInst(); object o = pbm_new(i); i->p = p; i->type = pbm_type<T>(); i->del = own ? +[](void* q) { delete (T*)q; } : nullptr; pbm_instances().push_back(i); return o; }
template <class T> object pbm_cast(T&& v) {
  using D = std::decay_t<T>;
  if constexpr (std::is_same<D, item_accessor>::value) return v.get();
  else if constexpr (is_pyobject<D>::value) { if (!v.ptr()) throw cast_error("null object"); return object(v, object::borrowed_t{}); }
  else if constexpr (std::is_same<D, bool>::value) return pbm_new(new PyBool(v));
  else if constexpr (std::is_enum<D>::value || std::is_integral<D>::value) return pbm_new(new PyInt((int64_t)v));
  else if constexpr (std::is_floating_point<D>::value) return pbm_new(new PyFloat((double)v));
  else if constexpr (std::is_same<D, std::nullptr_t>::value || std::is_same<D, std::nullopt_t>::value) return none();
  else if constexpr (std::is_convertible<D, std::string>::value) return pbm_new(new PyStr(std::string(v)));
  else if constexpr (pbm_isvec<D>::value || pbm_isarr<D>::value) { PyList* l = new PyList(); object o = pbm_new(l); for (size_t i = 0; i < v.size(); ++i) l->v.push_back(pbm_cast((typename D::value_type)v[i])); return o; }
  else if constexpr (pbm_istup<D>::value) { PyTuple* t = new PyTuple(); object o = pbm_new(t); std::apply([&](auto&... e) { (t->v.push_back(pbm_cast(e)), ...); }, v); return o; }
  else if constexpr (pbm_ismap<D>::value) { dict d; for (auto& e : v) d[e.first] = e.second; return d; }
  else if constexpr (pbm_isopt<D>::value) { if (!v) return none(); return pbm_cast(*v); }
  else if constexpr (pbm_isuptr<D>::value) { auto* p = v.release(); return pbm_wrap(p, true); }
  else if constexpr (std::is_pointer<D>::value) return pbm_wrap(v, false);
  else if constexpr (std::is_lvalue_reference<T>::value) { for (auto* i : pbm_instances()) if (i->p == (const void*)&v && i->type == pbm_type<D>()) return object(handle(i), object::borrowed_t{}); if constexpr (std::is_copy_constructible<D>::value) return pbm_wrap(new D(v), true); else throw cast_error("not copyable"); }
  else return pbm_wrap(new D(std::move(v)), true);
}

// ---------------------------------------------------------------- Python -> C++
template <class T, class = void> struct pbm_load { // registered class instances
  T* p = nullptr; static bool ok(PyObj* o) { return o && o->kind == K_INST && static_cast<PyInst*>(o)->type == pbm_type<T>(); }
  bool load(handle h, bool) { if (!ok(h.ptr())) return false; p = (T*)static_cast<PyInst*>(h.ptr())->p; return true; } T& get() { return *p; } };
template <class T> struct pbm_load<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> { T v{}; bool load(handle h, bool) { PyObj* o = h.ptr(); if (!o) return false; int64_t x; if (o->kind == K_INT) x = static_cast<PyInt*>(o)->v; else if (o->kind == K_BOOL) x = static_cast<PyBool*>(o)->v; else return false;
  if constexpr (std::is_unsigned<T>::value) { if (x < 0) return false; if constexpr (sizeof(T) < 8) if (x > (int64_t)std::numeric_limits<T>::max()) return false; } else if constexpr (sizeof(T) < 8) { if (x < (int64_t)std::numeric_limits<T>::min() || x > (int64_t)std::numeric_limits<T>::max()) return false; } v = (T)x; return true; } T& get() { return v; } };
template <> struct pbm_load<bool> { bool v = false; bool load(handle h, bool c) { PyObj* o = h.ptr(); if (!o) return false; if (o->kind == K_BOOL) { v = static_cast<PyBool*>(o)->v; return true; } if (c && o->kind == K_NONE) { v = false; return true; } if (c && o->kind == K_INT) { v = static_cast<PyInt*>(o)->v != 0; return true; } return false; } bool& get() { return v; } };
template <class T> struct pbm_load<T, std::enable_if_t<std::is_floating_point<T>::value>> { T v{}; bool load(handle h, bool c) { PyObj* o = h.ptr(); if (!o) return false; if (o->kind == K_FLOAT) { v = (T)static_cast<PyFloat*>(o)->v; return true; } if (!c) return false; if (o->kind == K_INT) { v = (T)static_cast<PyInt*>(o)->v; return true; } if (o->kind == K_BOOL) { v = static_cast<PyBool*>(o)->v; return true; } return false; } T& get() { return v; } };
template <> struct pbm_load<std::string> { std::string v; bool load(handle h, bool) { if (!str::check_(h)) return false; v = static_cast<PyStr*>(h.ptr())->v; return true; } std::string& get() { return v; } };
template <class T, int F> struct pbm_load<array_t<T, F>> { array_t<T, F> v; bool load(handle h, bool c) { if (!c && !array_t<T, F>::check_(h)) return false; v = array_t<T, F>::ensure(h); return (bool)v; } array_t<T, F>& get() { return v; } };
template <> struct pbm_load<object> { object v; bool load(handle h, bool) { if (!h) return false; v = object(h, object::borrowed_t{}); return true; } object& get() { return v; } };
template <> struct pbm_load<handle> { handle v; bool load(handle h, bool) { v = h; return (bool)h; } handle& get() { return v; } };
template <class T> struct pbm_load<T, std::enable_if_t<std::is_base_of<object, T>::value && !std::is_same<T, object>::value && !std::is_base_of<array, T>::value>> { object v; std::optional<T> t; bool load(handle h, bool) { if (!T::check_(h)) return false; t.emplace(h, object::borrowed_t{}); return true; } T& get() { return *t; } };
template <> struct pbm_load<array> { array v; bool load(handle h, bool) { if (!array::check_(h)) return false; v = array(h, object::borrowed_t{}); return true; } array& get() { return v; } };
template <class T, class A> struct pbm_load<std::vector<T, A>> { std::vector<T, A> v; bool load(handle h, bool c) { PyObj* o = h.ptr(); if (!o) return false; v.clear();
  auto one = [&](handle e) { pbm_load<T> l; if (!l.load(e, c)) return false; v.push_back(l.get()); return true; };
  if (o->kind == K_LIST || o->kind == K_TUPLE) { auto& s = o->kind == K_LIST ? static_cast<PyList*>(o)->v : static_cast<PyTuple*>(o)->v; for (auto& e : s) if (!one(e)) return false; return true; }
  if (o->kind == K_ARRAY) { PyArray* a = static_cast<PyArray*>(o); if (a->shape.empty()) return false; for (ssize_t i = 0; i < a->shape[0]; ++i) { object e; if (a->shape.size() == 1) { char* p = a->data + i * a->strides[0]; bool f = a->dt == D_F64 || a->dt == D_F32; e = f ? pbm_new(new PyFloat(pbm_get<double>(a->dt, p))) : pbm_new(new PyInt(pbm_get<int64_t>(a->dt, p))); } else { PyArray* b = new PyArray(); e = pbm_new(b); b->dt = a->dt; b->esize = a->esize; b->shape.assign(a->shape.begin() + 1, a->shape.end()); b->strides.assign(a->strides.begin() + 1, a->strides.end()); b->data = a->data + i * a->strides[0]; b->base = object(h, object::borrowed_t{}); } if (!one(e)) return false; } return true; }
  return false; } std::vector<T, A>& get() { return v; } };
template <class T> struct pbm_load<std::optional<T>> { std::optional<T> v; bool load(handle h, bool c) { if (!h || h.is_none()) { v.reset(); return true; } pbm_load<T> l; if (!l.load(h, c)) return false; v = l.get(); return true; } std::optional<T>& get() { return v; } };
template <class T> T handle::cast() const { using D = std::decay_t<T>; if constexpr (std::is_same<D, object>::value) return object(*this, object::borrowed_t{}); else if constexpr (std::is_reference<T>::value) { pbm_load<D> l; if (!l.load(*this, true)) throw cast_error("Unable to cast Python instance to C++ type"); return l.get(); } else { pbm_load<D> l; if (!l.load(*this, true)) throw cast_error("Unable to cast Python instance to C++ type"); return std::move(l.get()); } }
template <class T> T cast(const handle& h) { return h.cast<T>(); }
inline object handle::attr(const char* n) const { if (m_ptr->kind == K_ARRAY) { PyArray* a = static_cast<PyArray*>(m_ptr); std::string s(n); if (s == "ndim") return pbm_cast((int64_t)a->shape.size()); if (s == "size") return pbm_cast((int64_t)a->count()); if (s == "shape") { PyTuple* t = new PyTuple(); object o = pbm_new(t); for (auto x : a->shape) t->v.push_back(pbm_cast((int64_t)x)); return o; } } throw error_already_set(6); }

// ---------------------------------------------------------------- functions, classes, modules
struct PyCallable { std::string name; size_t nargs = 0; std::vector<std::string> names; std::vector<object> defaults; std::vector<char> noconv; virtual ~PyCallable() {} virtual bool call(std::vector<object>& a, bool convert, object& ret) = 0; };
template <class R, class... A> struct pbm_fn {};
template <class F, class R, class... A> struct PyFnImpl : PyCallable {
  F f; explicit PyFnImpl(F x) : f(std::move(x)) { nargs = sizeof...(A); }
  template <size_t... I> bool go(std::vector<object>& a, bool conv, object& ret, std::index_sequence<I...>) {
    std::tuple<pbm_load<std::remove_const_t<std::remove_pointer_t<std::remove_cv_t<std::remove_reference_t<A>>>>>...> ls; bool ok = true; 
    ((ok = ok && std::get<I>(ls).load(a[I], conv && !(I < noconv.size() && noconv[I]))), ...); if (!ok) return false;
    if constexpr (std::is_void<R>::value) { f(pass<A>(std::get<I>(ls))...); ret = none(); } else ret = pbm_cast(static_cast<R&&>(f(pass<A>(std::get<I>(ls))...))); return true; }
  template <class P, class L> static decltype(auto) pass(L& l) { if constexpr (std::is_pointer<std::remove_reference_t<P>>::value) return &l.get(); else if constexpr (std::is_lvalue_reference<P>::value) return (l.get()); else return std::move(l.get()); }
  bool call(std::vector<object>& a, bool conv, object& ret) override { return go(a, conv, ret, std::index_sequence_for<A...>{}); }
};
template <class R, class... A> std::unique_ptr<PyCallable> pbm_make(R (*f)(A...)) { return std::unique_ptr<PyCallable>(new PyFnImpl<R (*)(A...), R, A...>(f)); }
template <class F> struct pbm_sig : pbm_sig<decltype(&F::operator())> {};
template <class C, class R, class... A> struct pbm_sig<R (C::*)(A...) const> { template <class F> static std::unique_ptr<PyCallable> mk(F f) { return std::unique_ptr<PyCallable>(new PyFnImpl<F, R, A...>(std::move(f))); } };
template <class C, class R, class... A> struct pbm_sig<R (C::*)(A...)> { template <class F> static std::unique_ptr<PyCallable> mk(F f) { return std::unique_ptr<PyCallable>(new PyFnImpl<F, R, A...>(std::move(f))); } };
template <class F, std::enable_if_t<!std::is_pointer<std::decay_t<F>>::value && !std::is_member_pointer<std::decay_t<F>>::value, int> = 0> std::unique_ptr<PyCallable> pbm_make(F&& f) { return pbm_sig<std::decay_t<F>>::mk(std::decay_t<F>(std::forward<F>(f))); }
template <class C, class B, class R, class... A> std::unique_ptr<PyCallable> pbm_makem(R (B::*f)(A...)) { auto g = [f](C& c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }; return std::unique_ptr<PyCallable>(new PyFnImpl<decltype(g), R, C&, A...>(g)); }
template <class C, class B, class R, class... A> std::unique_ptr<PyCallable> pbm_makem(R (B::*f)(A...) const) { auto g = [f](const C& c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }; return std::unique_ptr<PyCallable>(new PyFnImpl<decltype(g), R, const C&, A...>(g)); }
template <class C, class F, std::enable_if_t<!std::is_member_pointer<std::decay_t<F>>::value, int> = 0> std::unique_ptr<PyCallable> pbm_makem(F&& f) { return pbm_make(std::forward<F>(f)); }
struct pbm_extra { PyCallable* c; void operator()(const arg& a) { c->names.push_back(a.name ? a.name : ""); c->defaults.push_back(object()); c->noconv.push_back(a.nc); } void operator()(const arg_v& a) { c->names.push_back(a.name ? a.name : ""); c->defaults.push_back(a.value); c->noconv.push_back(a.nc); } template <class T> std::enable_if_t<!std::is_base_of<arg, std::decay_t<T>>::value> operator()(const T&) {} };
struct pbm_ns { std::string name; const void* type = nullptr; std::vector<std::unique_ptr<PyCallable>> fns; std::vector<pbm_ns*> subs; std::vector<std::pair<std::string, object>> attrs; };
class module_ : public object {
public:
  pbm_ns* ns; explicit module_(pbm_ns* n) : ns(n) {} 
  struct docref { template <class T> docref& operator=(T&&) { return *this; } }; docref doc() const { return {}; }
  struct attrref { template <class T> attrref& operator=(T&&) { return *this; } operator object() const { return none(); } template <class... A> object operator()(A&&...) const { return none(); } attrref attr(const char*) const { return {}; } };
  attrref attr(const char*) const { return {}; }
  template <class F, class... E> module_& def(const char* n, F&& f, const E&... e) { auto c = pbm_make(std::forward<F>(f)); c->name = n; pbm_extra x{c.get()}; (x(e), ...); ns->fns.push_back(std::move(c)); return *this; }
  static attrref import(const char*) { return {}; }
};
using module = module_;
template <class T> struct register_exception_t {};
template <class E, class... A> int register_exception(A&&...) { return 0; }
template <class F> void register_exception_translator(F&&) {}
template <class... A> struct init_t {};
template <class... A> init_t<A...> init() { return {}; }
template <class F> struct init_f { F f; };
template <class F, std::enable_if_t<!std::is_void<F>::value, int> = 0> init_f<std::decay_t<F>> init(F&& f) { return {std::forward<F>(f)}; }
template <class T, class... Opt> class class_ : public object {
  pbm_ns* ns;
  void add(const char* n, std::unique_ptr<PyCallable> c) { c->name = n; ns->fns.push_back(std::move(c)); }
public:
  template <class... E> class_(const module_& m, const char* n, const E&...) { ns = new pbm_ns(); ns->name = n; ns->type = pbm_type<T>(); m.ns->subs.push_back(ns); }
  template <class... A, class... E> class_& def(init_t<A...>, const E&... e) { auto c = pbm_make([](A... a) -> std::unique_ptr<T> { return std::unique_ptr<T>(new T(std::forward<A>(a)...)); }); pbm_extra x{c.get()}; (x(e), ...); add("__init__", std::move(c)); return *this; }
  template <class F, class... E> class_& def(init_f<F> f, const E&... e) { auto c = pbm_make(f.f); pbm_extra x{c.get()}; (x(e), ...); add("__init__", std::move(c)); return *this; }
  template <class F, class... E> class_& def(const char* n, F&& f, const E&... e) { auto c = pbm_makem<T>(std::forward<F>(f)); c->names.push_back("self"); c->defaults.push_back(object()); c->noconv.push_back(false); pbm_extra x{c.get()}; (x(e), ...); add(n, std::move(c)); return *this; }
  template <class F, class... E> class_& def_static(const char* n, F&& f, const E&...) { add(n, pbm_make(std::forward<F>(f))); return *this; }
  template <class F, class... E> class_& def_property_readonly(const char* n, F&& f, const E&...) { add(n, pbm_makem<T>(std::forward<F>(f))); return *this; }
  template <class... A> class_& def_readonly(A&&...) { return *this; } template <class... A> class_& def_readwrite(A&&...) { return *this; } template <class... A> class_& def_property(A&&...) { return *this; }
};
inline pbm_ns& pbm_module() { static pbm_ns n; return n; }
// pybind11's dispatcher: first without, then with implicit conversion
inline object pbm_dispatch(pbm_ns& ns, const std::string& name, const std::vector<object>& args) {
  size_t n = 0; for (auto& f : ns.fns) if (f->name == name) ++n; if (!n) throw error_already_set(6);
  for (int pass = n > 1 ? 0 : 1; pass < 2; ++pass) for (auto& f : ns.fns) if (f->name == name) {
    std::vector<object> a = args; if (a.size() > f->nargs) continue; while (a.size() < f->nargs && a.size() < f->defaults.size() && f->defaults[a.size()]) a.push_back(f->defaults[a.size()]); if (a.size() != f->nargs) continue;
    object r; try { if (f->call(a, pass == 1, r)) return r; } catch (reference_cast_error&) {} }
  throw type_error("incompatible function arguments");
}
namespace detail { template <class...> struct type_caster_dummy {}; }
} // namespace pybind11
struct PyExcKind_ { int k; };
inline PyExcKind_ *pbm_exc(int k) { static PyExcKind_ t[8] = {{0},{1},{2},{3},{4},{5},{6},{7}}; return &t[k]; }
#define PyExc_IndexError pbm_exc(1)
#define PyExc_KeyError pbm_exc(2)
#define PyExc_TypeError pbm_exc(3)
#define PyExc_ValueError pbm_exc(4)
#define PyExc_StopIteration pbm_exc(5)
#define PyExc_RuntimeError pbm_exc(6)
inline void PyErr_SetString(PyExcKind_* e, const char*) { pybind11::pbm_pending() = e->k; }
inline int PyErr_CheckSignals() { return 0; }
#define PYBIND11_MODULE(name, var, ...) static void pbm_body_##name(::pybind11::module_& var); extern "C" void pbm_init_##name() { ::pybind11::module_ m(&::pybind11::pbm_module()); pbm_body_##name(m); } void pbm_body_##name(::pybind11::module_& var)
#define PYBIND11_MAKE_OPAQUE(...)
#define PYBIND11_DECLARE_HOLDER_TYPE(...)
#define PYBIND11_OVERRIDE(...)
