// What a Python caller does: builds arrays (of any layout and dtype) and lists, calls the registered functions, looks at results.
#pragma once
#include "sym.h"
#include <pybind11/pybind11.h>
#include <vector>
#include <string>
#include <cmath>
namespace py = pybind11;
extern "C" void pbm_init__humanleague();
typedef std::vector<py::ssize_t> Shape;
enum Exc { E_NONE, E_VALUE, E_TYPE, E_INDEX, E_KEY, E_RUNTIME, E_STOP, E_MEMORY, E_OTHER };
struct PyRes { Exc exc = E_NONE; py::object v; bool ok() const { return exc == E_NONE; } };
inline void pyinit() { if (py::pbm_module().fns.empty()) pbm_init__humanleague(); }
template <class F> PyRes pyguard(F f) {
  PyRes r;
  try { r.v = f(); }
  catch (py::stop_iteration&) { r.exc = E_STOP; } catch (py::value_error&) { r.exc = E_VALUE; } catch (py::type_error&) { r.exc = E_TYPE; } catch (py::index_error&) { r.exc = E_INDEX; } catch (py::key_error&) { r.exc = E_KEY; } catch (py::error_already_set&) { r.exc = E_OTHER; }
  catch (std::domain_error&) { r.exc = E_VALUE; } catch (std::invalid_argument&) { r.exc = E_VALUE; } catch (std::length_error&) { r.exc = E_VALUE; } catch (std::range_error&) { r.exc = E_VALUE; } catch (std::out_of_range&) { r.exc = E_INDEX; } catch (std::bad_alloc&) { r.exc = E_MEMORY; } catch (std::exception&) { r.exc = E_RUNTIME; } catch (...) { r.exc = E_RUNTIME; }
  return r;
}
inline PyRes pycall(const char* fn, const std::vector<py::object>& a) { pyinit(); return pyguard([&] { return py::pbm_dispatch(py::pbm_module(), fn, a); }); }
inline PyRes pynew(const char* cls, const std::vector<py::object>& a) { pyinit(); for (auto* s : py::pbm_module().subs) if (s->name == cls) return pyguard([&] { return py::pbm_dispatch(*s, "__init__", a); }); PyRes r; r.exc = E_OTHER; return r; }
inline PyRes pymeth(const py::object& o, const char* m, std::vector<py::object> a = {}) { a.insert(a.begin(), o); const void* t = static_cast<py::PyInst*>(o.ptr())->type; for (auto* s : py::pbm_module().subs) if (s->type == t) return pyguard([&] { return py::pbm_dispatch(*s, m, a); }); PyRes r; r.exc = E_OTHER; return r; }
inline py::object pyint(int64_t v) { return py::pbm_new(new py::PyInt(v)); }
inline py::object pyfloat(double v) { return py::pbm_new(new py::PyFloat(v)); }
inline py::object pylist(const std::vector<py::object>& v) { py::PyList* l = new py::PyList(); py::object o = py::pbm_new(l); l->v = v; return o; }
template <class T> py::object pyscalar(T v) { if constexpr (std::is_floating_point<T>::value) return pyfloat(v); else return pyint((int64_t)v); }

enum Layout { L_C, L_F, L_STRIDE2, L_REV, L_OFFSET, L_NLAY, L_UNIT }; // L_UNIT: contiguous, with arbitrary strides on axes of length one (numpy calls that contiguous)
// array with the given C-order values, in one of several memory layouts and dtypes
template <class T> py::object arr_dt(py::DT dt, const Shape& sh, const std::vector<T>& vals, int lay = L_C) {
  py::PyArray* a = new py::PyArray(); py::object o = py::pbm_new(a); a->dt = dt; a->esize = py::pbm_esize(dt); a->shape = sh;
  if (lay == L_C) { py::pbm_cstrides(a); py::pbm_alloc(a); }
  else if (lay == L_F) { py::pbm_fstrides(a); py::pbm_alloc(a); }
  else if (lay == L_UNIT) { py::pbm_cstrides(a); py::pbm_alloc(a); for (size_t d = 0; d < sh.size(); ++d) if (sh[d] == 1) a->strides[d] = d % 3 == 0 ? 72 : d % 3 == 1 ? -24 : 0; }
  else { // a view into a larger array
    py::PyArray* b = new py::PyArray(); py::object bo = py::pbm_new(b); b->dt = dt; b->esize = a->esize; b->shape = sh; for (auto& s : b->shape) s = lay == L_STRIDE2 ? 2 * s : lay == L_OFFSET ? s + 2 : s; py::pbm_cstrides(b); py::pbm_alloc(b);
    ssize_t n = b->count(); for (ssize_t i = 0; i < n; ++i) { int64_t filler = 3 + i % 4; py::pbm_castcopy(dt, b->data + i * b->esize, py::D_I64, (const char*)&filler); }
    a->strides = b->strides; a->data = b->data; a->base = bo;
    for (size_t d = 0; d < sh.size(); ++d) { if (lay == L_STRIDE2) a->strides[d] *= 2; else if (lay == L_OFFSET) a->data += b->strides[d]; else if (sh[d] > 0) { a->data += (sh[d] - 1) * b->strides[d]; a->strides[d] = -b->strides[d]; } }
  }
  if (a->count() > 0) { std::vector<ssize_t> ix(sh.size(), 0); size_t k = 0; py::DT sd = py::pbm_dt<T>::v; do { py::pbm_castcopy(dt, py::pbm_at(a, ix), sd, (const char*)&vals[k++]); } while (py::pbm_next(ix, sh)); }
  return o;
}
template <class T> py::object arr(const Shape& sh, const std::vector<T>& vals, int lay = L_C) { return arr_dt<T>(py::pbm_dt<T>::v, sh, vals, lay); }
template <class T> py::object nested(const Shape& sh, const std::vector<T>& vals, size_t d = 0, size_t* pos = nullptr) { size_t p0 = 0; if (!pos) pos = &p0; if (d == sh.size()) return pyscalar(vals[(*pos)++]); std::vector<py::object> v; for (ssize_t i = 0; i < sh[d]; ++i) v.push_back(nested(sh, vals, d + 1, pos)); return pylist(v); }
inline py::object vec1(const std::vector<int64_t>& v) { return arr<int64_t>({(ssize_t)v.size()}, v); }
inline bool is_arr(const py::object& o) { return o && o.ptr()->kind == py::K_ARRAY; }
inline Shape shape_of(const py::object& o) { return static_cast<py::PyArray*>(o.ptr())->shape; }
template <class T> std::vector<T> vals_of(const py::object& o) { std::vector<T> r; py::PyArray* a = static_cast<py::PyArray*>(o.ptr()); if (a->count() <= 0) return r; std::vector<ssize_t> ix(a->shape.size(), 0); do r.push_back(py::pbm_get<T>(a->dt, py::pbm_at(a, ix))); while (py::pbm_next(ix, a->shape)); return r; }
inline py::object item(const py::object& o, size_t i) { auto& v = o.ptr()->kind == py::K_LIST ? static_cast<py::PyList*>(o.ptr())->v : static_cast<py::PyTuple*>(o.ptr())->v; return v.at(i); }
inline size_t count_of(const py::object& o) { int k = o.ptr()->kind; return k == py::K_LIST ? static_cast<py::PyList*>(o.ptr())->v.size() : k == py::K_TUPLE ? static_cast<py::PyTuple*>(o.ptr())->v.size() : 0; }
inline bool has_key(const py::object& o, const char* k) { for (auto& e : static_cast<py::PyDict*>(o.ptr())->v) if (e.first == k) return true; return false; }
inline py::object key(const py::object& o, const char* k) { for (auto& e : static_cast<py::PyDict*>(o.ptr())->v) if (e.first == k) return e.second; throw std::logic_error("no such key"); }
inline int64_t as_int(const py::object& o) { switch (o.ptr()->kind) { case py::K_INT: return static_cast<py::PyInt*>(o.ptr())->v; case py::K_BOOL: return static_cast<py::PyBool*>(o.ptr())->v; default: throw std::logic_error("not an int"); } }
inline double as_dbl(const py::object& o) { switch (o.ptr()->kind) { case py::K_FLOAT: return static_cast<py::PyFloat*>(o.ptr())->v; case py::K_INT: return (double)static_cast<py::PyInt*>(o.ptr())->v; default: throw std::logic_error("not a float"); } }
inline int as_bool(const py::object& o) { return (int)static_cast<py::PyBool*>(o.ptr())->v; }
// ---- multi-indices (row-major)
inline size_t nel(const Shape& s) { size_t n = 1; for (auto x : s) n *= x; return n; }
inline std::vector<int64_t> unflat(size_t k, const Shape& s) { std::vector<int64_t> r(s.size()); for (size_t i = s.size(); i-- > 0;) { r[i] = k % s[i]; k /= s[i]; } return r; }
inline size_t flat(const std::vector<int64_t>& ix, const Shape& s) { size_t r = 0; for (size_t i = 0; i < s.size(); ++i) r = r * s[i] + ix[i]; return r; }
// reference reduction: sums over everything but dims (in the order named)
template <class T> std::vector<T> ref_reduce(const std::vector<T>& a, const Shape& s, const std::vector<int64_t>& dims, Shape* outs = nullptr) {
  Shape o; for (auto d : dims) o.push_back(s[d]); std::vector<T> r(nel(o), T(0));
  for (size_t k = 0; k < a.size(); ++k) { auto ix = unflat(k, s); std::vector<int64_t> jx; for (auto d : dims) jx.push_back(ix[d]); r[flat(jx, o)] += a[k]; }
  if (outs) *outs = o; return r;
}
inline std::string nm(const char* b, size_t i) { return std::string(b) + (char)('0' + i / 10 % 10) + (char)('0' + i % 10); }
