// Parts of libstdc++ that live in the shared library rather than in headers, in source form, so that the
// executor sees their bodies, vtables and typeinfo. Linked into the IR only (native replays use libstdc++).
#include <exception>
#include <new>
#include <stdexcept>
#include <typeinfo>
#include <string>
#include <cstring>
#include <cstdlib>
#include <map>
#include <functional>
#include <unordered_map>
#include <list>

namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}

__cow_string::__cow_string() : _M_p("") {}
__cow_string::__cow_string(const std::string& s) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); _M_p = p; }
__cow_string::__cow_string(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; _M_p = p; }
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }

static const char* cowp(const __cow_string& s) { return *(const char* const*)&s; }
#define RT_EXC(C, B) C::C(const string& s) : B(s) {} C::C(const char* s) : B(s) {} C::~C() noexcept {}
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(const logic_error& o) noexcept : exception(), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return cowp(_M_msg); }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return cowp(_M_msg); }
RT_EXC(domain_error, logic_error) RT_EXC(invalid_argument, logic_error) RT_EXC(length_error, logic_error) RT_EXC(out_of_range, logic_error)
RT_EXC(range_error, runtime_error) RT_EXC(overflow_error, runtime_error) RT_EXC(underflow_error, runtime_error)

// red-black tree support with the same contract (an ordered binary tree) but without rebalancing
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; // header
  if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black; // header stays red, nodes black
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base *r; // replacement of z in the tree
  _Rb_tree_node_base* zp = z->_M_parent; bool root = h._M_parent == z, isl = !root && zp->_M_left == z;
  if (!z->_M_left) { r = z->_M_right; if (r) r->_M_parent = zp; }
  else if (!z->_M_right) { r = z->_M_left; r->_M_parent = zp; }
  else { r = z->_M_right; while (r->_M_left) r = r->_M_left;
    if (r != z->_M_right) { r->_M_parent->_M_left = r->_M_right; if (r->_M_right) r->_M_right->_M_parent = r->_M_parent; r->_M_right = z->_M_right; z->_M_right->_M_parent = r; }
    r->_M_left = z->_M_left; z->_M_left->_M_parent = r; r->_M_parent = zp; }
  if (root) h._M_parent = r; else if (isl) zp->_M_left = r; else zp->_M_right = r;
  _Rb_tree_node_base* q = h._M_parent;
  if (!q) { h._M_left = h._M_right = &h; } else { while (q->_M_left) q = q->_M_left; h._M_left = q; q = h._M_parent; while (q->_M_right) q = q->_M_right; h._M_right = q; }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t p[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033}; for (size_t q : p) if (q >= n) { const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = q; return q; } return n | 1; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > nb) return {true, _M_next_bkt(ne + ni + nb)}; return {false, 0}; }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; size_t h = seed ^ 1469598103934665603ull; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; } return h; }
}

extern "C" {
void symrt_throw_bad_alloc() { throw std::bad_alloc(); }
void symrt_throw_length_error() { throw std::length_error("length_error"); }
void symrt_throw_out_of_range() { throw std::out_of_range("out_of_range"); }
void symrt_throw_logic_error() { throw std::logic_error("logic_error"); }
void symrt_throw_invalid_argument() { throw std::invalid_argument("invalid_argument"); }
void symrt_throw_runtime_error() { throw std::runtime_error("runtime_error"); }
}
#if __cplusplus <= 201703L
template class std::basic_string<char>; // declared extern by the headers before C++20
#endif
