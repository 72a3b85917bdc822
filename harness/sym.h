// Harness API. Under the symbolic executor these are built-ins; natively they are defined in native.cpp, which
// reads the values of the inputs from a file, so that the same harness replays a counterexample or a witness.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
int64_t sym_int(const char* name, int64_t lo, int64_t hi);
uint32_t sym_u32(const char* name);
double sym_double(const char* name, double lo, double hi);
double sym_any_double(const char* name);                       // any finite or non-finite double (fp mode)
double sym_dyadic(const char* name, int64_t lo, int64_t hi, int k); // integer / 2^k
int sym_choice(const char* name, int n);                       // one of 0..n-1, explored one by one
int64_t sym_param(const char* name, int64_t dflt);
void sym_assume(int c);
void sym_assert(int c, const char* label);
void sym_cover(const char* label);
void sym_obs_i(const char* name, int64_t v);
void sym_obs_d(const char* name, double v);
int64_t sym_value(int64_t v);                                  // enumerate the feasible values of v
int sym_is_engine();
void sym_iso_begin(); void sym_iso_end();                      // what happens in between leaves no trace in globals or older heap objects
int sym_iso_native(void (*f)(void*), void* ctx, uint64_t size); // the same natively: f runs in a child process, only *ctx comes back
int sym_is_symbolic(int64_t v);
void sym_cut(const char* label);                               // end this path here (stated bound)
double sym_log(double d);
double sym_uf1(const char* name, double x, double lo, double hi);
double sym_uf2(const char* name, double x, double y, double lo, double hi);
double sym_free_double(double lo, double hi);
uint64_t sym_objsize(const void* p);
int sym_and(int a, int b);
int sym_or(int a, int b);
int sym_not(int a);
int sym_isnan(double d);
int sym_close(double a, double b, double tol);
int sym_same(double a, double b);
double sym_ite_d(int c, double a, double b);
void sym_main();
}
// run f(ctx) in the state the program is in now, leaving no trace but what it writes to the plain struct ctx (on the stack)
inline void sym_isolated(void (*f)(void*), void* ctx, uint64_t size) { if (sym_is_engine()) { sym_iso_begin(); f(ctx); sym_iso_end(); } else if (!sym_iso_native(f, ctx, size)) sym_assert(0, "an isolated call ends"); }
