// Native side of the harness API: inputs come from a file of "name value" lines.
#include "sym.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <string>
#include <unistd.h>
#include <sys/wait.h>
#include <csignal>
static std::map<std::string, std::string> in; static std::map<std::string, long> par; static std::map<std::string, int> cnt; static bool failed = false;
static std::string uniq(const char* n) { int k = cnt[n]++; return k ? std::string(n) + "@" + std::to_string(k) : std::string(n); }
static bool get(const std::string& n, std::string& v) { auto i = in.find(n); if (i == in.end()) return false; v = i->second; return true; }
extern "C" {
int64_t sym_int(const char* n, int64_t lo, int64_t hi) { std::string v, u = uniq(n); int64_t r = lo; if (get(u, v)) r = strtoll(v.c_str(), 0, 0); if (r < lo || r > hi) { printf("ASSUME range %s\n", u.c_str()); fflush(stdout); _exit(3); } return r; }
uint32_t sym_u32(const char* n) { std::string v; if (get(uniq(n), v)) return (uint32_t)strtoll(v.c_str(), 0, 0); return 0; }
double sym_double(const char* n, double lo, double hi) { std::string v; double r = lo; if (get(uniq(n), v)) r = strtod(v.c_str(), 0); if (!(r >= lo && r <= hi)) { printf("ASSUME range %s\n", n); fflush(stdout); _exit(3); } return r; }
double sym_any_double(const char* n) { std::string v; if (get(uniq(n), v)) return strtod(v.c_str(), 0); return 0; }
double sym_dyadic(const char* n, int64_t lo, int64_t, int k) { std::string v; if (get(uniq(n), v)) return strtod(v.c_str(), 0); return std::ldexp((double)lo, -k); }
int sym_choice(const char* n, int) { auto p = par.find(n); std::string v; std::string u = uniq(n); if (p != par.end()) return (int)p->second; if (get(u, v)) return atoi(v.c_str()); return 0; }
int64_t sym_param(const char* n, int64_t d) { auto p = par.find(n); return p != par.end() ? p->second : d; }
void sym_assume(int c) { if (!c) { printf("ASSUME\n"); fflush(stdout); _exit(3); } }
void sym_assert(int c, const char* l) { if (!c) { printf("FAIL %s\n", l); fflush(stdout); failed = true; } }
void sym_cover(const char* l) { printf("COVER %s\n", l); }
void sym_obs_i(const char* n, int64_t v) { printf("OBS %s %lld\n", n, (long long)v); }
void sym_obs_d(const char* n, double v) { printf("OBS %s %a\n", n, v); }
int64_t sym_value(int64_t v) { return v; }
int sym_is_engine() { return 0; }
void sym_iso_begin() {} void sym_iso_end() {}
int sym_iso_native(void (*f)(void*), void* ctx, uint64_t size) {
  int p[2]; if (pipe(p)) return 0; fflush(stdout); pid_t c = fork(); if (c < 0) return 0;
  if (c == 0) { close(p[0]); f(ctx); for (uint64_t k = 0; k < size;) { ssize_t w = write(p[1], (char*)ctx + k, size - k); if (w <= 0) _exit(1); k += w; } _exit(0); }
  close(p[1]); uint64_t k = 0; while (k < size) { ssize_t r = read(p[0], (char*)ctx + k, size - k); if (r <= 0) break; k += r; } close(p[0]); int st; waitpid(c, &st, 0); return k == size;
}
int sym_is_symbolic(int64_t) { return 0; }
void sym_cut(const char* l) { printf("CUT %s\n", l); fflush(stdout); _exit(failed ? 1 : 0); }
double sym_log(double d) { return std::log(d); }
double sym_uf1(const char*, double, double lo, double) { return lo; }
double sym_uf2(const char*, double, double, double lo, double) { return lo; }
double sym_free_double(double lo, double) { return lo; }
uint64_t sym_objsize(const void*) { return 0; }
int sym_and(int a, int b) { return a && b; }
int sym_or(int a, int b) { return a || b; }
int sym_not(int a) { return !a; }
int sym_isnan(double d) { return std::isnan(d); }
int sym_close(double a, double b, double t) { return std::fabs(a - b) <= t || a == b; }
int sym_same(double a, double b) { return a == b; }
double sym_ite_d(int c, double a, double b) { return c ? a : b; }
}
static void onsig(int s) { const char* m = s == SIGALRM ? "\nFAIL hang\n" : "\nFAIL signal\n"; (void)!write(1, m, strlen(m)); _exit(s == SIGALRM ? 4 : 5); }
int main(int argc, char** argv) { // replay INPUTS TIMEOUT [k=v...]
  std::ifstream f(argv[1]); std::string line; while (std::getline(f, line)) { auto p = line.find(' '); if (p != std::string::npos) in[line.substr(0, p)] = line.substr(p + 1); }
  int t = argc > 2 ? atoi(argv[2]) : 20; for (int i = 3; i < argc; ++i) { std::string s = argv[i]; auto e = s.find('='); par[s.substr(0, e)] = strtol(s.c_str() + e + 1, 0, 0); }
  setvbuf(stdout, 0, _IOLBF, 0); signal(SIGALRM, onsig); alarm(t);
  try { sym_main(); } catch (std::exception& e) { printf("FAIL uncaught %s\n", e.what()); failed = true; } catch (...) { printf("FAIL uncaught\n"); failed = true; }
  printf("END\n"); fflush(stdout); _exit(failed ? 1 : 0);
}
namespace unittest { struct Logger; const Logger& run(); __attribute__((weak)) const Logger& run() { abort(); } }
