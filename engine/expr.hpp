// Hash-consed expression DAG over machine integers and IEEE doubles.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <limits>
#include <cassert>
#include <functional>
#include <cfenv>
#include <algorithm>

typedef __int128 i128;
typedef unsigned __int128 u128;
static const double INF = std::numeric_limits<double>::infinity();
static const double DMAX = std::numeric_limits<double>::max();

enum Op : uint8_t {
  VAR, ICONST, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  ZEXT, SEXT, TRUNC, ITE, NOT, EQ, ULT, ULE, SLT, SLE, CTTZ, CTLZ, CTPOP,
  FPTOSI, FPTOUI, F2BITS, FEQ, FLT, FLE, FISNAN, VARDEF,
  // floating point valued
  FCONST, FVAR, FDY, FADD, FSUB, FMUL, FDIV, FNEG, FABS, FSQRT, FFLOOR, FCEIL, FTRUNC, FROUND,
  SITOFP, UITOFP, FITE, UF, BITS2F, FLOG, FMINMAX_UNUSED
};
static const char* opName(Op o) {
  static const char* n[] = {"VAR","ICONST","ADD","SUB","MUL","UDIV","SDIV","UREM","SREM","AND","OR","XOR","SHL","LSHR","ASHR",
  "ZEXT","SEXT","TRUNC","ITE","NOT","EQ","ULT","ULE","SLT","SLE","CTTZ","CTLZ","CTPOP","FPTOSI","FPTOUI","F2BITS","FEQ","FLT","FLE","FISNAN","VARDEF",
  "FCONST","FVAR","FDY","FADD","FSUB","FMUL","FDIV","FNEG","FABS","FSQRT","FFLOOR","FCEIL","FTRUNC","FROUND","SITOFP","UITOFP","FITE","UF","BITS2F","FLOG","?"};
  return n[o];
}

struct Expr {
  Op op; uint8_t n; uint16_t w; bool fp; bool hasAx; bool hasUF; bool hasFP;
  uint32_t id;
  const Expr** a;
  i128 c;          // ICONST value (signed canonical; 0/1 for w=1); VAR/FVAR: variable index; FDY: k ; UF: name index
  double d;        // FCONST
  i128 lo, hi;     // signed interval (ints)
  double flo, fhi, mn; bool fin; // fp interval (valid if not NaN), min nonzero magnitude (0 = unknown), definitely finite
  mutable void* z[3] = {nullptr,nullptr,nullptr};   // cached Z3_ast per mode
  mutable void* zbad = nullptr;
  mutable bool zdone[3] = {false,false,false};
  mutable int axIdx = -1;
  mutable uint32_t mark = 0;
  mutable uint64_t stamp = 0; mutable i128 ev = 0; mutable double dv = 0; mutable bool evOk = false;
  const Expr* arg(int i) const { return a[i]; }
  bool isC() const { return op == ICONST; }
  bool isFC() const { return op == FCONST; }
};
typedef const Expr* E;

struct VarInfo { std::string name; bool fp; int w; i128 lo, hi; double flo, fhi; bool any; E e; };
extern std::vector<VarInfo> g_vars;
extern std::vector<std::string> g_ufnames;
extern bool g_dyadic;      // exact dyadic domain on
extern bool g_dymul, g_assoc;

inline i128 sext128(u128 v, int w) { if (w >= 128) return (i128)v; u128 m = ((u128)1 << w) - 1; v &= m; if (w == 1) return (i128)v; if (v >> (w - 1)) return (i128)(v | ~m); return (i128)v; }
inline i128 smin(int w) { return w == 1 ? 0 : (w >= 128 ? ((i128)1 << 126) * -2 : -((i128)1 << (w - 1))); }
inline i128 smax(int w) { return w == 1 ? 1 : (w >= 128 ? ~(((i128)1 << 126) * -2) : ((i128)1 << (w - 1)) - 1); }
inline uint64_t maskw(uint64_t v, int w) { return w >= 64 ? v : (v & ((1ull << w) - 1)); }

struct ExprTab {
  std::vector<Expr*> buckets; size_t cnt = 0; uint32_t nextId = 1;
  ExprTab() : buckets(1 << 16, nullptr) {}
  std::vector<Expr*> all;
  struct Link { };
  std::unordered_multimap<uint64_t, Expr*> tab;
  static uint64_t hsh(Op op, int w, const std::vector<E>& a, i128 c, double d) {
    uint64_t h = op * 1315423911ull + w * 2654435761ull;
    for (auto x : a) h = (h ^ x->id) * 0x9E3779B97F4A7C15ull, h ^= h >> 29;
    h ^= (uint64_t)c * 0xD6E8FEB86659FD93ull; h ^= (uint64_t)(c >> 64) * 0xA0761D6478BD642Full;
    uint64_t b; memcpy(&b, &d, 8); h ^= b * 0xE7037ED1A0B428DBull; h ^= h >> 32;
    return h;
  }
  Expr* get(Op op, int w, bool fp, const std::vector<E>& a, i128 c, double d, bool& isNew) {
    uint64_t h = hsh(op, w, a, c, d);
    auto r = tab.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) {
      Expr* e = it->second;
      if (e->op != op || e->w != w || e->n != a.size() || e->c != c || memcmp(&e->d, &d, 8)) continue;
      bool same = true; for (size_t i = 0; i < a.size(); ++i) if (e->a[i] != a[i]) { same = false; break; }
      if (same) { isNew = false; return e; }
    }
    Expr* e = new Expr(); e->op = op; e->w = w; e->fp = fp; e->n = a.size(); e->c = c; e->d = d; e->id = nextId++;
    e->a = a.empty() ? nullptr : new E[a.size()]; for (size_t i = 0; i < a.size(); ++i) e->a[i] = a[i];
    e->hasAx = false; e->hasUF = (op == UF || op == FLOG); e->hasFP = fp;
    for (auto x : a) { e->hasAx |= x->hasAx; e->hasUF |= x->hasUF; e->hasFP |= x->hasFP; }
    tab.emplace(h, e); isNew = true; return e;
  }
};
extern ExprTab T;

// ---------------------------------------------------------------- constructors
E mkC(i128 v, int w);
inline E mkTrue() { return mkC(1, 1); }
inline E mkFalse() { return mkC(0, 1); }
E mkFC(double d);
E mkBin(Op op, E a, E b);
E mkNot(E a);
E mkCmp(Op op, E a, E b);
E mkExt(Op op, E a, int w);
E mkIte(E c, E a, E b);
E mkF(Op op, E a, E b = nullptr);
E mkFCmp(Op op, E a, E b);
E mkUF(const std::string& name, const std::vector<E>& args, bool fp, int w, double lo = -INF, double hi = INF, bool fin = true);
E mkDy(E ie, int k);

inline E raw(Op op, int w, bool fp, const std::vector<E>& a, i128 c, double d, const std::function<void(Expr*)>& init) {
  bool nw; Expr* e = T.get(op, w, fp, a, c, d, nw); if (nw) { e->lo = smin(w); e->hi = smax(w); e->flo = -INF; e->fhi = INF; e->mn = 0; e->fin = false; init(e); }
  return e;
}
inline void setIv(Expr* e, i128 lo, i128 hi) { if (lo >= smin(e->w) && hi <= smax(e->w)) { e->lo = lo; e->hi = hi; } else { e->lo = smin(e->w); e->hi = smax(e->w); } }

inline bool satMul(i128 a, i128 b, i128& r) { return !__builtin_mul_overflow(a, b, &r); }
inline bool mulIv(E a, E b, i128& lo, i128& hi) {
  i128 p[4]; if (!satMul(a->lo, b->lo, p[0]) || !satMul(a->lo, b->hi, p[1]) || !satMul(a->hi, b->lo, p[2]) || !satMul(a->hi, b->hi, p[3])) return false;
  lo = hi = p[0]; for (int i = 1; i < 4; ++i) { lo = std::min(lo, p[i]); hi = std::max(hi, p[i]); } return true;
}
// would the mathematical result of op leave the signed range?
bool wrapsS(E e);

inline double up(double x) { return std::nextafter(x, INF); }
inline double dn(double x) { return std::nextafter(x, -INF); }
inline double i2d(i128 v) { return (double)v; }

uint64_t evalStampNew();
struct Assign { std::vector<i128> iv; std::vector<double> dv; uint64_t stamp; bool valid = true; };
struct EvalFail {};
i128 evalI(E e, const Assign& as);
double evalF(E e, const Assign& as);
std::string show(E e, int depth = 6);
