#include "expr.hpp"
extern bool g_free;
std::vector<VarInfo> g_vars; std::vector<std::string> g_ufnames; ExprTab T; bool g_dyadic = true; bool g_dymul = true; bool g_assoc = false; static int inAssoc = 0;
static uint64_t g_stamp = 1; uint64_t evalStampNew() { return ++g_stamp; }

E mkC(i128 v, int w) { v = sext128((u128)v, w); return raw(ICONST, w, false, {}, v, 0, [&](Expr* e) { e->lo = e->hi = v; }); }
E mkFC(double d) {
  if (d == 0) d = 0.0; // -0 is not distinguished symbolically
  return raw(FCONST, 64, true, {}, 0, d, [&](Expr* e) { e->flo = e->fhi = d; e->fin = std::isfinite(d); e->mn = std::fabs(d); if (d == 0) e->mn = INF; });
}
static bool full(E e) { return e->lo == smin(e->w) && e->hi == smax(e->w); }
bool wrapsS(E e) {
  E a = e->n > 0 ? e->a[0] : nullptr, b = e->n > 1 ? e->a[1] : nullptr; i128 lo, hi;
  switch (e->op) {
    case ADD: if (e->w >= 128) return false; lo = a->lo + b->lo; hi = a->hi + b->hi; break;
    case SUB: if (e->w >= 128) return false; lo = a->lo - b->hi; hi = a->hi - b->lo; break;
    case MUL: if (!mulIv(a, b, lo, hi)) return true; break;
    default: return false;
  }
  return lo < smin(e->w) || hi > smax(e->w);
}
E mkNot(E a) {
  if (a->isC()) return mkC(!a->c, 1);
  if (a->op == NOT) return a->a[0];
  return raw(NOT, 1, false, {a}, 0, 0, [](Expr* e) { e->lo = 0; e->hi = 1; });
}
static i128 foldBin(Op op, i128 x, i128 y, int w, bool& ok) {
  u128 m = w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); u128 ux = (u128)x & m, uy = (u128)y & m; ok = true; u128 r = 0;
  switch (op) {
    case ADD: r = ux + uy; break; case SUB: r = ux - uy; break; case MUL: r = ux * uy; break;
    case UDIV: if (!uy) { ok = false; return 0; } r = ux / uy; break;
    case UREM: if (!uy) { ok = false; return 0; } r = ux % uy; break;
    case SDIV: if (!y) { ok = false; return 0; } r = (u128)(x / y); break;
    case SREM: if (!y) { ok = false; return 0; } r = (u128)(x % y); break;
    case AND: r = ux & uy; break; case OR: r = ux | uy; break; case XOR: r = ux ^ uy; break;
    case SHL: r = uy >= (u128)w ? 0 : ux << (int)uy; break;
    case LSHR: r = uy >= (u128)w ? 0 : ux >> (int)uy; break;
    case ASHR: r = uy >= (u128)w ? (u128)(x < 0 ? -1 : 0) : (u128)(x >> (int)uy); break;
    default: ok = false;
  }
  return sext128(r, w);
}
static bool pow2(i128 v, int& k) { if (v <= 0) return false; for (k = 0; k < 126; ++k) if (v == ((i128)1 << k)) return true; return false; }
E rebuildSum(Op op, std::vector<E>& l); static void sumLeaves(Op op, E e, std::vector<E>& l);
E mkBin(Op op, E a, E b) {
  int w = a->w; assert(a->w == b->w);
  if (a->isC() && b->isC()) { bool ok; i128 v = foldBin(op, a->c, b->c, w, ok); if (ok) return mkC(v, w); }
  if (w == 1) {
    if (op == ADD || op == SUB) op = XOR;
    if (op == MUL) op = AND;
    if (a->isC()) std::swap(a, b);
    if (op == AND) { if (b->isC()) return b->c ? a : b; if (a == b) return a; if (a == mkNot(b)) return mkFalse(); }
    if (op == OR) { if (b->isC()) return b->c ? b : a; if (a == b) return a; if (a == mkNot(b)) return mkTrue(); }
    if (op == XOR) { if (b->isC()) return b->c ? mkNot(a) : a; if (a == b) return mkFalse(); }
    if (a->id > b->id) std::swap(a, b);
    return raw(op, 1, false, {a, b}, 0, 0, [](Expr* e) { e->lo = 0; e->hi = 1; });
  }
  bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR;
  if (comm && (a->isC() || (!b->isC() && a->id > b->id))) std::swap(a, b);
  if (op == SUB && b->isC()) { return mkBin(ADD, a, mkC(-b->c, w)); }
  if (op == SUB && a == b) return mkC(0, w);
  if (op == SUB && a->op == ADD && a->a[0] == b) return a->a[1];
  if (op == SUB && a->op == ADD && a->a[1] == b) return a->a[0];
  if (op == ADD && b->isC()) {
    if (b->c == 0) return a;
    if (a->op == ADD && a->a[1]->isC()) return mkBin(ADD, a->a[0], mkC(a->a[1]->c + b->c, w));
    if (a->op == SUB && a->a[0]->isC()) return mkBin(SUB, mkC(a->a[0]->c + b->c, w), a->a[1]);
  }
  if (g_assoc && op == ADD && w == 128 && !inAssoc && !a->isC() && !b->isC()) { std::vector<E> l; sumLeaves(ADD, a, l); sumLeaves(ADD, b, l); if (l.size() > 2) { i128 k = 0; std::vector<E> m; for (E x : l) if (x->isC()) k += x->c; else m.push_back(x); E r = rebuildSum(ADD, m); return k ? mkBin(ADD, r, mkC(k, w)) : r; } }
  if (op == ADD && !b->isC()) { // pull constants outward
    if (a->op == ADD && a->a[1]->isC()) return mkBin(ADD, mkBin(ADD, a->a[0], b), a->a[1]);
    if (b->op == ADD && b->a[1]->isC()) return mkBin(ADD, mkBin(ADD, a, b->a[0]), b->a[1]);
    if (b->op == SUB && b->a[1] == a) return b->a[0];
    if (a->op == SUB && a->a[1] == b) return a->a[0];
  }
  if (op == SUB && !b->isC()) {
    if (a->op == ADD && a->a[1]->isC()) return mkBin(ADD, mkBin(SUB, a->a[0], b), a->a[1]);
    if (b->op == ADD && b->a[1]->isC()) return mkBin(ADD, mkBin(SUB, a, b->a[0]), mkC(-b->a[1]->c, w));
  }
  if (op == AND && w > 1 && b->isC()) { if (a->op == AND && a->a[1]->isC()) return mkBin(AND, a->a[0], mkC(a->a[1]->c & b->c, w));
    if (a->op == OR && a->a[1]->isC() && (a->a[1]->c & b->c) == 0) return mkBin(AND, a->a[0], b); }
  if (op == MUL && b->isC()) { if (b->c == 0) return b; if (b->c == 1) return a; if (a->op == MUL && a->a[1]->isC()) return mkBin(MUL, a->a[0], mkC(a->a[1]->c * b->c, w)); }
  if (op == SHL && b->isC() && b->c >= 0 && b->c < w && w <= 64 && a->hi < ((i128)1 << 62) && a->lo > -((i128)1 << 62)) {
    i128 lo = a->lo << (int)b->c, hi = a->hi << (int)b->c; if (lo >= smin(w) && hi <= smax(w)) return mkBin(MUL, a, mkC((i128)1 << (int)b->c, w));
  }
  if ((op == SHL || op == LSHR || op == ASHR) && b->isC() && b->c == 0) return a;
  if ((op == UDIV || op == SDIV) && b->isC() && b->c == 1) return a;
  if (op == AND && b->isC()) {
    if (b->c == 0) return b; if (b->c == -1) return a;
    int k; if (pow2(b->c + 1, k) && a->lo >= 0 && a->hi <= b->c) return a;
  }
  if ((op == OR || op == XOR) && b->isC() && b->c == 0) return a;
  if (op == AND && a == b) return a;
  if (op == OR && a == b) return a;
  if (op == XOR && a == b) return mkC(0, w);
  if (op == UDIV && a->lo >= 0 && b->lo >= 0) op = SDIV;
  if (op == UREM && a->lo >= 0 && b->lo >= 0) op = SREM;
  if (op == ASHR && a->lo >= 0) op = LSHR;
  if (op == SREM && b->isC() && a->lo >= 0 && a->hi < b->c) return a;
  if (op == SDIV && b->isC() && b->c > 0) {
    // exact division of a multiple: (x*c)/c
    if (a->op == MUL && a->a[1]->isC() && a->a[1]->c == b->c && !wrapsS(a)) return a->a[0];
    if (a->lo >= 0 && a->hi < b->c) return mkC(0, w);
  }
  return raw(op, w, false, {a, b}, 0, 0, [&](Expr* e) {
    i128 lo, hi;
    switch (op) {
      case ADD: if (w < 128) setIv(e, a->lo + b->lo, a->hi + b->hi); else { i128 l, h; if (!__builtin_add_overflow(a->lo, b->lo, &l) && !__builtin_add_overflow(a->hi, b->hi, &h)) setIv(e, l, h); } break;
      case SUB: if (w < 128) setIv(e, a->lo - b->hi, a->hi - b->lo); else { i128 l, h; if (!__builtin_sub_overflow(a->lo, b->hi, &l) && !__builtin_sub_overflow(a->hi, b->lo, &h)) setIv(e, l, h); } break;
      case MUL: if (a == b && mulIv(a, a, lo, hi)) { i128 m = std::max(a->lo < 0 ? -a->lo : a->lo, a->hi < 0 ? -a->hi : a->hi); i128 sq = m * m; if (a->lo >= 0) lo = a->lo * a->lo; else lo = 0; setIv(e, lo, sq); } else if (mulIv(a, b, lo, hi)) setIv(e, lo, hi); break;
      case SDIV: if (b->isC() && b->c > 0) setIv(e, a->lo / b->c, a->hi / b->c); else if (a->lo >= 0 && b->lo >= 0) setIv(e, 0, a->hi); break;
      case SREM: if (b->isC() && b->c > 0) setIv(e, a->lo >= 0 ? (i128)0 : -(b->c - 1), b->c - 1); else if (a->lo >= 0 && b->lo >= 0) setIv(e, 0, std::min(a->hi, b->hi)); break;
      case UREM: if (b->isC() && b->c > 0) setIv(e, 0, b->c - 1); break;
      case AND: if (b->isC() && b->c >= 0) setIv(e, 0, b->c); else if (a->lo >= 0 && b->lo >= 0) setIv(e, 0, std::min(a->hi, b->hi)); else if (a->lo >= 0) setIv(e, 0, a->hi); else if (b->lo >= 0) setIv(e, 0, b->hi); break;
      case OR: case XOR: if (a->lo >= 0 && b->lo >= 0) { i128 m = std::max(a->hi, b->hi); i128 p = 1; while (p <= m) p <<= 1; setIv(e, 0, p - 1); } break;
      case LSHR: if (b->isC() && b->c >= 0 && b->c < w) { if (a->lo >= 0) setIv(e, a->lo >> (int)b->c, a->hi >> (int)b->c); else if (b->c > 0) setIv(e, 0, (((i128)1 << (w - (int)b->c)) - 1)); } else if (a->lo >= 0) setIv(e, 0, a->hi); break;
      case ASHR: if (b->isC() && b->c >= 0 && b->c < w) setIv(e, a->lo >> (int)b->c, a->hi >> (int)b->c); break;
      case UDIV: if (b->isC() && b->c > 1 && w < 128) setIv(e, 0, (((i128)1 << w) - 1) / b->c); break;
      default: break;
    }
  });
}
static bool uRange(E a, i128& lo, i128& hi) { // unsigned interval
  if (a->w >= 128) { lo = a->lo; hi = a->hi; return a->lo >= 0; }
  if (a->lo >= 0) { lo = a->lo; hi = a->hi; return true; }
  if (a->hi < 0) { lo = a->lo + ((i128)1 << a->w); hi = a->hi + ((i128)1 << a->w); return true; }
  lo = 0; hi = ((i128)1 << a->w) - 1; return true;
}
E mkCmp(Op op, E a, E b) {
  assert(a->w == b->w);
  if (a == b) return mkC(op == EQ || op == ULE || op == SLE, 1);
  if (a->w == 1) {
    if (op == EQ) return mkNot(mkBin(XOR, a, b));
    if (op == ULT) return mkBin(AND, mkNot(a), b);
    if (op == ULE) return mkBin(OR, mkNot(a), b);
    if (op == SLT) return mkBin(AND, a, mkNot(b));
    if (op == SLE) return mkBin(OR, a, mkNot(b));
  }
  if (a->isC() && b->isC()) {
    u128 m = a->w >= 128 ? ~(u128)0 : (((u128)1 << a->w) - 1); u128 x = (u128)a->c & m, y = (u128)b->c & m;
    switch (op) { case EQ: return mkC(x == y, 1); case ULT: return mkC(x < y, 1); case ULE: return mkC(x <= y, 1); case SLT: return mkC(a->c < b->c, 1); default: return mkC(a->c <= b->c, 1); }
  }
  if (op == ULT || op == ULE) {
    if (a->lo >= 0 && b->lo >= 0) op = op == ULT ? SLT : SLE;
    else if (a->hi < 0 && b->hi < 0) op = op == ULT ? SLT : SLE;
    else { i128 al, ah, bl, bh; uRange(a, al, ah); uRange(b, bl, bh);
      if (op == ULT) { if (ah < bl) return mkTrue(); if (al >= bh) return mkFalse(); } else { if (ah <= bl) return mkTrue(); if (al > bh) return mkFalse(); } }
  }
  if (op == SLT) { if (a->hi < b->lo) return mkTrue(); if (a->lo >= b->hi) return mkFalse(); }
  if (op == SLE) { if (a->hi <= b->lo) return mkTrue(); if (a->lo > b->hi) return mkFalse(); }
  if (op == EQ) {
    if (a->hi < b->lo || b->hi < a->lo) return mkFalse();
    if (a->isC() || (!b->isC() && a->id > b->id)) std::swap(a, b);
    if (b->isC()) {
      if ((a->op == ZEXT || a->op == SEXT)) { E x = a->a[0];
        if (x->w == 1 && a->op == ZEXT) return b->c == 0 ? mkNot(x) : (b->c == 1 ? x : mkFalse());
        E t = mkC(b->c, x->w); i128 back = a->op == SEXT ? t->c : (i128)((u128)t->c & (((u128)1 << x->w) - 1)); if (back != b->c) return mkFalse(); return mkCmp(EQ, x, t); }
      if (a->op == ITE) { E t = mkCmp(EQ, a->a[1], b), f = mkCmp(EQ, a->a[2], b); if (t->isC() && f->isC()) { if (t->c && f->c) return mkTrue(); if (!t->c && !f->c) return mkFalse(); return t->c ? a->a[0] : mkNot(a->a[0]); } if (t->isC() && !t->c) return mkBin(AND, mkNot(a->a[0]), f); if (f->isC() && !f->c) return mkBin(AND, a->a[0], t); }
      if (a->op == ADD && a->a[1]->isC()) return mkCmp(EQ, a->a[0], mkC(b->c - a->a[1]->c, a->w));
    }
  }
  // canonical (non wrapping) shift of constants across signed comparisons
  if ((op == SLT || op == SLE)) {
    if (b->isC() && a->op == ADD && a->a[1]->isC() && !wrapsS(a)) { i128 v; if (!__builtin_sub_overflow(b->c, a->a[1]->c, &v) && v >= smin(a->w) && v <= smax(a->w)) return mkCmp(op, a->a[0], mkC(v, a->w)); }
    if (a->isC() && b->op == ADD && b->a[1]->isC() && !wrapsS(b)) { i128 v; if (!__builtin_sub_overflow(a->c, b->a[1]->c, &v) && v >= smin(a->w) && v <= smax(a->w)) return mkCmp(op, mkC(v, a->w), b->a[0]); }
    if (b->isC() && (a->op == SEXT || (a->op == ZEXT && a->a[0]->lo >= 0)) && a->a[0]->w > 1 && b->c >= smin(a->a[0]->w) && b->c <= smax(a->a[0]->w)) return mkCmp(op, a->a[0], mkC(b->c, a->a[0]->w));
    if (a->isC() && (b->op == SEXT || (b->op == ZEXT && b->a[0]->lo >= 0)) && b->a[0]->w > 1 && a->c >= smin(b->a[0]->w) && a->c <= smax(b->a[0]->w)) return mkCmp(op, mkC(a->c, b->a[0]->w), b->a[0]);
    // boolean-ish ite against constants
    if (b->isC() && a->op == ITE) { E t = mkCmp(op, a->a[1], b), f = mkCmp(op, a->a[2], b); if (t->isC() && f->isC()) return t->c == f->c ? t : (t->c ? a->a[0] : mkNot(a->a[0])); }
    if (a->isC() && b->op == ITE) { E t = mkCmp(op, a, b->a[1]), f = mkCmp(op, a, b->a[2]); if (t->isC() && f->isC()) return t->c == f->c ? t : (t->c ? b->a[0] : mkNot(b->a[0])); }
  }
  if (op == SLE) { return mkNot(mkCmp(SLT, b, a)); }
  if (op == ULE) { return mkNot(mkCmp(ULT, b, a)); }
  return raw(op, 1, false, {a, b}, 0, 0, [](Expr* e) { e->lo = 0; e->hi = 1; });
}
E mkExt(Op op, E a, int w) {
  if (w == a->w) return a;
  if (a->isC()) {
    if (op == ZEXT) return mkC((i128)((u128)a->c & (((u128)1 << a->w) - 1)), w);
    if (op == SEXT) return a->w == 1 ? mkC(a->c ? -1 : 0, w) : mkC(a->c, w);
    return mkC(a->c, w);
  }
  if (op == SEXT && a->w == 1) return mkIte(a, mkC(-1, w), mkC(0, w));
  if (op == SEXT && a->lo >= 0) op = ZEXT;
  if (op == TRUNC) {
    if (a->op == ZEXT || a->op == SEXT) { E x = a->a[0]; if (x->w == w) return x; if (x->w < w) return mkExt(a->op, x, w); return mkExt(TRUNC, x, w); }
    if (a->op == TRUNC) return mkExt(TRUNC, a->a[0], w);
    if (a->op == ITE) return mkIte(a->a[0], mkExt(TRUNC, a->a[1], w), mkExt(TRUNC, a->a[2], w));
    if (w > 1 && (a->op == ADD) && a->a[1]->isC()) return mkBin(ADD, mkExt(TRUNC, a->a[0], w), mkC(a->a[1]->c, w));
  } else {
    if (a->op == op) return mkExt(op, a->a[0], w);
    if (op == SEXT && a->op == ZEXT) return mkExt(ZEXT, a->a[0], w);
    if (op == ZEXT && a->op == ZEXT) return mkExt(ZEXT, a->a[0], w);
    if (a->op == TRUNC) { E x = a->a[0];
      bool fits = op == SEXT ? (x->lo >= smin(a->w) && x->hi <= smax(a->w)) : (x->lo >= 0 && x->hi < ((i128)1 << a->w));
      if (fits) { if (x->w == w) return x; if (x->w > w) return mkExt(TRUNC, x, w); return mkExt(x->lo >= 0 ? ZEXT : SEXT, x, w); } }
    if (a->op == ITE && a->a[1]->isC() && a->a[2]->isC()) return mkIte(a->a[0], mkExt(op, a->a[1], w), mkExt(op, a->a[2], w));
    // push extension through non-wrapping arithmetic with constants so that terms stay linear & canonical
    if (a->op == ADD && a->a[1]->isC() && !wrapsS(a) && (op == SEXT || (a->lo >= 0 && a->a[0]->lo >= 0) || (op == ZEXT && a->lo >= 0))) return mkBin(ADD, mkExt(SEXT, a->a[0], w), mkExt(SEXT, a->a[1], w));
  }
  return raw(op, w, false, {a}, 0, 0, [&](Expr* e) {
    if (op == SEXT) setIv(e, a->lo, a->hi);
    else if (op == ZEXT) { i128 lo, hi; uRange(a, lo, hi); setIv(e, lo, hi); }
    else if (a->lo >= smin(w) && a->hi <= smax(w)) setIv(e, a->lo, a->hi);
    if (w == 1) { e->lo = 0; e->hi = 1; }
  });
}
E mkIte(E c, E a, E b) {
  if (c->isC()) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == NOT) return mkIte(c->a[0], b, a);
  if (a->fp) {
    if (g_dyadic && (a->op == FDY || a->isFC()) && (b->op == FDY || b->isFC()) && a->fin && b->fin) {
      auto asDy = [](E x, E& ie, int& k) -> bool { if (x->op == FDY) { ie = x->a[0]; k = (int)x->c; return true; }
        int ex; double m = std::frexp(x->d, &ex); if (x->d == 0) { ie = mkC(0, 128); k = 0; return true; } int sh = 0; while (m != std::floor(m) && sh < 60) { m *= 2; --ex; ++sh; } // x = m*2^ex
        if (ex >= 0) { if (ex > 52) return false; ie = mkC((i128)m << ex, 128); k = 0; } else { k = -ex; if (k > 110) return false; ie = mkC((i128)m, 128); } return true; };
      E i1, i2; int k1, k2; if (asDy(a, i1, k1) && asDy(b, i2, k2)) { int k = std::max(k1, k2); i128 l; if (satMul(std::max(i1->hi, -i1->lo), (i128)1 << (k - k1), l) && satMul(std::max(i2->hi, -i2->lo), (i128)1 << (k - k2), l)) return mkDy(mkIte(c, mkBin(MUL, i1, mkC((i128)1 << (k - k1), 128)), mkBin(MUL, i2, mkC((i128)1 << (k - k2), 128))), k); }
    }
    return raw(FITE, 64, true, {c, a, b}, 0, 0, [&](Expr* e) { e->flo = std::min(a->flo, b->flo); e->fhi = std::max(a->fhi, b->fhi); e->mn = std::min(a->mn, b->mn); e->fin = a->fin && b->fin; });
  }
  if (a->w == 1) {
    if (a->isC() && b->isC()) return a->c ? c : mkNot(c);
    if (a->isC()) return a->c ? mkBin(OR, c, b) : mkBin(AND, mkNot(c), b);
    if (b->isC()) return b->c ? mkBin(OR, mkNot(c), a) : mkBin(AND, c, a);
  }
  return raw(ITE, a->w, false, {c, a, b}, 0, 0, [&](Expr* e) { setIv(e, std::min(a->lo, b->lo), std::max(a->hi, b->hi)); });
}
// ---------------------------------------------------------------- floating point
static const i128 P53 = (i128)1 << 53;
E mkDy(E ie, int k) { // value ie / 2^k, must be exactly representable: |ie| <= 2^53
  if (ie->isC()) return mkFC(std::ldexp((double)ie->c, -k));
  while (k > 0 && ie->op == MUL && ie->a[1]->isC() && (ie->a[1]->c & 1) == 0 && ie->a[1]->c != 0) { ie = mkBin(MUL, ie->a[0], mkC(ie->a[1]->c / 2, 128)); --k; }
  return raw(FDY, 64, true, {ie}, k, 0, [&](Expr* e) { e->flo = std::ldexp(i2d(ie->lo), -k); e->fhi = std::ldexp(i2d(ie->hi), -k); if (e->flo > e->fhi) std::swap(e->flo, e->fhi); e->mn = std::ldexp(1.0, -k); if (ie->lo > 0) e->mn = e->flo; e->fin = true; });
}
static bool toDy(E x, E& ie, int& k) {
  if (!g_dyadic) return false;
  if (x->op == FDY) { ie = x->a[0]; k = (int)x->c; return true; }
  if (x->isFC() && std::isfinite(x->d)) {
    if (x->d == 0) { ie = mkC(0, 128); k = 0; return true; }
    int ex; double m = std::frexp(x->d, &ex); int sh = 0; while (m != std::floor(m) && sh < 60) { m *= 2; --ex; ++sh; }
    if (ex >= 0) { if (ex > 60) return false; ie = mkC((i128)m << ex, 128); k = 0; } else { k = -ex; if (k > 110) return false; ie = mkC((i128)m, 128); }
    return true;
  }
  return false;
}
static bool fitsDy(E ie) { return ie->lo >= -P53 && ie->hi <= P53; }
static bool scaleUp(E ie, int s, E& r) { if (s == 0) { r = ie; return true; } if (s > 115) return false; i128 l, h; i128 f = (i128)1 << s; if (!satMul(ie->lo, f, l) || !satMul(ie->hi, f, h)) return false; if (l < -((i128)1 << 120) || h > ((i128)1 << 120)) return false; r = mkBin(MUL, ie, mkC(f, 128)); return true; }

// --assoc: sums are kept as sorted chains, so that the order of summation does not matter
static void sumLeaves(Op op, E e, std::vector<E>& l) { if (e->op == op) { sumLeaves(op, e->a[0], l); sumLeaves(op, e->a[1], l); } else l.push_back(e); }
E rebuildSum(Op op, std::vector<E>& l) { std::sort(l.begin(), l.end(), [](E x, E y) { return x->id < y->id; }); ++inAssoc; E r = l[0]; for (size_t i = 1; i < l.size(); ++i) r = op == FADD ? mkF(FADD, r, l[i]) : mkBin(ADD, r, l[i]); --inAssoc; return r; }
static void ivF(Expr* e, double lo, double hi) { if (std::isnan(lo) || std::isnan(hi)) { e->flo = -INF; e->fhi = INF; e->fin = false; return; } e->flo = lo; e->fhi = hi; e->fin = lo >= -DMAX && hi <= DMAX; }
static bool excl0(E x) { return x->flo > 0 || x->fhi < 0; }
E mkF(Op op, E a, E b) {
  if (op == SITOFP || op == UITOFP) {
    if (a->isC()) { if (op == SITOFP) return mkFC(a->w == 1 ? (a->c ? -1.0 : 0.0) : (double)a->c); u128 u = (u128)a->c & (a->w >= 128 ? ~(u128)0 : (((u128)1 << a->w) - 1)); return mkFC((double)u); }
    i128 lo = a->lo, hi = a->hi; E x = a;
    if (op == UITOFP) { if (a->lo >= 0) op = SITOFP; else { x = mkExt(ZEXT, a, 128); lo = x->lo; hi = x->hi; } }
    if (g_dyadic && lo >= -P53 && hi <= P53) return mkDy(op == UITOFP ? x : mkExt(SEXT, a, 128), 0);
    if (op == UITOFP) { a = x; op = SITOFP; }
    return raw(SITOFP, 64, true, {a}, 0, 0, [&](Expr* e) { e->flo = dn(i2d(a->lo)); e->fhi = up(i2d(a->hi)); if (a->lo >= 0 && e->flo < 0) e->flo = 0; e->mn = 1; e->fin = true; e->hasAx = true; });
  }
  auto fc = [](E x) { return x->op == FCONST; };
  if (fc(a) && (!b || fc(b))) {
    double x = a->d, y = b ? b->d : 0;
    switch (op) {
      case FADD: return mkFC(x + y); case FSUB: return mkFC(x - y); case FMUL: return mkFC(x * y); case FDIV: return mkFC(x / y);
      case FNEG: return mkFC(-x); case FABS: return mkFC(std::fabs(x)); case FSQRT: return mkFC(std::sqrt(x)); case FFLOOR: return mkFC(std::floor(x)); case FCEIL: return mkFC(std::ceil(x)); case FTRUNC: return mkFC(std::trunc(x)); case FROUND: return mkFC(std::round(x)); default: break;
    }
  }
  switch (op) {
    case FADD: if (fc(a)) std::swap(a, b); if (fc(b) && b->d == 0) return a; break;
    case FSUB: if (fc(b) && b->d == 0) return a; if (a == b && a->fin) return mkFC(0); break;
    case FMUL: if (fc(a)) std::swap(a, b); if (fc(b) && b->d == 1) return a; if (fc(b) && b->d == 0 && a->fin) return mkFC(0); break;
    case FDIV: if (fc(b) && b->d == 1) return a; if (a == b && a->fin && excl0(a)) return mkFC(1); if (fc(a) && a->d == 0 && b->fin && excl0(b)) return mkFC(0); break;
    case FNEG: if (a->op == FNEG) return a->a[0]; break;
    case FABS: if (a->flo >= 0 && a->fin) return a; if (a->op == FABS) return a; if (a->op == FNEG) return mkF(FABS, a->a[0]); break;
    case FFLOOR: case FCEIL: case FTRUNC: case FROUND: if (a->op == FDY && a->c == 0) return a; if (a->op == op) return a; break;
    default: break;
  }
  E i1, i2, r1, r2; int k1, k2;
  if (toDy(a, i1, k1)) {
    if (b && toDy(b, i2, k2)) {
      if (op == FADD || op == FSUB) { int k = std::max(k1, k2); if (scaleUp(i1, k - k1, r1) && scaleUp(i2, k - k2, r2)) { E s = mkBin(op == FADD ? ADD : SUB, r1, r2); if (fitsDy(s)) return mkDy(s, k); } }
      if (op == FMUL && g_dymul && (!g_free || i1->isC() || i2->isC())) { i128 lo, hi; if (mulIv(i1, i2, lo, hi) && k1 + k2 < 500) { E s = mkBin(MUL, i1, i2); if (fitsDy(s)) return mkDy(s, k1 + k2);
          // constant factors with trailing zeros do not matter for exactness
          } }
      if (op == FDIV && i2->isC()) { int p; if (pow2(i2->c, p)) { // x / 2^(p-k2)
          int k = k1 + p - k2; if (k >= 0 && k < 500) return mkDy(i1, k); } }
      if (op == FDIV && i2->isC() && i2->c == 0) { /* inf/nan */ }
    } else if (!b) {
      if (op == FNEG) return mkDy(mkBin(SUB, mkC(0, 128), i1), k1);
      if (op == FABS) { E neg = mkBin(SUB, mkC(0, 128), i1); E r = mkIte(mkCmp(SLT, i1, mkC(0, 128)), neg, i1); Expr* q = const_cast<Expr*>(r); if (!r->isC() && r->op == ITE && r->lo < 0) { q->lo = 0; q->hi = std::max(i1->hi, -i1->lo); } return mkDy(r, k1); }
      if (op == FFLOOR || op == FCEIL || op == FTRUNC || op == FROUND) {
        E P = mkC((i128)1 << k1, 128), zero = mkC(0, 128); E neg = mkBin(SUB, zero, i1); E isneg = mkCmp(SLT, i1, zero); E ab = mkIte(isneg, neg, i1); if (ab->op == ITE) { Expr* q = const_cast<Expr*>(ab); q->lo = 0; q->hi = std::max(i1->hi, -i1->lo); }
        E q;
        if (op == FTRUNC) q = mkBin(SDIV, ab, P);
        else if (op == FROUND) q = mkBin(SDIV, mkBin(ADD, ab, mkC((i128)1 << (k1 - 1), 128)), P);
        else { E up = mkBin(SDIV, mkBin(ADD, ab, mkC(((i128)1 << k1) - 1, 128)), P), dnn = mkBin(SDIV, ab, P); if (op == FFLOOR) return mkDy(mkIte(isneg, mkBin(SUB, zero, up), dnn), 0); return mkDy(mkIte(isneg, mkBin(SUB, zero, dnn), up), 0); }
        return mkDy(mkIte(isneg, mkBin(SUB, zero, q), q), 0);
      }
    }
  }
  if (g_assoc && op == FADD && !inAssoc) { std::vector<E> l; sumLeaves(FADD, a, l); sumLeaves(FADD, b, l); if (l.size() > 2) return rebuildSum(FADD, l); }
  if ((op == FADD || op == FMUL) && !fc(b) && a->id > b->id) std::swap(a, b);
  std::vector<E> args{a}; if (b) args.push_back(b);
  return raw(op, 64, true, args, 0, 0, [&](Expr* e) {
    e->hasAx = true;
    bool fin = a->fin && (!b || b->fin);
    switch (op) {
      case FADD: ivF(e, dn(a->flo + b->flo), up(a->fhi + b->fhi)); if (a->flo >= 0 && b->flo >= 0) { e->flo = std::max(e->flo, std::max(a->flo, b->flo)); e->mn = std::min(a->mn, b->mn); } if (a->fhi <= 0 && b->fhi <= 0) { e->fhi = std::min(e->fhi, 0.0); e->mn = std::min(a->mn, b->mn); } break;
      case FSUB: ivF(e, dn(a->flo - b->fhi), up(a->fhi - b->flo)); if (a->flo >= b->fhi) e->flo = std::max(e->flo, 0.0); break;
      case FMUL: { auto m = [](double x, double y) { return (x == 0 || y == 0) ? 0.0 : x * y; };
        double p[4] = {m(a->flo, b->flo), m(a->flo, b->fhi), m(a->fhi, b->flo), m(a->fhi, b->fhi)}; double lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4); if (a == b && a->flo < 0) lo = 0; if (a == b) lo = std::max(lo, 0.0);
        ivF(e, dn(lo), up(hi)); if (lo >= 0 && e->flo < 0) e->flo = 0; if (hi <= 0 && e->fhi > 0) e->fhi = 0; e->mn = (a->mn == INF || b->mn == INF) ? INF : a->mn * b->mn * (1 - 1e-15); if (e->mn < 1e-300) e->mn = 0; break; }
      case FDIV: if (excl0(b)) { double p[4] = {a->flo / b->flo, a->flo / b->fhi, a->fhi / b->flo, a->fhi / b->fhi}; double lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4); ivF(e, dn(lo), up(hi)); if (lo >= 0 && e->flo < 0) e->flo = 0; if (hi <= 0 && e->fhi > 0) e->fhi = 0; }
        else if (b->mn > 0 && b->mn < INF) { // denominators bounded away from zero when non-zero: finite unless b == 0 (tracked by bad)
          double m = std::max(std::fabs(a->flo), std::fabs(a->fhi)) / b->mn; e->flo = up(m) * -1; e->fhi = up(m); if (a->flo >= 0 && b->flo >= 0) e->flo = 0; fin = false; }
        else fin = false;
        { double mb = std::max(std::fabs(b->flo), std::fabs(b->fhi)); e->mn = a->mn == INF ? INF : (a->mn / mb * (1 - 1e-15)); if (!(e->mn > 1e-300)) e->mn = 0; } break;
      case FNEG: e->flo = -a->fhi; e->fhi = -a->flo; e->mn = a->mn; e->fin = true; break;
      case FABS: e->flo = a->flo > 0 ? a->flo : (a->fhi < 0 ? -a->fhi : 0); e->fhi = std::max(std::fabs(a->flo), std::fabs(a->fhi)); e->mn = a->mn; e->fin = true; break;
      case FSQRT: if (a->flo >= 0) { e->flo = std::max(0.0, dn(std::sqrt(a->flo))); e->fhi = up(std::sqrt(a->fhi)); e->mn = a->mn == INF ? INF : std::sqrt(a->mn) * (1 - 1e-15); e->fin = true; } else { e->flo = 0; fin = false; } break;
      case FFLOOR: case FCEIL: case FTRUNC: case FROUND: e->flo = std::floor(a->flo); e->fhi = std::ceil(a->fhi); e->mn = 1; e->fin = true; break;
      default: break;
    }
    e->fin = e->fin && fin;
  });
}
E mkFCmp(Op op, E a, E b) { // FEQ, FLT, FLE (ordered)
  if (a->isFC() && b->isFC()) { double x = a->d, y = b->d; return mkC(op == FEQ ? x == y : op == FLT ? x < y : x <= y, 1); }
  if (a->isFC() && std::isnan(a->d)) return mkFalse();
  if (b->isFC() && std::isnan(b->d)) return mkFalse();
  if (a == b && a->fin) return mkC(op != FLT, 1);
  if (a->fin && b->fin) {
    if (op == FLT) { if (a->fhi < b->flo) return mkTrue(); if (a->flo >= b->fhi) return mkFalse(); }
    if (op == FLE) { if (a->fhi <= b->flo) return mkTrue(); if (a->flo > b->fhi) return mkFalse(); }
    if (op == FEQ) { if (a->fhi < b->flo || b->fhi < a->flo) return mkFalse(); }
  }
  E i1, i2, r1, r2; int k1, k2;
  if (toDy(a, i1, k1) && toDy(b, i2, k2)) { int k = std::max(k1, k2); if (scaleUp(i1, k - k1, r1) && scaleUp(i2, k - k2, r2)) return mkCmp(op == FEQ ? EQ : op == FLT ? SLT : SLE, r1, r2); }
  // comparison of products / quotients / sums against zero, when no underflow is possible
  E z = mkFC(0);
  if ((b == z || a == z)) {
    E x = b == z ? a : b; bool left = (b == z); // x op 0  or 0 op x
    if (x->fin && x->mn > 0 && x->mn != INF) {
      if (x->op == FMUL || x->op == FDIV) {
        E p = x->a[0], q = x->a[1];
        if (x->flo >= 0 && p->flo >= 0 && q->flo >= 0) {
          E pos = x->op == FMUL ? mkBin(AND, mkFCmp(FLT, z, p), mkFCmp(FLT, z, q)) : mkFCmp(FLT, z, p);
          if (op == FEQ) return mkNot(pos); if (left) return op == FLT ? mkFalse() : mkNot(pos); return op == FLT ? pos : mkTrue();
        }
        if (op == FEQ) return x->op == FMUL ? mkBin(OR, mkFCmp(FEQ, p, z), mkFCmp(FEQ, q, z)) : mkFCmp(FEQ, p, z);
      }
      if (x->op == FADD && x->a[0]->flo >= 0 && x->a[1]->flo >= 0) {
        E pos = mkBin(OR, mkFCmp(FLT, z, x->a[0]), mkFCmp(FLT, z, x->a[1]));
        if (op == FEQ) return mkNot(pos); if (left) return op == FLT ? mkFalse() : mkNot(pos); return op == FLT ? pos : mkTrue();
      }
    }
    if (x->fin && x->op == FITE) { E t = left ? mkFCmp(op, x->a[1], z) : mkFCmp(op, z, x->a[1]), f = left ? mkFCmp(op, x->a[2], z) : mkFCmp(op, z, x->a[2]); return mkIte(x->a[0], t, f); }
    if (x->fin && (x->op == FSQRT || x->op == FABS) ) { E y = x->a[0]; E nz = mkNot(mkFCmp(FEQ, y, z)); if (op == FEQ) return mkNot(nz); if (left) return op == FLT ? mkFalse() : mkNot(nz); return op == FLT ? nz : mkTrue(); }
    if (x->op == FSUB && op == FEQ && x->fin) return mkFCmp(FEQ, x->a[0], x->a[1]);
    if (x->op == FSUB && x->fin) { if (left) return mkFCmp(op, x->a[0], x->a[1]); return mkFCmp(op, x->a[1], x->a[0]); }
  }
  if (a->op == FITE && a->fin && b->fin && (b->isFC())) { E t = mkFCmp(op, a->a[1], b), f = mkFCmp(op, a->a[2], b); if (t->isC() || f->isC()) return mkIte(a->a[0], t, f); }
  if (b->op == FITE && a->fin && b->fin && (a->isFC())) { E t = mkFCmp(op, a, b->a[1]), f = mkFCmp(op, a, b->a[2]); if (t->isC() || f->isC()) return mkIte(b->a[0], t, f); }
  if (op == FEQ && a->id > b->id) std::swap(a, b);
  if (op == FLE && a->fin && b->fin) return mkNot(mkFCmp(FLT, b, a));
  return raw(op, 1, false, {a, b}, 0, 0, [](Expr* e) { e->lo = 0; e->hi = 1; });
}
E mkUF(const std::string& name, const std::vector<E>& args, bool fp, int w, double lo, double hi, bool fin) {
  int idx = -1; for (size_t i = 0; i < g_ufnames.size(); ++i) if (g_ufnames[i] == name) idx = i;
  if (idx < 0) { idx = g_ufnames.size(); g_ufnames.push_back(name); }
  return raw(UF, w, fp, args, idx, 0, [&](Expr* e) { e->hasAx = true; if (fp) { e->flo = lo; e->fhi = hi; e->fin = fin; e->mn = 0; } });
}
// ---------------------------------------------------------------- concrete evaluation
static double ufEval(const std::string& n, const std::vector<double>& a) {
  if (n == "log") return std::log(a[0]); if (n == "exp") return std::exp(a[0]); if (n == "lgamma") return std::lgamma(a[0]); if (n == "tgamma") return std::tgamma(a[0]);
  if (n == "erf") return std::erf(a[0]); if (n == "atan") return std::atan(a[0]); if (n == "pow") return std::pow(a[0], a[1]); if (n == "fmod") return std::fmod(a[0], a[1]); if (n=="erfc") return std::erfc(a[0]); if (n=="log1p") return std::log1p(a[0]); if (n=="expm1") return std::expm1(a[0]);
  if (n == "cos") return std::cos(a[0]); if (n == "sin") return std::sin(a[0]); if (n=="fma") return std::fma(a[0],a[1],a[2]);
  throw EvalFail();
}
i128 evalI(E e, const Assign& as) {
  if (e->op == ICONST) return e->c;
  if (e->stamp == as.stamp) { if (!e->evOk) throw EvalFail(); return e->ev; }
  e->stamp = as.stamp; e->evOk = false; i128 r = 0; int w = e->w;
  auto A = [&](int i) { return evalI(e->a[i], as); };
  switch (e->op) {
    case VAR: if ((size_t)e->c >= as.iv.size()) throw EvalFail(); r = sext128((u128)as.iv[(size_t)e->c], w); break;
    case VARDEF: r = 1; { E v = e->a[0]; if (!v->fp) { i128 x = A(0); r = x >= v->lo && x <= v->hi; } else { double x = evalF(v, as); r = !(v->fin) || (x >= v->flo && x <= v->fhi); } } break;
    case NOT: r = !A(0); break;
    case ITE: r = A(0) ? A(1) : A(2); break;
    case ZEXT: { i128 v = A(0); r = (i128)((u128)v & (((u128)1 << e->a[0]->w) - 1)); r = sext128((u128)r, w); break; }
    case SEXT: { i128 v = A(0); r = e->a[0]->w == 1 ? (v ? -1 : 0) : v; r = sext128((u128)r, w); break; }
    case TRUNC: r = sext128((u128)A(0), w); break;
    case EQ: r = A(0) == A(1); break; case SLT: r = A(0) < A(1); break; case SLE: r = A(0) <= A(1); break;
    case ULT: case ULE: { int aw = e->a[0]->w; u128 m = aw >= 128 ? ~(u128)0 : (((u128)1 << aw) - 1); u128 x = (u128)A(0) & m, y = (u128)A(1) & m; r = e->op == ULT ? x < y : x <= y; break; }
    case CTTZ: { u128 v = (u128)A(0) & (((u128)1 << w) - 1); r = w; for (int i = 0; i < w; ++i) if ((v >> i) & 1) { r = i; break; } break; }
    case CTLZ: { u128 v = (u128)A(0) & (((u128)1 << w) - 1); r = w; for (int i = 0; i < w; ++i) if ((v >> (w - 1 - i)) & 1) { r = i; break; } break; }
    case CTPOP: { u128 v = (u128)A(0) & (((u128)1 << w) - 1); r = 0; for (int i = 0; i < w; ++i) r += (int)((v >> i) & 1); break; }
    case FPTOSI: case FPTOUI: { double x = evalF(e->a[0], as); double l = e->op == FPTOSI ? (double)smin(w) : 0; double h = e->op == FPTOSI ? -(double)smin(w) : std::ldexp(1.0, w); if (std::isnan(x) || x >= h || (e->op == FPTOSI ? std::trunc(x) < l : x <= -1)) r = e->op == FPTOSI ? smin(w) : (i128)smin(w); else r = sext128((u128)(i128)x, w); break; }
    case F2BITS: { double x = evalF(e->a[0], as); int64_t b; memcpy(&b, &x, 8); r = b; break; }
    case FEQ: r = evalF(e->a[0], as) == evalF(e->a[1], as); break; case FLT: r = evalF(e->a[0], as) < evalF(e->a[1], as); break; case FLE: r = evalF(e->a[0], as) <= evalF(e->a[1], as); break;
    case FISNAN: r = std::isnan(evalF(e->a[0], as)); break;
    case UF: throw EvalFail();
    default: { bool ok; i128 x = A(0), y = A(1); if (w == 1) { switch (e->op) { case AND: r = x & y; break; case OR: r = x | y; break; default: r = x ^ y; } } else { r = foldBin(e->op, x, y, w, ok); if (!ok) throw EvalFail(); } }
  }
  e->ev = r; e->evOk = true; return r;
}
double evalF(E e, const Assign& as) {
  if (e->op == FCONST) return e->d;
  if (e->stamp == as.stamp) { if (!e->evOk) throw EvalFail(); return e->dv; }
  e->stamp = as.stamp; e->evOk = false; double r = 0;
  auto A = [&](int i) { return evalF(e->a[i], as); };
  switch (e->op) {
    case FVAR: if ((size_t)e->c >= as.dv.size()) throw EvalFail(); r = as.dv[(size_t)e->c]; break;
    case FDY: r = std::ldexp((double)evalI(e->a[0], as), -(int)e->c); break;
    case FADD: r = A(0) + A(1); break; case FSUB: r = A(0) - A(1); break; case FMUL: r = A(0) * A(1); break; case FDIV: r = A(0) / A(1); break;
    case FNEG: r = -A(0); break; case FABS: r = std::fabs(A(0)); break; case FSQRT: r = std::sqrt(A(0)); break; case FFLOOR: r = std::floor(A(0)); break; case FCEIL: r = std::ceil(A(0)); break; case FTRUNC: r = std::trunc(A(0)); break; case FROUND: r = std::round(A(0)); break;
    case SITOFP: r = (double)evalI(e->a[0], as); break; case UITOFP: { u128 u = (u128)evalI(e->a[0], as); int w = e->a[0]->w; if (w < 128) u &= ((u128)1 << w) - 1; r = (double)u; break; }
    case FITE: r = evalI(e->a[0], as) ? A(1) : A(2); break;
    case BITS2F: { int64_t b = (int64_t)evalI(e->a[0], as); memcpy(&r, &b, 8); break; }
    case FLOG: r = std::log(A(0)); break;
    case UF: { std::vector<double> v; for (int i = 0; i < e->n; ++i) v.push_back(e->a[i]->fp ? A(i) : (double)evalI(e->a[i], as)); r = ufEval(g_ufnames[(size_t)e->c], v); break; }
    default: throw EvalFail();
  }
  e->dv = r; e->evOk = true; return r;
}
static std::string i2s(i128 v) { if (v == 0) return "0"; bool neg = v < 0; u128 u = neg ? (u128)-v : (u128)v; std::string s; while (u) { s = char('0' + (int)(u % 10)) + s; u /= 10; } return neg ? "-" + s : s; }
std::string show(E e, int depth) {
  if (e->op == ICONST) return i2s(e->c); if (e->op == FCONST) { char b[40]; snprintf(b, 40, "%.17g", e->d); return b; }
  if (e->op == VAR || e->op == FVAR) return g_vars[(size_t)e->c].name;
  if (depth <= 0) return "..";
  std::string s = std::string("(") + (e->op == UF ? g_ufnames[(size_t)e->c] : opName(e->op)) + (e->op == FDY ? "/2^" + i2s(e->c) : "") + (e->op == TRUNC || e->op == ZEXT || e->op == SEXT ? i2s(e->w) : "");
  for (int i = 0; i < e->n; ++i) s += " " + show(e->a[i], depth - 1); return s + ")";
}
