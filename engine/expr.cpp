#include "expr.h"
ExprPool EP;
u64 foldBin(EOp op, u64 a, u64 b, unsigned w) {
  u64 m = maskw(w);
  switch (op) {
    case E_ADD: return (a + b) & m; case E_SUB: return (a - b) & m; case E_MUL: return (a * b) & m;
    case E_UDIV: return b ? a / b : m; case E_UREM: return b ? a % b : a;
    case E_SDIV: { i64 x = sxt(a, w), y = sxt(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (u64)(x / y) & m; }
    case E_SREM: { i64 x = sxt(a, w), y = sxt(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
    case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
    case E_SHL: return b >= w ? 0 : (a << b) & m; case E_LSHR: return b >= w ? 0 : a >> b;
    case E_ASHR: return (u64)(sxt(a, w) >> (b >= w ? w - 1 : b)) & m;
    case E_EQ: return a == b; case E_ULT: return a < b; case E_ULE: return a <= b;
    case E_SLT: return sxt(a, w) < sxt(b, w); case E_SLE: return sxt(a, w) <= sxt(b, w);
    default: abort();
  }
}
static inline bool isZero(Expr* e) { return isC(e) && e->k == 0; }
static inline bool isOnes(Expr* e) { return isC(e) && e->k == maskw(e->w); }
static inline bool isCmp(EOp o) { return o >= E_EQ && o <= E_SLE; }
static inline bool iteCC(Expr* e) { return e->op == E_ITE && isC(e->b) && isC(e->c); }
Expr* mkNot(Expr* a) {
  if (isC(a)) return mkC(!a->k, 1);
  if (a->op == E_NOT) return a->a;
  if (a->op == E_ULT) return mk(E_ULE, a->b, a->a);
  if (a->op == E_ULE) return mk(E_ULT, a->b, a->a);
  if (a->op == E_SLT) return mk(E_SLE, a->b, a->a);
  if (a->op == E_SLE) return mk(E_SLT, a->b, a->a);
  return EP.raw(E_NOT, 1, 0, a, 0, 0);
}
Expr* mkZext(Expr* a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkC(a->k, w);
  if (a->op == E_ZEXT) return EP.raw(E_ZEXT, w, 0, a->a, 0, 0);
  if (iteCC(a)) return EP.raw(E_ITE, w, 0, a->a, mkC(a->b->k, w), mkC(a->c->k, w));
  return EP.raw(E_ZEXT, w, 0, a, 0, 0);
}
Expr* mkSext(Expr* a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkC((u64)sxt(a->k, a->w), w);
  if (a->op == E_ZEXT) return mkZext(a->a, w);
  if (a->op == E_SEXT) return EP.raw(E_SEXT, w, 0, a->a, 0, 0);
  if (iteCC(a)) return EP.raw(E_ITE, w, 0, a->a, mkC((u64)sxt(a->b->k, a->w), w), mkC((u64)sxt(a->c->k, a->w), w));
  return EP.raw(E_SEXT, w, 0, a, 0, 0);
}
static unsigned trailZ(Expr* e) { if (e->op == E_CONST) return e->k ? __builtin_ctzll(e->k) : e->w; if (e->op == E_CONCAT) { unsigned l = trailZ(e->b); return l < e->b->w ? l : l + trailZ(e->a); } return 0; }
Expr* mkExtract(Expr* a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  switch (a->op) {
    case E_CONST: return mkC(a->k >> lo, w);
    case E_EXTRACT: return mkExtract(a->a, a->lo + lo, w);
    case E_ZEXT: { unsigned sw = a->a->w; if (lo >= sw) return mkC(0, w); if (lo + w <= sw) return mkExtract(a->a, lo, w); return mkZext(mkExtract(a->a, lo, sw - lo), w); }
    case E_SEXT: { unsigned sw = a->a->w; if (lo + w <= sw) return mkExtract(a->a, lo, w); if (lo == 0) return mkSext(a->a, w); break; }
    case E_CONCAT: { unsigned lw = a->b->w; if (lo >= lw) return mkExtract(a->a, lo - lw, w); if (lo + w <= lw) return mkExtract(a->b, lo, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo)); }
    case E_ITE: if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w)); break;
    case E_AND: case E_OR: case E_XOR:
      { auto s = [](Expr* x) { return x->op == E_ZEXT || x->op == E_CONST || x->op == E_CONCAT || x->op == E_EXTRACT; };
        if (s(a->a) || s(a->b)) return mk(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w)); }
      break;
    case E_ADD: case E_SUB: case E_MUL:
      if (lo == 0) { auto s = [&](Expr* x) { return ((x->op == E_ZEXT || x->op == E_SEXT) && x->a->w <= w) || (x->op == E_CONCAT && x->b->w >= w) || x->op == E_CONST; };
        if (a->op == E_MUL || (s(a->a) && s(a->b))) return mk(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); }
      break;
    default: break;
  }
  return EP.raw(E_EXTRACT, w, 0, a, 0, 0, lo);
}
Expr* mkConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w;
  if (w > 64) abort();
  if (isC(hi) && isC(lo)) return mkC((hi->k << lo->w) | lo->k, w);
  if (isZero(hi)) return mkZext(lo, w);
  if (hi->op == E_ZEXT) return mkZext(mkConcat(hi->a, lo), w);
  auto ext = [](Expr* e, Expr*& base, unsigned& l) { if (e->op == E_EXTRACT) { base = e->a; l = e->lo; } else { base = e; l = 0; } };
  Expr *b1, *b2; unsigned l1, l2; ext(hi, b1, l1); ext(lo, b2, l2);
  if (b1 == b2 && !isC(b1) && l1 == l2 + lo->w) return mkExtract(b1, l2, w);
  if (hi->op == E_EXTRACT && l1 == lo->w && mkExtract(b1, 0, l1) == lo) return mkExtract(b1, 0, w); // a low part that was simplified further
  if (lo->op == E_CONCAT) { Expr *b3; unsigned l3; ext(lo->a, b3, l3);
    if ((b1 == b3 && !isC(b1) && l1 == l3 + lo->a->w) || (isC(hi) && isC(lo->a))) return mkConcat(mkConcat(hi, lo->a), lo->b); }
  if (hi->op == E_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo)); // right assoc
  if (hi->op == E_ITE && lo->op == E_ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  return EP.raw(E_CONCAT, w, 0, hi, lo, 0);
}
Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->k ? a : b;
  if (a == b) return a;
  if (c->op == E_NOT) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->k ? c : mkNot(c);
    if (isC(a)) return a->k ? mk(E_OR, c, b) : mk(E_AND, mkNot(c), b);
    if (isC(b)) return b->k ? mk(E_OR, mkNot(c), a) : mk(E_AND, c, a);
  }
  if (a->op == E_ITE && a->a == c) a = a->b;
  if (b->op == E_ITE && b->a == c) b = b->c;
  if (a == b) return a;
  if (b->op == E_ITE && b->b == a) return mkIte(mk(E_OR, c, b->a), a, b->c); // merge same leaf
  return EP.raw(E_ITE, a->w, 0, c, a, b);
}
static int cmpOrder(Expr* a, Expr* b) { return a->id < b->id; }
// unsigned value range of an expression (sound, cheap; ub == 0 means not yet computed unless the expression is 0)
static void range(Expr* e, u64& lo, u64& hi) {
  if (isC(e)) { lo = hi = e->k; return; }
  if (e->ub) { lo = e->lb; hi = e->ub; return; }
  u64 m = maskw(e->w), al, ah, bl, bh; lo = 0; hi = m;
  switch (e->op) {
    case E_ZEXT: range(e->a, lo, hi); break;
    case E_ADD: range(e->a, al, ah); range(e->b, bl, bh); { u64 s; if (!__builtin_add_overflow(ah, bh, &s) && s <= m) { lo = al + bl; hi = s; } else if (isC(e->b) && al >= ((0 - e->b->k) & m)) { u64 n = (0 - e->b->k) & m; lo = al - n; hi = ah - n; } } break;
    case E_SUB: range(e->a, al, ah); range(e->b, bl, bh); if (al >= bh) { lo = al - bh; hi = ah - bl; } break;
    case E_MUL: range(e->a, al, ah); range(e->b, bl, bh); { u64 s; if (!__builtin_mul_overflow(ah, bh, &s) && s <= m) { lo = al * bl; hi = s; } } break;
    case E_UDIV: if (isC(e->b) && e->b->k) { range(e->a, al, ah); lo = al / e->b->k; hi = ah / e->b->k; } break;
    case E_UREM: if (isC(e->b) && e->b->k) { range(e->a, al, ah); hi = std::min(ah, e->b->k - 1); } break;
    case E_AND: range(e->a, al, ah); range(e->b, bl, bh); hi = std::min(ah, bh); break;
    case E_LSHR: if (isC(e->b) && e->b->k < e->w) { range(e->a, al, ah); lo = al >> e->b->k; hi = ah >> e->b->k; } break;
    case E_CONCAT: range(e->a, al, ah); range(e->b, bl, bh); lo = (al << e->b->w) | bl; hi = (ah << e->b->w) | bh; break;
    case E_EXTRACT: range(e->a, al, ah); if (!e->lo && ah <= m) { lo = al; hi = ah; } break;
    case E_ITE: range(e->b, al, ah); range(e->c, bl, bh); lo = std::min(al, bl); hi = std::max(ah, bh); break;
    default: break;
  }
  e->lb = lo; e->ub = hi;
}
Expr* mk(EOp op, Expr* a, Expr* b) {
  if (a->w > 8 && isC(b) && !isC(a)) { unsigned w = a->w; u64 lo, hi, k = b->k, sm = maskw(w) >> 1; EOp o = op;
    if ((o == E_SDIV || o == E_SREM) && k > sm + 1) { range(a, lo, hi); if (hi <= sm) { Expr* q = mk(o, a, mkC(0 - k, w)); return o == E_SDIV ? mk(E_SUB, mkC(0, w), q) : q; } }
    if ((o == E_SDIV || o == E_SREM) && k && k <= sm) { range(a, lo, hi); if (hi <= sm) o = o == E_SDIV ? E_UDIV : E_UREM; }
    if ((o == E_UDIV || o == E_UREM) && k > 1 && (k & (k - 1))) { range(a, lo, hi);
      if (a->op == E_MUL && isC(a->b) && a->b->k == k) { u64 al, ah, z; range(a->a, al, ah); if (!__builtin_mul_overflow(ah, k, &z) && z <= maskw(w)) return o == E_UDIV ? a->a : mkC(0, w); }
      if (lo / k == hi / k) return o == E_UDIV ? mkC(lo / k, w) : mk(E_SUB, a, mkC(lo / k * k, w));
      unsigned n = 64 - __builtin_clzll(hi); n = (n + 7) & ~7u; if (n < w) return mkZext(mk(o, mkExtract(a, 0, n), mkC(k, n)), w); }
    if (o != op) return mk(o, a, b);
    if (op == E_EQ) { range(a, lo, hi); if (k < lo || k > hi) return mkC(0, 1); }
    else if (op == E_ULT || op == E_ULE || ((op == E_SLT || op == E_SLE) && k <= sm)) { range(a, lo, hi); if (op == E_ULT || op == E_ULE || hi <= sm) { bool le = op == E_ULE || op == E_SLE; if (le ? hi <= k : hi < k) return mkC(1, 1); if (le ? lo > k : lo >= k) return mkC(0, 1); } }
    else if ((op == E_SLT || op == E_SLE) && k > sm) { range(a, lo, hi); if (hi <= sm) return mkC(0, 1); } }
  if (a->w > 8 && isC(a) && !isC(b) && (op == E_ULT || op == E_ULE || op == E_SLT || op == E_SLE)) { u64 lo, hi, k = a->k, sm = maskw(b->w) >> 1; bool sg = op == E_SLT || op == E_SLE, le = op == E_ULE || op == E_SLE; range(b, lo, hi);
    if (!sg || (k <= sm && hi <= sm)) { if (le ? k <= lo : k < lo) return mkC(1, 1); if (le ? k > hi : k >= hi) return mkC(0, 1); } else if (k > sm && hi <= sm) return mkC(1, 1); }
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkC(foldBin(op, a->k, b->k, w), isCmp(op) ? 1 : w);
  if (op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ) {
    if (isC(a)) std::swap(a, b);
    else if (!isC(b) && !cmpOrder(a, b)) std::swap(a, b);
  }
  // push ops with constant rhs into ite-of-consts
  if (isC(b) && iteCC(a) && !isCmp(op)) return mkIte(a->a, mk(op, a->b, b), mk(op, a->c, b));
  if (isC(a) && iteCC(b) && !isCmp(op)) return mkIte(b->a, mk(op, a, b->b), mk(op, a, b->c));
  switch (op) {
    case E_ADD:
      if (isC(b)) { if (!b->k) return a; if (a->op == E_ADD && isC(a->b)) return mk(E_ADD, a->a, mkC(a->b->k + b->k, w)); }
      if (w == 1) return mk(E_XOR, a, b);
      if (a->op == E_SUB && a->b == b) return a->a;
      if (b->op == E_SUB && b->b == a) return b->a;
      if (a->op == E_ADD && isC(a->b) && !isC(b)) return mk(E_ADD, mk(E_ADD, a->a, b), a->b);
      if (b->op == E_ADD && isC(b->b)) return mk(E_ADD, mk(E_ADD, a, b->a), b->b);
      break;
    case E_SUB:
      if (isC(b)) return mk(E_ADD, a, mkC(0 - b->k, w));
      if (a == b) return mkC(0, w);
      if (w == 1) return mk(E_XOR, a, b);
      if (a->op == E_ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a;
        if (isC(a->b) && b->op == E_ADD && isC(b->b)) return mk(E_ADD, mk(E_SUB, a->a, b->a), mkC(a->b->k - b->b->k, w)); }
      if (b->op == E_ADD && isC(b->b)) return mk(E_ADD, mk(E_SUB, a, b->a), mkC(0 - b->b->k, w));
      if (a->op == E_ADD && isC(a->b)) return mk(E_ADD, mk(E_SUB, a->a, b), a->b);
      break;
    case E_MUL:
      for (int sw = 0; sw < 2; sw++) { Expr *p = sw ? b : a, *q = sw ? a : b; unsigned k = trailZ(p); if (k && k < w && !isC(p)) return mkConcat(mk(E_MUL, mkExtract(p, k, w - k), mkExtract(q, 0, w - k)), mkC(0, k)); }
      if (isC(b)) { if (!b->k) return b; if (b->k == 1) return a; if (!(b->k & (b->k - 1))) return mk(E_SHL, a, mkC(__builtin_ctzll(b->k), w)); }
      if (w == 1) return mk(E_AND, a, b);
      break;
    case E_UDIV: if (isC(b)) { if (b->k == 1) return a; if (b->k && !(b->k & (b->k - 1))) return mk(E_LSHR, a, mkC(__builtin_ctzll(b->k), w));
        if (b->k && a->op == E_ZEXT) { if (b->k > maskw(a->a->w)) return mkC(0, w); return mkZext(mk(E_UDIV, a->a, mkC(b->k, a->a->w)), w); } } break;
    case E_UREM: if (isC(b)) { if (b->k == 1) return mkC(0, w); if (b->k && !(b->k & (b->k - 1))) return mk(E_AND, a, mkC(b->k - 1, w));
        if (b->k && a->op == E_ZEXT) { if (b->k > maskw(a->a->w)) return a; return mkZext(mk(E_UREM, a->a, mkC(b->k, a->a->w)), w); } } break;
    case E_SDIV: if (isC(b) && b->k == 1) return a;
      if (a->op == E_ZEXT && isC(b) && sxt(b->k, w) > 0) return mk(E_UDIV, a, b); break;
    case E_SREM: if (a->op == E_ZEXT && isC(b) && sxt(b->k, w) > 0) return mk(E_UREM, a, b); break;
    case E_AND:
      if (a == b) return a;
      if (isC(b)) { if (!b->k) return b; if (isOnes(b)) return a;
        if (a->op == E_AND && isC(a->b)) return mk(E_AND, a->a, mkC(a->b->k & b->k, w));
        if (a->op == E_ZEXT) { return mkZext(mk(E_AND, a->a, mkC(b->k, a->a->w)), w); }
        if (a->op == E_CONCAT) return mkConcat(mk(E_AND, a->a, mkC(b->k >> a->b->w, a->a->w)), mk(E_AND, a->b, mkC(b->k, a->b->w)));
        u64 m = b->k; if (!(m & (m + 1))) { unsigned n = __builtin_popcountll(m); return mkZext(mkExtract(a, 0, n), w); }
        { u64 sh = __builtin_ctzll(m); u64 mm = m >> sh; if (!(mm & (mm + 1))) { unsigned n = __builtin_popcountll(mm); Expr* x = mkExtract(a, sh, n); x = mkConcat(x, mkC(0, sh)); return mkZext(x, w); } }
      }
      if (w == 1) { if ((a->op == E_NOT && a->a == b) || (b->op == E_NOT && b->a == a)) return mkC(0, 1); }
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mkZext(mk(E_AND, a->a, b->a), w);
      break;
    case E_OR:
      if (a == b) return a;
      if (isC(b)) { if (!b->k) return a; if (isOnes(b)) return b;
        if (a->op == E_OR && isC(a->b)) return mk(E_OR, a->a, mkC(a->b->k | b->k, w));
        if (a->op == E_CONCAT) return mkConcat(mk(E_OR, a->a, mkC(b->k >> a->b->w, a->a->w)), mk(E_OR, a->b, mkC(b->k, a->b->w)));
        if (a->op == E_ZEXT) { unsigned sw = a->a->w; return mkConcat(mkC(b->k >> sw, w - sw), mk(E_OR, a->a, mkC(b->k, sw))); }
      }
      if (w == 1) { if ((a->op == E_NOT && a->a == b) || (b->op == E_NOT && b->a == a)) return mkC(1, 1); }
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mkZext(mk(E_OR, a->a, b->a), w);
      { // disjoint concat: zext(x) | (y ++ 0)
        for (int t = 0; t < 2; t++) { Expr *x = t ? b : a, *y = t ? a : b;
          if (x->op == E_ZEXT) { Expr* yy = y; unsigned xw = x->a->w;
            if (yy->op == E_ZEXT && yy->a->op == E_CONCAT) { Expr* cc = yy->a; if (isZero(cc->b) && cc->b->w >= xw) return mkZext(mkConcat(cc->a, mkZext(x->a, cc->b->w)), w); }
            if (yy->op == E_CONCAT && isZero(yy->b) && yy->b->w >= xw) return mkConcat(yy->a, mkZext(x->a, yy->b->w)); } } }
      break;
    case E_XOR:
      if (a == b) return mkC(0, w);
      if (isC(b)) { if (!b->k) return a; if (w == 1) return mkNot(a); if (a->op == E_XOR && isC(a->b)) return mk(E_XOR, a->a, mkC(a->b->k ^ b->k, w));
        if (a->op == E_ZEXT && b->k <= maskw(a->a->w)) return mkZext(mk(E_XOR, a->a, mkC(b->k, a->a->w)), w); }
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mkZext(mk(E_XOR, a->a, b->a), w);
      break;
    case E_SHL:
      if (isC(b)) { if (!b->k) return a; if (b->k >= w) return mkC(0, w); return mkConcat(mkExtract(a, 0, w - b->k), mkC(0, b->k)); }
      if (isZero(a)) return a; break;
    case E_LSHR:
      if (isC(b)) { if (!b->k) return a; if (b->k >= w) return mkC(0, w); return mkZext(mkExtract(a, b->k, w - b->k), w); }
      if (isZero(a)) return a; break;
    case E_ASHR:
      if (isC(b)) { if (!b->k) return a; unsigned s = b->k >= w ? w - 1 : b->k; return mkSext(mkExtract(a, s, w - s), w); }
      break;
    case E_EQ:
      if (a == b) return mkC(1, 1);
      if (w == 1) { if (isC(b)) return b->k ? a : mkNot(a); }
      if (isC(b)) {
        if (a->op == E_ZEXT) { if (b->k > maskw(a->a->w)) return mkC(0, 1); return mk(E_EQ, a->a, mkC(b->k, a->a->w)); }
        if (a->op == E_SEXT) { unsigned sw = a->a->w; if ((u64)sxt(b->k, w) != (u64)sxt(b->k & maskw(sw), sw)) return mkC(0, 1); return mk(E_EQ, a->a, mkC(b->k, sw)); }
        if (a->op == E_CONCAT) return mk(E_AND, mk(E_EQ, a->a, mkC(b->k >> a->b->w, a->a->w)), mk(E_EQ, a->b, mkC(b->k, a->b->w)));
        if (a->op == E_ADD && isC(a->b)) return mk(E_EQ, a->a, mkC(b->k - a->b->k, w));
        if (a->op == E_SUB && !b->k) return mk(E_EQ, a->a, a->b);
        if (a->op == E_XOR && isC(a->b)) return mk(E_EQ, a->a, mkC(b->k ^ a->b->k, w));
        if (a->op == E_XOR && !b->k) return mk(E_EQ, a->a, a->b);
        if (a->op == E_ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mk(E_EQ, a->b, b), mk(E_EQ, a->c, b));
      }
      if (a->op == E_ZEXT && b->op == E_ZEXT) { Expr *x = a->a, *y = b->a; unsigned m = x->w > y->w ? x->w : y->w; return mk(E_EQ, mkZext(x, m), mkZext(y, m)); }
      if (a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return mk(E_EQ, a->a, b->a);
      break;
    case E_ULT:
      if (a == b) return mkC(0, 1);
      if (isC(b)) { if (!b->k) return mkC(0, 1); if (b->k == 1) return mk(E_EQ, a, mkC(0, w));
        if (a->op == E_ZEXT) { if (b->k > maskw(a->a->w)) return mkC(1, 1); return mk(E_ULT, a->a, mkC(b->k, a->a->w)); } }
      if (isC(a)) { if (isOnes(a)) return mkC(0, 1); if (a->k == 0) return mkNot(mk(E_EQ, b, a));
        if (b->op == E_ZEXT) { if (a->k >= maskw(b->a->w)) return mkC(0, 1); return mk(E_ULT, mkC(a->k, b->a->w), b->a); } }
      if (a->op == E_ZEXT && b->op == E_ZEXT) { Expr *x = a->a, *y = b->a; unsigned m = x->w > y->w ? x->w : y->w; if (m < w) return mk(E_ULT, mkZext(x, m), mkZext(y, m)); }
      if (isC(b) && a->op == E_ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mk(op, a->b, b), mk(op, a->c, b));
      if (w == 1) return mk(E_AND, mkNot(a), b);
      break;
    case E_ULE:
      if (a == b) return mkC(1, 1);
      if (isC(b)) { if (isOnes(b)) return mkC(1, 1); if (!b->k) return mk(E_EQ, a, b);
        if (a->op == E_ZEXT) { if (b->k >= maskw(a->a->w)) return mkC(1, 1); return mk(E_ULE, a->a, mkC(b->k, a->a->w)); } }
      if (isC(a)) { if (!a->k) return mkC(1, 1); if (isOnes(a)) return mk(E_EQ, a, b);
        if (b->op == E_ZEXT) { if (a->k > maskw(b->a->w)) return mkC(0, 1); return mk(E_ULE, mkC(a->k, b->a->w), b->a); } }
      if (a->op == E_ZEXT && b->op == E_ZEXT) { Expr *x = a->a, *y = b->a; unsigned m = x->w > y->w ? x->w : y->w; if (m < w) return mk(E_ULE, mkZext(x, m), mkZext(y, m)); }
      if (isC(b) && a->op == E_ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mk(op, a->b, b), mk(op, a->c, b));
      if (w == 1) return mk(E_OR, mkNot(a), b);
      break;
    case E_SLT: case E_SLE:
      if (a == b) return mkC(op == E_SLE, 1);
      { EOp u = op == E_SLT ? E_ULT : E_ULE;
        bool za = a->op == E_ZEXT || (isC(a) && sxt(a->k, w) >= 0), zb = b->op == E_ZEXT || (isC(b) && sxt(b->k, w) >= 0);
        if (za && zb) return mk(u, a, b);
        if (za && isC(b)) return mkC(0, 1);           // nonneg < negative const
        if (zb && isC(a)) return mkC(1, 1);
        auto fits = [&](Expr* c, unsigned sw) { return sxt(c->k, w) == sxt(c->k & maskw(sw), sw); };
        if (a->op == E_SEXT && isC(b)) { unsigned sw = a->a->w; if (fits(b, sw)) return mk(op, a->a, mkC(b->k, sw)); return mkC(sxt(b->k, w) > 0, 1); }
        if (b->op == E_SEXT && isC(a)) { unsigned sw = b->a->w; if (fits(a, sw)) return mk(op, mkC(a->k, sw), b->a); return mkC(sxt(a->k, w) < 0, 1); }
        if (a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return mk(op, a->a, b->a);
        if (isC(b) && a->op == E_ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mk(op, a->b, b), mk(op, a->c, b));
        if (op == E_SLT && isC(b) && b->k == 0 ) { Expr* s = mkExtract(a, w - 1, 1); if (isC(s) || s->op != E_EXTRACT) return s; }
      }
      break;
    default: break;
  }
  return EP.raw(op, isCmp(op) ? 1 : w, 0, a, b, 0);
}
static u32 curGen = 1;
void evalNewGen() { curGen++; }
u64 evalExpr(Expr* e, const Model& m) {
  if (e->op == E_CONST) return e->k;
  if (e->op == E_VAR) return e->k < m.v.size() ? m.v[e->k] : 0;
  if (e->gen == curGen) return e->ev;
  u64 r;
  switch (e->op) {
    case E_ITE: r = evalExpr(e->a, m) ? evalExpr(e->b, m) : evalExpr(e->c, m); break;
    case E_ZEXT: r = evalExpr(e->a, m); break;
    case E_SEXT: r = (u64)sxt(evalExpr(e->a, m), e->a->w) & maskw(e->w); break;
    case E_EXTRACT: r = (evalExpr(e->a, m) >> e->lo) & maskw(e->w); break;
    case E_CONCAT: r = (evalExpr(e->a, m) << e->b->w) | evalExpr(e->b, m); break;
    case E_NOT: r = !evalExpr(e->a, m); break;
    default: r = foldBin(e->op, evalExpr(e->a, m), evalExpr(e->b, m), e->a->w);
  }
  e->gen = curGen; e->ev = r; return r;
}
static Z3_sort bvs(Z3_context c, unsigned w) { static Z3_sort s[65]; if (!s[w]) { s[w] = Z3_mk_bv_sort(c, w); Z3_inc_ref(c, Z3_sort_to_ast(c, s[w])); } return s[w]; }
Z3_ast zBool(Z3_context c, Expr* e) {
  if (e->zb) return e->zb;
  Z3_ast r;
  switch (e->op) {
    case E_CONST: r = e->k ? Z3_mk_true(c) : Z3_mk_false(c); break;
    case E_EQ: if (e->a->w == 1) r = Z3_mk_iff(c, zBool(c, e->a), zBool(c, e->b)); else r = Z3_mk_eq(c, zBV(c, e->a), zBV(c, e->b)); break;
    case E_ULT: r = Z3_mk_bvult(c, zBV(c, e->a), zBV(c, e->b)); break;
    case E_ULE: r = Z3_mk_bvule(c, zBV(c, e->a), zBV(c, e->b)); break;
    case E_SLT: r = Z3_mk_bvslt(c, zBV(c, e->a), zBV(c, e->b)); break;
    case E_SLE: r = Z3_mk_bvsle(c, zBV(c, e->a), zBV(c, e->b)); break;
    case E_NOT: r = Z3_mk_not(c, zBool(c, e->a)); break;
    case E_AND: { Z3_ast x[2] = {zBool(c, e->a), zBool(c, e->b)}; r = Z3_mk_and(c, 2, x); break; }
    case E_OR: { Z3_ast x[2] = {zBool(c, e->a), zBool(c, e->b)}; r = Z3_mk_or(c, 2, x); break; }
    case E_XOR: r = Z3_mk_xor(c, zBool(c, e->a), zBool(c, e->b)); break;
    case E_ITE: r = Z3_mk_ite(c, zBool(c, e->a), zBool(c, e->b), zBool(c, e->c)); break;
    default: { r = Z3_mk_eq(c, zBV(c, e), Z3_mk_unsigned_int64(c, 1, bvs(c, 1))); }
  }
  Z3_inc_ref(c, r); e->zb = r; return r;
}
Z3_ast zBV(Z3_context c, Expr* e) {
  if (e->zbv) return e->zbv;
  Z3_ast r;
  if (e->w == 1 && (e->op != E_EXTRACT && e->op != E_CONST)) {
    r = Z3_mk_ite(c, zBool(c, e), Z3_mk_unsigned_int64(c, 1, bvs(c, 1)), Z3_mk_unsigned_int64(c, 0, bvs(c, 1)));
  } else switch (e->op) {
    case E_CONST: r = Z3_mk_unsigned_int64(c, e->k, bvs(c, e->w)); break;
    case E_VAR: { char n[24]; snprintf(n, sizeof n, "b%u", (u32)e->k); r = Z3_mk_const(c, Z3_mk_string_symbol(c, n), bvs(c, 8)); break; }
    case E_ADD: r = Z3_mk_bvadd(c, zBV(c, e->a), zBV(c, e->b)); break;
    case E_SUB: r = Z3_mk_bvsub(c, zBV(c, e->a), zBV(c, e->b)); break;
    case E_MUL: r = Z3_mk_bvmul(c, zBV(c, e->a), zBV(c, e->b)); break;
    case E_UDIV: r = Z3_mk_bvudiv(c, zBV(c, e->a), zBV(c, e->b)); break;
    case E_SDIV: r = Z3_mk_bvsdiv(c, zBV(c, e->a), zBV(c, e->b)); break;
    case E_UREM: r = Z3_mk_bvurem(c, zBV(c, e->a), zBV(c, e->b)); break;
    case E_SREM: r = Z3_mk_bvsrem(c, zBV(c, e->a), zBV(c, e->b)); break;
    case E_AND: r = Z3_mk_bvand(c, zBV(c, e->a), zBV(c, e->b)); break;
    case E_OR: r = Z3_mk_bvor(c, zBV(c, e->a), zBV(c, e->b)); break;
    case E_XOR: r = Z3_mk_bvxor(c, zBV(c, e->a), zBV(c, e->b)); break;
    case E_SHL: r = Z3_mk_bvshl(c, zBV(c, e->a), zBV(c, e->b)); break;
    case E_LSHR: r = Z3_mk_bvlshr(c, zBV(c, e->a), zBV(c, e->b)); break;
    case E_ASHR: r = Z3_mk_bvashr(c, zBV(c, e->a), zBV(c, e->b)); break;
    case E_ITE: r = Z3_mk_ite(c, zBool(c, e->a), zBV(c, e->b), zBV(c, e->c)); break;
    case E_ZEXT: r = Z3_mk_zero_ext(c, e->w - e->a->w, zBV(c, e->a)); break;
    case E_SEXT: r = Z3_mk_sign_ext(c, e->w - e->a->w, zBV(c, e->a)); break;
    case E_EXTRACT: r = Z3_mk_extract(c, e->lo + e->w - 1, e->lo, zBV(c, e->a)); break;
    case E_CONCAT: r = Z3_mk_concat(c, zBV(c, e->a), zBV(c, e->b)); break;
    default: abort();
  }
  Z3_inc_ref(c, r); e->zbv = r; return r;
}
void printExpr(FILE* f, Expr* e, int d) {
  static const char* n[] = {"c","v","+","-","*","u/","s/","u%","s%","&","|","^","<<",">>u",">>s","==","u<","u<=","s<","s<=","ite","zx","sx","ex","cat","!"};
  if (e->op == E_CONST) { fprintf(f, "%llu:%d", (unsigned long long)e->k, e->w); return; }
  if (e->op == E_VAR) { fprintf(f, "b%llu", (unsigned long long)e->k); return; }
  if (d <= 0) { fprintf(f, "..."); return; }
  fprintf(f, "(%s:%d", n[e->op], e->w); if (e->op == E_EXTRACT) fprintf(f, "@%d", e->lo);
  for (Expr* x : {e->a, e->b, e->c}) if (x) { fprintf(f, " "); printExpr(f, x, d - 1); }
  fprintf(f, ")");
}

// ---- support sets and structural hashes
static std::map<std::vector<u32>, Sup*> supTab;
static Sup* supIntern(std::vector<u32> v) { auto it = supTab.find(v); if (it != supTab.end()) return it->second; Sup* s = new Sup{v, supTab.size() + 1}; supTab[v] = s; return s; }
static std::map<std::pair<u64, u64>, Sup*> supJoinTab;
static Sup* supJoin(Sup* a, Sup* b) { if (a == b || b->v.empty()) return a; if (a->v.empty()) return b; auto k = a->id < b->id ? std::make_pair(a->id, b->id) : std::make_pair(b->id, a->id); auto it = supJoinTab.find(k); if (it != supJoinTab.end()) return it->second;
  std::vector<u32> r; std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r)); Sup* s = supIntern(std::move(r)); supJoinTab[k] = s; return s; }
Sup* supOf(Expr* e) {
  if (e->sup) return e->sup; Sup* r;
  if (e->op == E_VAR) r = supIntern({(u32)e->k}); else { r = supIntern({}); if (e->a) r = supJoin(r, supOf(e->a)); if (e->b) r = supJoin(r, supOf(e->b)); if (e->c) r = supJoin(r, supOf(e->c)); }
  return e->sup = r;
}
static inline u64 mixh(u64 h, u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; h *= 0xc4ceb9fe1a85ec53ull; return h ^ (h >> 29); }
void hashOf(Expr* e, u64& x, u64& y) {
  if (!e->h1) { u64 a = mixh(0x1234567ull + e->op, e->w), b = mixh(0x89abcdefull + e->op * 7, e->w + 13); a = mixh(a, e->k); b = mixh(b, e->k ^ 0x5555); a = mixh(a, e->lo); b = mixh(b, e->lo + 77);
    for (Expr* c : {e->a, e->b, e->c}) { u64 p = 1, q = 2; if (c) hashOf(c, p, q); a = mixh(a, p); b = mixh(b, q); } e->h1 = a | 1; e->h2 = b; }
  x = e->h1; y = e->h2;
}
