// symx: hash-consed bit-vector expressions, simplifier, evaluation, Z3 translation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <iterator>
#include <z3.h>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32; typedef uint8_t u8; typedef uint16_t u16;
enum EOp : u8 { E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT, E_NOT };
struct Expr { EOp op; u8 w; u16 lo; u32 id; u64 k; Expr *a, *b, *c; Z3_ast zbv, zb; u32 gen; u32 hash; u64 ev; struct Sup* sup; u64 h1, h2, lb, ub; };
static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sxt(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

struct ExprPool {
  std::vector<Expr*> tab; u64 count = 0; char* arena = nullptr; size_t left = 0; u32 gen = 1;
  ExprPool() { tab.assign(1 << 16, nullptr); }
  Expr* raw(EOp op, unsigned w, u64 k, Expr* a, Expr* b, Expr* c, unsigned lo = 0) {
    u64 h = op * 0x9E3779B97F4A7C15ull ^ w * 0xD6E8FEB86659FD93ull ^ k * 0xff51afd7ed558ccdull ^ (u64)lo * 0x2545F4914F6CDD1Dull;
    h ^= (h >> 29); h += (a ? a->id : 0) * 0x9E3779B1ull; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 31; h += (b ? b->id : 0) * 0x85EBCA77ull; h *= 0x94d049bb133111ebull; h ^= h >> 30; h += (c ? c->id : 0) * 0xC2B2AE3Dull; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
    size_t m = tab.size() - 1, i = h & m;
    while (Expr* e = tab[i]) {
      if (e->hash == (u32)h && e->op == op && e->w == w && e->k == k && e->a == a && e->b == b && e->c == c && e->lo == lo) return e;
      i = (i + 1) & m;
    }
    if (left < sizeof(Expr)) { left = 1 << 20; arena = (char*)malloc(left); }
    Expr* e = (Expr*)arena; arena += sizeof(Expr); left -= sizeof(Expr);
    memset(e, 0, sizeof *e); e->op = op; e->w = w; e->k = k; e->a = a; e->b = b; e->c = c; e->lo = lo; e->hash = (u32)h; e->id = (u32)++count;
    tab[i] = e;
    if (count * 2 > tab.size()) { std::vector<Expr*> t(tab.size() * 2, nullptr); size_t mm = t.size() - 1;
      for (Expr* x : tab) if (x) { size_t j = rehash(x) & mm; while (t[j]) j = (j + 1) & mm; t[j] = x; } tab.swap(t); }
    return e;
  }
  u64 rehash(Expr* x) { return fullhash(x); }
  static u64 fullhash(Expr* x) {
    u64 h = x->op * 0x9E3779B97F4A7C15ull ^ x->w * 0xD6E8FEB86659FD93ull ^ x->k * 0xff51afd7ed558ccdull ^ (u64)x->lo * 0x2545F4914F6CDD1Dull;
    h ^= (h >> 29); h += (x->a ? x->a->id : 0) * 0x9E3779B1ull; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 31; h += (x->b ? x->b->id : 0) * 0x85EBCA77ull; h *= 0x94d049bb133111ebull; h ^= h >> 30; h += (x->c ? x->c->id : 0) * 0xC2B2AE3Dull; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; return h; }
  Expr* cst(u64 v, unsigned w) { return raw(E_CONST, w, v & maskw(w), 0, 0, 0); }
  Expr* var(u32 idx) { return raw(E_VAR, 8, idx, 0, 0, 0); }
};
extern ExprPool EP;
static inline bool isC(Expr* e) { return e->op == E_CONST; }
Expr* mk(EOp op, Expr* a, Expr* b);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkZext(Expr* a, unsigned w);
Expr* mkSext(Expr* a, unsigned w);
Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkNot(Expr* a);
static inline Expr* mkC(u64 v, unsigned w) { return EP.cst(v, w); }
u64 foldBin(EOp op, u64 a, u64 b, unsigned w);
// evaluation under a byte model
struct Model { std::vector<u8> v; };
struct Sup { std::vector<u32> v; u64 id; };
Sup* supOf(Expr* e);           // the byte variables an expression depends on
void hashOf(Expr* e, u64& a, u64& b); // 128-bit structural hash, stable across processes
void evalNewGen();
u64 evalExpr(Expr* e, const Model& m);
Z3_ast zBV(Z3_context c, Expr* e);
Z3_ast zBool(Z3_context c, Expr* e);
void printExpr(FILE* f, Expr* e, int depth);
