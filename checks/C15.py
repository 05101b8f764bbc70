import sxlib as S
N = 6 if S.THOROUGH else 4
BOUNDS = "texts of up to 4 (thorough: 6) arbitrary bytes, and texts of 100..300 bytes with two arbitrary ones; every value of the integer types, enums, pairs, arrays and nested tuples of them"
OUTSIDE = "floats, pointers, unions, how evenly hashes spread"
ASSUMPTIONS = []
P = ("u64", "u64", "u8")
PN = "akm"
RET = "u64"
PRE = """
extern func tx_(k: u32): string
extern func tn_(k: u32): u64
extern func lg_(k: u32, n: u64): string
enum Col: u8 { Red, Green = 5, Blue = 100 }
struct Key { x: u32; const func `hash`(): HashCode => (x * 3) as HashCode }
"""
CPRE = r"""
#include <ctype.h>
#define NT %d
static char T[4][NT + 1]; static int TN[4] = {-1,-1,-1,-1};
static void need(int k) { if (TN[k] >= 0) return; TN[k] = sx_choice(k > 1 ? 3 : NT + 1, "n"); for (int i = 0; i < TN[k]; i++) { T[k][i] = sx_u8("t"); sx_assume(T[k][i] != 0); } }
const char *tx_(uint32_t k) { need(k); return T[k]; }
uint64_t tn_(uint32_t k) { need(k); return TN[k]; }
static char L[2][320];
const char *lg_(uint32_t k, uint64_t n) { for (uint64_t i = 0; i < n; i++) L[k][i] = 'a' + i %% 26; L[k][n] = 0; L[k][2] = sx_u8("l"); L[k][n - 1] = sx_u8("l"); sx_assume(L[k][2] != 0 && L[k][n - 1] != 0); return L[k]; }
#define FP 0x01000193u
static uint32_t h8(uint32_t h, uint8_t x) { return (h ^ x) * FP; }
static uint32_t hb(uint32_t h, const void *p, uint64_t n) { for (uint64_t i = 0; i < n; i++) h = h8(h, ((const uint8_t *)p)[i]); return h; }
static uint32_t hi(uint32_t h, uint64_t v, int n) { while (n--) { h = h8(h, (uint8_t)v); v >>= 8; } return h; }
static uint32_t hg(uint32_t h, const char *p, uint64_t n) { for (uint64_t i = 0; i < n; i++) { h = h8(h, (uint8_t)toupper(p[i])); } return h; }
""" % N
def lit(n): return "hb(FP, L[0], %d)" % n
D = [
 # texts
 ("return hash(tx_(0)) as u64", "need(0); return hb(FP, T[0], TN[0]);"),
 ("return hash(tx_(0), a as u32) as u64", "need(0); return hb((uint32_t)a, T[0], TN[0]);"),
 ("return hash_fnv1a_string(a as u32, tx_(0)) as u64", "need(0); return hb((uint32_t)a, T[0], TN[0]);"),
 ("var s = String(tx_(0)); return hash(&s) as u64", "need(0); return hb(FP, T[0], TN[0]);"),
 ("var s = String(tx_(0)); s << 'x'; return hash(&s) as u64", "need(0); return h8(hb(FP, T[0], TN[0]), 'x');"),
 ("var s = __string(tx_(0), tn_(0)); return hash(&s) as u64", "need(0); return hb(FP, T[0], TN[0]);"),
 ("const s = __string(\"hello\"); return hash(&s) as u64", "return hb(FP, \"hello\", 5);"),
 ("return hash(\"\") as u64", "return FP;"),
 ("return hash_fnv1a_n_string(a as u32, tx_(0), tn_(0)) as u64", "need(0); return hb((uint32_t)a, T[0], TN[0]);"),
 ("return hash_fnv1a_bytes(a as u32, tx_(0) !: ^const void, tn_(0)) as u64", "need(0); return hb((uint32_t)a, T[0], TN[0]);"),
 ("return hash_fnv1a_string_igc(a as u32, tx_(2)) as u64", "need(2); return hg((uint32_t)a, T[2], TN[2]);"),
 ("return hash_fnv1a_string_n_igc(a as u32, tx_(2) !: ^const char, tn_(2)) as u64", "need(2); return hg((uint32_t)a, T[2], TN[2]);"),
 # integers
 ] + [("const x = a as %s; return hash(x, k as u32) as u64" % t, "return hi((uint32_t)b, a, %d);" % n) for t, n in [("i8",1),("u8",1),("i16",2),("u16",2),("i32",4),("u32",4),("i64",8),("u64",8)]] + [
 ("const x = (a as u32 & 127) as char; return hash(x) as u64", "return hi(FP, a & 127, 1);"),
 ("const x = (a as u32 & 0xffff) as wchar; return hash(x) as u64", "return hi(FP, a & 0xffff, 4);"),
 ("return hash_fnv1a_uint64(hash_fnv1a_uint16(7`u32, k as u16), a) as u64", "return hi(hi(7, b, 2), a, 8);"),
 ("var c = Col.Red; if (m > 3) c = .Green; if (m > 9) c = .Blue; return hash(c) as u64", "return hi(FP, c > 9 ? 100 : c > 3 ? 5 : 0, 8);"),
 # compounds
 ("const x = (m, a as u32); return hash(&x) as u64", "return hi(hi(FP, c, 1), a, 4);"),
 ("const x = (tx_(0), m); return hash(&x) as u64", "need(0); return hi(hb(FP, T[0], TN[0]), c, 1);"),
 ("const x = [a as u32, k as u32, 7`u32]; return hash(x) as u64", "return hi(hi(hi(FP, a, 4), b, 4), 7, 4);"),
 ("const x = Key{x: a as u32}; return hash(&x) as u64", "return (uint32_t)a * 3;"),
 # equal values hash alike
 ("const x = String(tx_(2)); const y = String(tx_(3)); return (x == &y && hash(&x) != hash(&y)) ? 0 : 1", "return 1;"),
 ("const x = __string(tx_(2), tn_(2)); const y = __string(tx_(3), tn_(3)); return (x == &y && hash(&x) != hash(&y)) ? 0 : 1", "return 1;"),
 ("const x = String(tx_(0)); return hash(&x) == hash(tx_(0)) ? 1 : 0", "return 1;"),
]
for n in (100, 127, 128, 129, 255, 256, 300):
    D.append(("return hash(lg_(0, %d)) as u64" % n, "return %s;" % lit(n)))
    D.append(("const s = String(lg_(0, %d)); return hash(&s) as u64" % n, "return %s;" % lit(n)))
    D.append(("return hash_fnv1a_string_igc(7`u32, lg_(0, %d)) as u64" % n, "return hg(7, L[0], %d);" % n))
PRE += "".join("func d%d(a: u64, k: u64, m: u8): u64 { %s }\n" % (i, d[0]) for i, d in enumerate(D))
CASES = [("return d%d(a, b, c)" % i, d[1], d[2] if len(d) > 2 else "", d[0]) for i, d in enumerate(D)]
def units(work):
    yield S.cases_unit("hash", work, CASES, params=P, ret="u64", pre=PRE, cpre=CPRE, mm=True, what="hashing", time_s=800)
