import sxlib as S
N = 9 if S.THOROUGH else 7
NU = 5 if S.THOROUGH else 4
M = 8 if S.THOROUGH else 6
BOUNDS = "every byte string of up to 7 (thorough: 9) bytes encoded and decoded again (url decoding: 4, thorough: 5); every text of up to 6 (thorough: 8) bytes over letters, padding and foreign bytes decoded"
OUTSIDE = "which malformed url safe texts are rejected; streams that fail; unused bits of the last character of an encoding are not checked to be zero"
ASSUMPTIONS = ["the streams written to are memory strings (C14 covers the others)"]
P = ("u32", "u8", "u8")
PN = "akm"
RET = "u64"
PRE = """
import "stdlib/base64.cxy" as base64
extern func in_(): ^const void
extern func inn_(): u64
extern func enc_(): ^const void
extern func encn_(): u64
extern func uenc_(): ^const void
extern func uencn_(): u64
extern func bad_(): ^const void
extern func badn_(): u64
extern func out_(p: ^const void, n: u64): u64
func D(p: ^const void, n: u64): !u64 { var s = String(); base64.decodeBuffer(&s, p, n); out_(s.data() !: ^const void, s.size()); return 1`u64 }
func U(p: ^const void, n: u64): !u64 { var s = String(); base64.urlDecodeBuffer(&s, p, n); out_(s.data() !: ^const void, s.size()); return 1`u64 }
func DS(p: __string): !u64 { var s = String(); base64.decode(&s, &p); out_(s.data() !: ^const void, s.size()); return 1`u64 }
"""
CPRE = r"""
#include <stdlib.h>
#define N %d
#define M %d
#define NU %d
static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", UA[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
static uint8_t T[N + 1], E[40], *X, *BB; static int lim = N, n = -1, en, bn = -1; static uint8_t O[64]; static uint64_t ON; static int got;
static void need(void) { if (n >= 0) return; n = sx_choice(lim + 1, "n"); for (int i = 0; i < n; i++) T[i] = sx_u8("d"); X = malloc(n ? n : 1); for (int i = 0; i < n; i++) X[i] = T[i]; }
static uint8_t ch(int url, uint32_t v) { return (url ? UA : A)[v & 63]; }
static void ref(int url) { need(); en = 0; for (int i = 0; i < n; i += 3) { uint32_t v = (uint32_t)T[i] << 16 | (i + 1 < n ? (uint32_t)T[i + 1] << 8 : 0) | (i + 2 < n ? T[i + 2] : 0);
  E[en++] = ch(url, v >> 18); E[en++] = ch(url, v >> 12); if (i + 1 < n) E[en++] = ch(url, v >> 6); else if (!url) E[en++] = '='; if (i + 2 < n) E[en++] = ch(url, v); else if (!url) E[en++] = '='; } }
static void *dup(void) { uint8_t *p = malloc(en ? en : 1); for (int i = 0; i < en; i++) p[i] = E[i]; return p; }
const void *in_(void) { need(); return X; }
uint64_t inn_(void) { need(); return n; }
const void *enc_(void) { ref(0); return dup(); }
uint64_t encn_(void) { ref(0); return en; }
const void *uenc_(void) { ref(1); return dup(); }
uint64_t uencn_(void) { ref(1); return en; }
/* a text: every byte of one of four kinds, its value arbitrary */
static uint8_t K[16];
static int kind(uint8_t c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; }
static void needb(void) { if (bn >= 0) return; bn = sx_choice(M + 1, "n"); BB = malloc(bn ? bn : 1); for (int i = 0; i < bn; i++) { K[i] = sx_choice(3, "k"); uint8_t c = sx_u8("c"); BB[i] = K[i] == 0 ? 'Q' + (c & 7) : K[i] == 1 ? '=' : c; if (K[i] == 2) sx_assume(sx_and(c != '=', sx_and(c != '+', sx_and(c != '/', sx_and(sx_or(c < '0', c > '9'), sx_and(sx_or(c < 'A', c > 'Z'), sx_or(c < 'a', c > 'z'))))))); } }
const void *bad_(void) { needb(); return BB; }
uint64_t badn_(void) { needb(); return bn; }
uint64_t out_(const void *p, uint64_t k) { got = 1; ON = k; for (uint64_t i = 0; i < k && i < 64; i++) O[i] = ((const uint8_t *)p)[i]; return 1; }
static int eqn(const uint8_t *p, int k) { if (!got || ON != (uint64_t)k) return 0; int r = 1; for (int i = 0; i < k; i++) r &= O[i] == p[i]; return r; }
static int valid(void) { if (bn %% 4) return 0; int i = 0; while (i < bn && K[i] == 0) i++; int q = i; while (i < bn && K[i] == 1) i++; return i == bn && bn - q <= 2; }
static int odd(void) { return bn %% 4; }
""" % (N, M, NU)
D = [
 ("var s = String(); base64.encodeBuffer(&s, in_(), inn_()); return out_(s.data() !: ^const void, s.size())", "ref(0); return eqn(E, en);"),
 ("var s = String(); const v = __string(in_() !: string, inn_()); base64.encode(&s, &v); return out_(s.data() !: ^const void, s.size())", "ref(0); return eqn(E, en);"),
 ("var s = String(\"x\"); base64.urlEncodeBuffer(&s, in_(), inn_()); return out_(ptroff!(s.data() + 1) !: ^const void, s.size() - 1)", "ref(1); return eqn(E, en);"),
 ("return base64.urlEncodeSize(inn_())", "ref(1); return en;"),
 ("return D(enc_(), encn_()) catch 0`u64", "return eqn(T, n);"),
 ("return DS(__string(enc_() !: string, encn_())) catch 0`u64", "return eqn(T, n);"),
 ("return U(uenc_(), uencn_()) catch 0`u64", "return eqn(T, n);", "(lim = NU, 1)"),
 ("return D(bad_(), badn_()) catch 7`u64", "return valid() ? 1 : 7;"),
]
PRE += "".join("func d%d(a: u32, k: u8, m: u8): u64 { %s }\n" % (i, d[0]) for i, d in enumerate(D))
CASES = [("return d%d(a, b, c)" % i, "uint32_t k = b, m = c; " + d[1], d[2] if len(d) > 2 else "", d[0]) for i, d in enumerate(D)]
def units(work):
    yield S.cases_unit("base64", work, CASES[:6] + CASES[7:], params=P, ret="u64", pre=PRE, cpre=CPRE, mm=True, what="base64", time_s=800)
    yield S.cases_unit("url-decode", work, CASES[6:7], params=P, ret="u64", pre=PRE, cpre=CPRE, mm=True, what="base64", time_s=800)
