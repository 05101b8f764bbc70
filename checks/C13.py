import sxlib as S
N = 12 if S.THOROUGH else 8
BOUNDS = "texts of up to 8 (thorough: 12) arbitrary non-NUL bytes, positions and counts up to 8 bits; grown strings of up to 70 bytes"
OUTSIDE = "floating point conversions; the empty needle; relative order of strings of different length (shorter first); appending a string to itself"
ASSUMPTIONS = ["the C library's string functions behave as ISO C says (modelled by engine/rt/sxlibc.c)"]
P = ("u8", "u8", "u8")
RET = "u64"
PN = "akm"
PRE = """
extern func at_(k: u32): ^const char
extern func ln_(k: u32): u64
extern func out_(p: ^const void, n: u64): u64
extern func cs_(p: ^const void, n: u64): u64
func A(): string => at_(0) !: string
func B(): string => at_(1) !: string
func VA() => __string(at_(0) !: string, ln_(0))
func VB() => __string(at_(1) !: string, ln_(1))
func ov(v: __string) => out_(v.data() !: ^const void, v.size())
func os(v: &String) => out_(v.data() !: ^const void, v.size()) * 4 + cs_(v.data() !: ^const void, v.size())
func oo(v: Optional[u64]): u64 { if (v) { return *v } return 999`u64 }
func b(v: bool): u64 => v ? 1`u64 : 0`u64
func sg(v: i32): u64 => v < 0 ? 1`u64 : v == 0 ? 2`u64 : 3`u64
"""
CPRE = r"""
#define N %d
static uint8_t T[2][N + 1]; static int L[2] = {-1, -1};
static void need(int k) { if (L[k] >= 0) return; L[k] = sx_choice(N + 1, k ? "lenB" : "lenA"); for (int i = 0; i < L[k]; i++) { T[k][i] = sx_u8(k ? "B" : "A"); sx_assume(T[k][i] != 0); } }
const char *at_(uint32_t k) { need(k); return (const char *)T[k]; }
uint64_t ln_(uint32_t k) { need(k); return L[k]; }
static uint8_t O[80]; static uint64_t ON = 99;
uint64_t out_(const void *p, uint64_t n) { ON = n; if (n <= sizeof O) for (uint64_t i = 0; i < n; i++) O[i] = ((const uint8_t *)p)[i]; return 1; }
uint64_t cs_(const void *p, uint64_t n) { return p ? ((const uint8_t *)p)[n] == 0 : n == 0; }
static uint8_t E[80]; static uint64_t EN;
static void e1(uint8_t c) { E[EN++] = c; }
static void ea(const uint8_t *p, int n) { for (int i = 0; i < n; i++) e1(p[i]); }
static int same(const uint8_t *p, const uint8_t *q, int n) { int r = 1; for (int i = 0; i < n; i++) r &= p[i] == q[i]; return r; }
static uint64_t eq(void) { return ON == EN && same(O, E, (int)EN); }
static int sp(uint8_t c) { return sx_or(c == ' ', sx_and(c >= 9, c <= 13)); }
#define a0 (need(0), T[0])
#define b0 (need(1), T[1])
#define la (need(0), L[0])
#define lb (need(1), L[1])
static int tl(void) { int i = 0; while (i < la && sp(a0[i])) i++; return i; }
static int tr(int i) { int n = la; while (n > i && sp(a0[n - 1])) n--; return n; }
static int isat(int i) { return i >= 0 && i + lb <= la && same(a0 + i, b0, lb); }
static int cmpa(void) { if (la != lb) return la < lb ? -1 : 1; for (int i = 0; i < la; i++) if (a0[i] != b0[i]) return (a0[i] < b0[i]) ? -1 : 1; return 0; }
""" % N
D = [
 # views
 ("const v = __string(A()); return v.size() * 4 + b(v.empty()) * 2 + b(v.isnt())", "return la * 4 + (la == 0) * 2 + (la != 0);"),
 ("return ov(VA().trimLeft())", "int i = tl(); ea(a0 + i, la - i); return eq();"),
 ("return ov(VA().trimRight())", "int n = tr(0); ea(a0, n); return eq();"),
 ("return ov(VA().trim())", "int i = tl(), n = tr(i); ea(a0 + i, n - i); return eq();"),
 ("const x = VA(); const y = VB(); return b(x == &y) * 2 + b(x != &y)", "return cmpa() ? 1 : 2;"),
 ("const x = VA(); const y = VB(); return b(x < &y) * 8 + b(x <= &y) * 4 + b(x > &y) * 2 + b(x >= &y)", "return cmpa() < 0 ? 12 : cmpa() == 0 ? 5 : 3;", "la == lb"),
 ("const x = VA(); const y = VB(); return b((x < &y) || (y < &x) || (x == &y)) * 2 + b(((x < &y) == (y > &x)) && ((x <= &y) == (y >= &x)) && ((x <= &y) != (x > &y)))", "return 3;"),
 ("return (VA().[<i64>a] as u64) & 255", "return a0[a];", "a < la"),
 ("return oo(VA().indexOf(a as char))", "for (int i = 0; i < la; i++) if (a0[i] == a) return i; return 999;", "a < 128"),
 ("return oo(VA().rIndexOf(a as char))", "for (int i = la - 1; i >= 0; i--) if (a0[i] == a) return i; return 999;", "a < 128"),
 ("return oo(VA().find(VB()))", "for (int i = 0; i + lb <= la; i++) if (isat(i)) return i; return 999;", "lb > 0"),
 ("return oo(VA().rfind(VB()))", "for (int i = la - lb; i >= 0; i--) if (isat(i)) return i; return 999;", "lb > 0"),
 ("return b(VA().startswith(VB()))", "return isat(0);"),
 ("return b(VA().endswith(VB()))", "return isat(la - lb);"),
 ("return ov(VA().substr(a as u64))", "ea(a0 + a, la - a); return eq();", "a <= la"),
 ("return ov(VA().substr(a as u64, b as i64))", "ea(a0 + a, b); return eq();", "a <= la && b <= la - a"),
 ("var buf: [char, 16] = []; VA().copyto(buf, 16); return out_(buf !: ^const void, ln_(0)) * 4 + cs_(buf !: ^const void, ln_(0))", "ea(a0, la); return eq() * 4 + 1;"),
 ("const x = VA(); const y = x; return ov(y)", "ea(a0, la); return eq();"),
 # strings
 ("var s = String(A()); return os(&s) * 8 + b(s.empty()) * 2 + b(s.capacity() >= s.size())", "ea(a0, la); return eq() * 40 + (la == 0) * 2 + 1;"),
 ("var s = String(VA()); return os(&s)", "ea(a0, la); return eq() * 5;"),
 ("var s = String(at_(0), ln_(0)); return os(&s)", "ea(a0, la); return eq() * 5;"),
 ("var s = String(A()); s << B(); return os(&s)", "ea(a0, la); ea(b0, lb); return eq() * 5;"),
 ("var s = String(); var t = String(B()); s << A() << t << \"x\"; return os(&s)", "ea(a0, la); ea(b0, lb); e1('x'); return eq() * 5;"),
 ("var s = String(A()); s << VB(); return os(&s)", "ea(a0, la); ea(b0, lb); return eq() * 5;"),
 ("var s = String(A()); s + B(); return os(&s)", "ea(a0, la); ea(b0, lb); return eq() * 5;"),
 ("var s = String(A()); s << VA().substr(1); return os(&s)", "ea(a0, la); ea(a0 + 1, la - 1); return eq() * 5;", "la > 0"),
 ("var s = String(A()); s << VA().substr(0, 1); return os(&s)", "ea(a0, la); e1(a0[0]); return eq() * 5;", "la > 0"),
 ("var s = String(A()); var i = 0`u8; while (i < a) { s << \"0123456789abcdef\"; s << B(); i++ } return os(&s)", "ea(a0, la); for (int i = 0; i < a; i++) { ea((const uint8_t *)\"0123456789abcdef\", 16); ea(b0, lb); } return eq() * 5;", "a <= 3"),
 ("var s = String(A()); s.trimLeft(); return os(&s)", "int i = tl(); ea(a0 + i, la - i); return eq() * 5;"),
 ("var s = String(A()); s.trimRight(); return os(&s)", "int n = tr(0); ea(a0, n); return eq() * 5;"),
 ("var s = String(A()); s.trim(); s << B(); return os(&s)", "int i = tl(), n = tr(i); ea(a0 + i, n - i); ea(b0, lb); return eq() * 5;"),
 ("var s = String(A()); s.clear(); s << B(); return os(&s)", "ea(b0, lb); return eq() * 5;"),
 ("var s = String(A()); s.clear(); return s.size() * 2 + b(s.empty())", "return 1;"),
 ("var s = String(A()); s.reserve(a as u64); const n = s.capacity(); return os(&s) * 2 + b(n >= s.size() + (a as u64))", "ea(a0, la); return eq() * 10 + 1;", "a <= 64"),
 ("var s = String(A()); s.resize(a as u64); return os(&s)", "ea(a0, a); return eq() * 5;", "la > 0 && a <= la"),
 ("var s = String(A()); return oo(s.indexOf(a as char))", "for (int i = 0; i < la; i++) if (a0[i] == a) return i; return 999;", "a < 128"),
 ("var s = String(A()); return oo(s.rIndexOf(a as char))", "for (int i = la - 1; i >= 0; i--) if (a0[i] == a) return i; return 999;", "a < 128"),
 ("var s = String(A()); var t = String(B()); return b(s == &t) * 2 + b(s != &t)", "return cmpa() ? 1 : 2;"),
 ("const s = String(A()); const t = String(B()); return b(s == &t) * 2 + b(s != &t)", "return cmpa() ? 1 : 2;"),
 ("var s = String(A()); return b(s == B()) * 2 + b(s != B())", "return cmpa() ? 1 : 2;"),
 ("var s = String(A()); var t = String(B()); return b(s < &t) * 8 + b(s <= &t) * 4 + b(s > &t) * 2 + b(s >= &t)", "return (cmpa() < 0) ? 12 : cmpa() == 0 ? 5 : 3;", "la == lb && la > 0 && sx_lt128()"),
 ("var s = String(A()); var t = String(B()); return b((s < &t) || (t < &s) || (s == &t)) * 2 + b(((s < &t) == (t > &s)) && ((s <= &t) == (t >= &s)) && ((s <= &t) != (s > &t)))", "return 3;"),
 ("var s = String(A()); return (s.[a as u32] as u64) & 255", "return a0[a];", "a < la"),
 ("var s = String(A()); var n = 0`u64; var w = 0`u64; for (const ch, i: s) { n = n * 257 + ((ch as u64) & 255); w += i as u64 } return n * 64 + w", "uint64_t n = 0, k = 0; for (int i = 0; i < la; i++) { n = n * 257 + a0[i]; k += i; } return n * 64 + k;"),
 ("var s = String(A()); return b(s.startswith(B())) * 2 + b(s.endswith(B()))", "return isat(0) * 2 + isat(la - lb);"),
 ("var s = String(A()); var t = String(B()); return b(s.startswith(t)) * 2 + b(s.endswith(VB()))", "return isat(0) * 2 + isat(la - lb);"),
 ("var s = String(A()); return ov(s.substr(a as u64, b as i64))", "ea(a0 + a, b); return eq();", "a <= la && b <= la - a"),
 ("var s = String(A()); var t = s; t << B(); return os(&s)", "ea(a0, la); ea(b0, lb); return eq() * 5;"),
 ("return VA().toi[#i64]() as u64", "return la;", "0"),
]
CPRE += "static int sx_lt128(void) { int r = 1; for (int i = 0; i < la; i++) r &= a0[i] < 128; for (int i = 0; i < lb; i++) r &= b0[i] < 128; return r; }\n"
D = [d for d in D if d[-1] != "0"]
PRE += "".join("func d%d(a: u8, k: u8, m: u8): u64 { %s }\n" % (i, d[0].replace("b as i64", "k as i64")) for i, d in enumerate(D))
CASES = [("return d%d(a, b, c)" % i, d[1] if "return" in d[1] else d[1], d[2] if len(d) > 2 else "", d[0]) for i, d in enumerate(D)]
def units(work):
    yield S.cases_unit("strings", work, CASES, params=P, ret="u64", pre=PRE, cpre=CPRE, mm=True, what="text", time_s=600)
