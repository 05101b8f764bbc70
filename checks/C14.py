import sxlib as S
N = 4 if S.THOROUGH else 3
BOUNDS = "every code point, every 8 and 16 bit integer, 32 and 64 bit integers around every power of two; 3 (thorough: 4) chunks of 0..5 arbitrary bytes through buffers of 1..6 bytes"
OUTSIDE = "floating point output, pointers, writes that fail or are partial"
ASSUMPTIONS = ["sprintf, memcpy and write of the C library behave as documented (modelled by engine/rt/sxlibc.c or recorded)"]
P = ("u32", "u8", "u8")
PN = "akm"
RET = "u64"
PRE = """
extern func out_(p: ^const void, n: u64): u64
extern func chunk_(k: u32): ^const void
extern func chunkn_(k: u32): u64
class Out : OutputStream { n: u32
  func `init`() { n = 0 }
  func append(data: ^const void, size: u64): Optional[u64] { out_(data, size); return Some(size) }
}
class BOut : BufferedOutputStream {
  func `init`(n: u64) { super(n) }
  func flush(data: ^const void, size: u64): void { out_(data, size) }
}
struct Pt { x: i32 = 0; y: u8 = 0 }
struct Named { name: string; pt: Pt; c: char }
struct Nice { v: u32; const func `str`(os: &OutputStream) { os << "<" << v << ">" } }
class Cls { v: u32; func `init`(v: u32) { this.v = v } const func `str`(os: &OutputStream) { os << "#" << v } }
enum Col { Red, Green = 5, @str("blue!") Blue }
type US = u32 | string | bool
func opt(k: u8): u32? { if (k > 3) return 7`u32; return null }
func os(): OutputStream => Out()
"""
CPRE = r"""
#include <stdio.h>
static uint8_t O[256]; static uint64_t ON; static int big;
uint64_t out_(const void *p, uint64_t n) { if (ON + n > sizeof O) { big = 1; return 0; } for (uint64_t i = 0; i < n; i++) O[ON + i] = ((const uint8_t *)p)[i]; ON += n; return 1; }
static uint8_t F[256]; static int FD[16]; static uint64_t FN;
static uint8_t E[256]; static uint64_t EN;
static void e1(uint8_t c) { E[EN++] = c; }
static void es(const char *p) { while (*p) e1(*p++); }
static void eu(uint64_t v) { uint8_t t[20]; int n = 0; do { t[n++] = '0' + v % 10; v /= 10; } while (v); while (n) e1(t[--n]); }
static void ei(int64_t v) { if (v < 0) { e1('-'); eu(-(uint64_t)v); } else eu(v); }
static void eb(int b) { es(b ? "true" : "false"); }
static uint64_t eq(void) { if (big || ON != EN) return 0; int r = 1; for (uint64_t i = 0; i < EN; i++) r &= O[i] == E[i]; return r; }
static uint8_t C[8][5]; static int CN[8] = {-1,-1,-1,-1,-1,-1,-1,-1};
static void need(int k) { if (CN[k] >= 0) return; CN[k] = sx_choice(6, "n"); for (int i = 0; i < CN[k]; i++) C[k][i] = sx_u8("d"); }
const void *chunk_(uint32_t k) { need(k); return C[k]; }
uint64_t chunkn_(uint32_t k) { need(k); return CN[k]; }
static void ec(int k) { need(k); for (int i = 0; i < CN[k]; i++) e1(C[k][i]); }
static int p2(int n) { return 1; }
"""
D = [
 # characters
 ("var o = os(); o << (a as wchar); return 1", "if (a < 0x80) e1(a); else if (a < 0x800) { e1(0xC0 | a >> 6); e1(0x80 | (a & 63)); } else if (a < 0x10000) { e1(0xE0 | a >> 12); e1(0x80 | ((a >> 6) & 63)); e1(0x80 | (a & 63)); } else { e1(0xF0 | a >> 18); e1(0x80 | ((a >> 12) & 63)); e1(0x80 | ((a >> 6) & 63)); e1(0x80 | (a & 63)); } return eq();", "a < 0x110000"),
 ("var o = os(); o << (a as char); return 1", "e1((uint8_t)a); return eq();"),
 # integers
 ("var o = os(); o << (k as i8); return 1", "ei((int8_t)k); return eq();"),
 ("var o = os(); o << k; return 1", "eu(k); return eq();"),
 ("var o = os(); o << (a as i16); return 1", "ei((int16_t)a); return eq();", "a < 65536"),
 ("var o = os(); o << (a as u16); return 1", "eu((uint16_t)a); return eq();", "a < 65536"),
 ("var o = os(); o << ((1`i32 << k) + (m as i8) as i32); return 1", "ei((int32_t)((1u << k) + (int32_t)(int8_t)m)); return eq();", "k < 32"),
 ("var o = os(); o << ((1`u32 << k) - (m as u32)); return 1", "eu((uint32_t)((1u << k) - m)); return eq();", "k < 32"),
 ("var o = os(); o << ((1`i64 << k) - (m as i64)); return 1", "ei((int64_t)((1ull << k) - m)); return eq();", "k < 64"),
 ("var o = os(); o << ((1`u64 << k) - (m as u64)); return 1", "eu((1ull << k) - m); return eq();", "k < 64"),
 # other scalars and texts
 ("var o = os(); o << (k > 3) << \"-\" << (m == 7); return 1", "eb(k > 3); e1('-'); eb(m == 7); return eq();"),
 ("var o = os(); o << \"ab\" << 'c' << \"\" << String(\"de\"); return 1", "es(\"abcde\"); return eq();"),
 ("var o = os(); var s: String = null; o << s << '.'; return 1", "es(\"null.\"); return eq();"),
 ("var o = os(); var s: string = null; o << s << '.'; return 1", "es(\".\"); return eq();"),
 ("var o = os(); o << __string(\"hello\", 3); return 1", "es(\"hel\"); return eq();"),
 ("var o = os(); var c = Col.Red; if (k > 3) c = .Green; if (k > 9) c = .Blue; o << c; return 1", "es(k > 9 ? \"blue!\" : k > 3 ? \"Col.Green\" : \"Col.Red\"); return eq();"),
 # compounds
 ("var o = os(); o << (k, m > 3, \"z\"); return 1", "e1('('); eu(k); es(\", \"); eb(m > 3); es(\", z)\"); return eq();"),
 ("var o = os(); o << Pt{x: (m as i8) as i32, y: k}; return 1", "es(\"Pt{x: \"); ei((int8_t)m); es(\", y: \"); eu(k); e1('}'); return eq();"),
 ("var o = os(); o << Named{name: \"n\", pt: Pt{x: 1, y: k}, c: 'c'`char}; return 1", "es(\"Named{name: \\\"n\\\", pt: Pt{x: 1, y: \"); eu(k); es(\"}, c: 'c'}\"); return eq();"),
 ("var o = os(); o << Nice{v: a}; return 1", "e1('<'); eu(a); e1('>'); return eq();", "a < 3000"),
 ("var o = os(); o << Cls(a) << (Nice{v: 1}, 2); return 1", "e1('#'); eu(a); es(\"(<1>, 2)\"); return eq();", "a < 300"),
 ("var o = os(); var c: Cls = null; o << c; return 1", "es(\"null\"); return eq();"),
 ("var o = os(); var x = [k, m, 3`u8]; o << x; return 1", "e1('['); eu(k); es(\", \"); eu(m); es(\", 3]\"); return eq();"),
 ("var o = os(); const x = opt(k); o << x; return 1", "es(k > 3 ? \"7\" : \"null\"); return eq();"),
 ("var o = os(); var u: US = a; if (k > 3) u = \"str\"; if (k > 9) u = m == 1; o << u; return 1", "if (k > 9) eb(m == 1); else if (k > 3) es(\"str\"); else eu(a); return eq();", "a < 300"),
 ("var o = os(); o << Repeat('='`char, k as u64) << '!'; return 1", "for (int i = 0; i < k; i++) e1('='); e1('!'); return eq();", "k < 12"),
 ("var s = String(); s << k << \",\" << (m > 3); return out_(s.data() !: ^const void, s.size())", "eu(k); e1(','); eb(m > 3); return eq();"),
 ("var o = os(); o << RED(\"b\") << k << DEF; return 1", "es(\"\\x1b[1;31m\"); eu(k); es(\"\\x1b[0m\"); return eq();"),
 # buffered and memory streams
 ("var o = BOut(a as u64); { PUT } o.sync(); return 1", "{ EXP } return eq();", "a >= 1 && a <= 6"),
 ("{ var o = BOut(a as u64); { PUT } } return 1", "{ EXP } return eq();", "a >= 1 && a <= 6"),
 ("var o = BOut(a as u64); o.append(chunk_(0), chunkn_(0)); o.sync(); o.append(chunk_(1), chunkn_(1)); o.sync(); o.sync(); return 1", "ec(0); ec(1); return eq();", "a >= 1 && a <= 6"),
 ("var b: [char, 32] = []; var o = MemoryOutputStream(b !: ^void, 32); { PUTO } out_(b !: ^const void, o.size()); if (o.size() == 0) return 1; return (b.[o.size()] == '\\0'`char) ? 1 : 0", "{ EXP } return eq();"),
 ("var b: [char, 32] = []; var q = MemoryOutputStream(b !: ^void, 32); { PUTM } var o = os(); o << q; return 1", "{ EXP } return eq();"),
]
put = "; ".join("o.append(chunk_(%d), chunkn_(%d))" % (i, i) for i in range(N)); exp = " ".join("ec(%d);" % i for i in range(N))
D = [(d[0].replace("{ PUTO }", put.replace("), chunkn", ") !: ^const char, chunkn")).replace("{ PUT }", put).replace("{ PUTM }", put.replace("o.app", "q.app").replace("), chunkn", ") !: ^const char, chunkn")), d[1].replace("{ EXP }", exp)) + d[2:] for d in D]
PRE += "".join("func d%d(a: u32, k: u8, m: u8): u64 { %s }\n" % (i, d[0]) for i, d in enumerate(D))
CASES = [("return d%d(a, b, c)" % i, "uint32_t k = b, m = c; " + d[1], d[2].replace("k ", "b ") if len(d) > 2 else "", d[0]) for i, d in enumerate(D)]
def units(work):
    yield S.cases_unit("output", work, CASES, params=P, ret="u64", pre=PRE, cpre=CPRE, mm=True, what="output", time_s=800)
