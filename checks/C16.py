import sxlib as S
N = 6 if S.THOROUGH else 5
BOUNDS = "every history of 5 (thorough: 6) operations (push, pop, shift, store, shrink, resize) on vectors of initial capacity 0..3 and arbitrary element values; lists likewise; fills of up to 60 elements"
OUTSIDE = "allocation failure; indices past 2^31; popping an empty vector (an assertion of the library)"
ASSUMPTIONS = []
P = ("u32", "u8", "u8")
PN = "akm"
RET = "u64"
PRE = """
import { Vector } from "stdlib/vector.cxy"
import { List } from "stdlib/list.cxy"
extern func op_(): u32
extern func val_(): u32
extern func idx_(): u32
extern func pushed_(v: u32): void
extern func size_(n: u64): void
extern func see_(i: u64, v: u32): void
extern func last_(v: u32): void
extern func first_(v: u32): void
extern func set_(i: u32, v: u32): void
extern func none_(c: u32): void
extern func out_(v: u64): void
extern func mk(k: u32): u32
extern func rm(k: u32): u32
extern func live(): u32
extern func outs_(p: ^const void, n: u64): void
class Res { id: u32
  func `init`(i: u32) { id = mk(i) }
  func `deinit`() { rm(id) }
  const func `str`(os: &OutputStream) { os << id }
  const func `==`(o: &const Res): bool => id == o.id
}
struct It { link: ^This = null; num: u32 = 0`u32 }
struct Pr { x: u32; y: u8; const func `==`(o: &const Pr): bool => x == o.x && y == o.y }
struct Own { r: Res; n: u32; const func `==`(o: &const Own): bool => n == o.n }
func inc(x: u32): u32 => x + 1
func hist(n: u64, c: u64) {
  var v = Vector[u32](c);
  var i = 0`u64
  while (i < n) {
    const o = op_();
    if (o == 0) { const x = val_(); pushed_(x); v.push(x) }
    else if (o == 1) { last_(v.pop()) }
    else if (o == 2) { first_(v.shift()) }
    else if (o == 3) { const k = idx_(); const x = val_(); v.[k as i32] = x; set_(k, x) }
    else if (o == 4) { v.shrink() }
    else { v.resize(v.size() + 2) }
    size_(v.size());
    if (v.empty() != (v.size() == 0)) none_(77);
    if (v.capacity() < v.size()) none_(78);
    var j = 0`u64
    while (j < v.size()) { see_(j, v.[j as i32]); j++ }
    i++
  }
}
func histr(n: u64) {
  var v = Vector[Res](1);
  var i = 0`u64
  while (i < n) {
    const o = op_();
    if (o == 0) { const x = val_(); pushed_(x); v.push(Res(x)) }
    else if (o == 1) { var r = v.pop(); last_(r.id) }
    else if (o == 2) { var r = v.shift(); first_(r.id) }
    else if (o == 3) { const k = idx_(); const x = val_(); v.[k as i32] = Res(x); set_(k, x) }
    else if (o == 4) { v.shrink() }
    else { v.resize(v.size() + 2) }
    size_(v.size());
    if (live() != v.size()) none_(79);
    var j = 0`u64
    while (j < v.size()) { see_(j, v.[j as i32].id); j++ }
    i++
  }
}
func histl(n: u64) {
  var l = List[It]{};
  var i = 0`u64
  while (i < n) {
    const o = op_();
    if (o == 0) { const x = val_(); pushed_(x); var p = __calloc(sizeof!(#It)) !: ^It; p.num = x; l.push(p) }
    else if (o == 2) { var p = l.pop(); first_(p.num); free(p !: ^void) }
    size_(l.size());
    if (l.empty() != (l.size() == 0)) none_(80);
    var j = 0`u64
    for (const p: l) { see_(j, p.num); j++ }
    if (j != l.size()) none_(81);
    if (j > 0) { see_(0, l.front().num); see_(j - 1, l.back().num) }
    else { if (l.front() != null) none_(82); if (l.back() != null) none_(83) }
    i++
  }
  while (!l.empty()) { free(l.pop() !: ^void) }
}
func fill(c: u64, n: u64) { var v = Vector[u32](c); for (const i: 0..n) { v.push(i as u32 * 7) } return &&v }
"""
CPRE = r"""
static uint32_t M[80]; static int n; static int bad; static int only; static uint32_t nl;
static uint64_t O[128]; static int ON;
uint32_t op_(void) { for (;;) { uint32_t o = sx_choice(6, "op"); if (only && o != 0 && o != 2) sx_assume(0); if ((o == 1 || o == 2 || o == 3) && n == 0) sx_assume(0); if (!only && o == 4 && n == 0) sx_assume(0); return o; } }
uint32_t val_(void) { return sx_u8("v") * 257u + 3; }
uint32_t idx_(void) { return sx_choice(n, "i"); }
void pushed_(uint32_t v) { M[n++] = v; }
void size_(uint64_t s) { if (s != n) bad = 1; }
void see_(uint64_t i, uint32_t v) { if (i >= (uint64_t)n) bad = 2; else sx_assert(M[i] == v, "an element differs from what was stored"); }
void last_(uint32_t v) { n--; sx_assert(M[n] == v, "pop returned something else than the last element"); }
void first_(uint32_t v) { sx_assert(M[0] == v, "shift/pop returned something else than the first element"); n--; for (int i = 0; i < n; i++) M[i] = M[i + 1]; }
void set_(uint32_t i, uint32_t v) { M[i] = v; }
void none_(uint32_t c) { bad = c; }
void out_(uint64_t v) { if (ON < 128) O[ON++] = v; }
uint32_t mk(uint32_t k) { nl++; return k; }
uint32_t rm(uint32_t k) { nl--; return k; }
uint32_t live(void) { return nl; }
static char T[64]; static int TN;
void outs_(const void *p, uint64_t k) { TN = k; for (int i = 0; i < k && i < 64; i++) T[i] = ((const char *)p)[i]; }
static int teq(const char *s) { int i = 0; for (; s[i]; i++) if (i >= TN || T[i] != s[i]) return 0; return i == TN; }
"""
H = [("hist(%d, %d); return live()" % (N, c), "return bad;") for c in (0, 1, 2, 3)]
D = H + [
 ("histr(%d); return live()" % (N - 1), "return bad;"),
 ("histl(%d); return 0" % N, "return bad;"),
 ("var v = fill(m as u64, k as u64); var s = 0`u64; for (const x, i: v) { s = s * 3 + (x as u64) + (i as u64) } return s * 64 + v.size()", "uint64_t s = 0; for (int i = 0; i < k; i++) s = s * 3 + i * 7 + i; return s * 64 + k;", "k <= 40 && m <= 3"),
 ("var v = fill(16, k as u64); var s = 0`u64; while (!v.empty()) { s = s * 3 + (v.pop() as u64) } return s", "uint64_t s = 0; for (int i = k; i-- > 0;) s = s * 3 + i * 7; return s;", "k <= 60"),
 ("var v = fill(16, k as u64); var s = 0`u64; while (v.size() > m) { s = s * 3 + (v.shift() as u64) } v.shrink(); v.push(a); for (const x, _: v) { s = s * 3 + (x as u64) } return s", "uint64_t s = 0; for (int i = 0; i < k; i++) s = s * 3 + i * 7; return s * 3 + a;", "k <= 30 && m <= k && m % 4 == 0"),
 ("var v = fill(4, 9); v.resize(m as u64); v.push(a); v.push(a + 1); var s = 0`u64; for (const x, _: v) { s = s * 5 + (x as u64) } return s * 64 + v.size()", "uint64_t s = 0; int t = m < 9 ? m : 9; for (int i = 0; i < t; i++) s = s * 5 + i * 7; s = s * 5 + a; s = s * 5 + (uint32_t)(a + 1); return s * 64 + t + 2;", "m <= 20"),
 # functions over vectors
 ("var v = fill(3, 7); const w = v.filter((x: u32) => x > a); var s = 0`u64; for (const x, _: w) { s = s * 3 + (x as u64) } return s * 64 + w.size()", "uint64_t s = 0, z = 0; for (int i = 0; i < 7; i++) if ((uint32_t)i * 7 > a) { s = s * 3 + i * 7; z++; } return s * 64 + z;"),
 ("var v = fill(3, 7); const w = v.map[u32]((x: u32) => x * a); var s = 0`u64; for (const x, _: w) { s = s * 3 + (x as u64) } return s * 64 + w.size()", "uint64_t s = 0; for (int i = 0; i < 7; i++) s = s * 3 + (uint32_t)(i * 7 * a); return s * 64 + 7;"),
 ("var v = fill(3, 7); const x = v.find((x: u32) => x >= a); if (x) { return (*x) as u64 } return 1000", "for (int i = 0; i < 7; i++) if ((uint32_t)i * 7 >= a) return i * 7; return 1000;"),
 ("var v = fill(3, 7); return v.accumulate((acc: u64, x: u32) => acc * 3 + x, a as u64)", "uint64_t s = a; for (int i = 0; i < 7; i++) s = s * 3 + i * 7; return s;"),
 ("var v = fill(3, 7); const x = v.indexOf(a); if (x) { return *x } return 1000", "for (int i = 0; i < 7; i++) if ((uint32_t)i * 7 == a) return i; return 1000;"),
 ("var v = fill(3, 5); var s = 0`u64; v.each((x: u32) => { s = s * 3 + x; out_(x as u64) }); return 0", "for (int i = 0; i < 5; i++) if (O[i] != i * 7) return 1; return ON != 5;"),
 # other elements
 ("var v = Vector[Pr](1); for (const i: 0..k) { v.push(Pr{x: a + (i as u32), y: m}) } var s = 0`u64; for (const p, i: v) { s += (p.x as u64) * 3 + (p.y as u64) + (i as u64) } return s", "uint64_t s = 0; for (int i = 0; i < k; i++) s += (uint64_t)(uint32_t)(a + i) * 3 + c + i; return s;", "k <= 5"),
 ("var v = Vector[u16](1); v.push(300); v.push(2); v.push(m as u16); var s = String(); s << v; outs_(s.data() !: ^const void, s.size()); return v.size()", "char t[20] = \"[300, 2, 0]\"; t[9] = '0' + c; return teq(t) ? 3 : 99;", "m < 10"),
 ("{ var v = Vector[Res](); for (const i: 0..k) { v.push(Res(i as u32)) } if (m > 3) { var q = v.pop() } if (m > 7) { var r = v.shift(); out_(r.id as u64) } if (m > 11) { v.resize(1) } out_(live() as u64) } return live() as u64", "return (ON == (m > 7 ? 2 : 1) && O[ON - 1] == (m > 11 ? 1 : k - (m > 3) - (m > 7))) ? 0 : 77;", "k >= 3 && k <= 20"),
 ("{ var v = Vector[Res](1); var r = Res(7); v.push(r); v.push(r); v.[0] = Res(a); const f = v.find((x: Res) => x.id == a); if (f) { var q = *f; v.[1] = q } out_(r.id as u64 + (v.[1].id as u64)); out_(live() as u64) } return live() as u64", "return (O[0] == 7 + (uint64_t)a && O[1] == 2) ? 0 : 77;", "a != 7"),
 ("{ var v = Vector[Res](1); v.push(Res(1)); v.push(Res(2)); for (const r, _: v) { out_(r.id as u64) } out_(live() as u64); var w = v.filter((r: Res) => r.id > m); out_(w.size()); } return live() as u64", "return (ON == 4 && O[0] == 1 && O[1] == 2 && O[2] == 2 && O[3] == (1 > m) + (2 > m)) ? 0 : 77;"),
 ("{ var v = Vector[Own](1); for (const i: 0..k) { v.push(Own{r: Res(i as u32), n: a}) } if (m > 3) { var o = v.shift(); out_(o.r.id as u64) } else { var o = v.pop(); out_(o.r.id as u64) } v.push(Own{r: Res(a), n: 1}); v.[0] = Own{r: Res(5), n: 2}; if (m > 9) { v.resize(1) } out_(live() as u64); out_(v.[(v.size() - 1) as i32].r.id as u64) } return live() as u64", "return (O[0] == (m > 3 ? 0 : k - 1) && O[1] == (m > 9 ? 1 : k) && O[2] == (m > 9 ? 5 : a)) ? 0 : 77;", "k >= 2 && k <= 6"),
 ("{ var v = Vector[(u32, Res)](1); for (const i: 0..k) { v.push((a, Res(i as u32))) } if (m > 3) { var o = v.shift(); out_(o.1.id as u64) } else { var o = v.pop(); out_(o.1.id as u64) } out_(live() as u64); } return live() as u64", "return (O[0] == (m > 3 ? 0 : k - 1) && O[1] == k - 1) ? 0 : 77;", "k >= 2 && k <= 6"),
 ("var v = Vector[u32](0); v.push(a); return v.[0] as u64", "return a;"),
 ("var v = fill(2, 3); v.[1] = a; v.[0] += 3; v.[2] = v.[1]; return (v.[0] as u64) + (v.[1] as u64) + (v.[2] as u64)", "return 3 + 2 * (uint64_t)a;"),
]
PRE += "".join("func d%d(a: u32, k: u8, m: u8): u64 { %s }\n" % (i, d[0]) for i, d in enumerate(D))
CASES = [("return d%d(a, b, c)" % i, ("only = %d; " % ("histl" in d[0])) + "uint32_t k = b, m = c; " + d[1], d[2].replace("k ", "b ").replace("m ", "c ") if len(d) > 2 else "", d[0]) for i, d in enumerate(D)]
def units(work):
    yield S.cases_unit("vector", work, CASES, params=P, ret="u64", pre=PRE, cpre=CPRE, mm=True, what="containers", time_s=800)
