import sxlib as S
N = 4 if S.THOROUGH else 3
BOUNDS = "maps whose 4 keys hash anywhere (every collision and wrap-around pattern in a table of 5 slots, 4 places in one of 11), every history of 2 removals and an insertion after 4 insertions; histories of 3 (thorough: 4) operations on 3 keys with symbolic hashes; fills of up to 250 keys"
OUTSIDE = "floating point keys; allocation failure; changing a map while iterating over it; more than 8 million entries"
ASSUMPTIONS = ["the hash and equality of the keys are functions of the key"]
P = ("u32", "u8", "u8")
PN = "akm"
RET = "u64"
PRE = """
import { HashMap, HashSet } from "stdlib/hash.cxy"
import { Vector } from "stdlib/vector.cxy"
extern func op_(): u32
extern func val_(): u32
extern func key_(): u32
extern func hash_(k: u32): u32
extern func done_(o: u32, k: u32, v: u32, r: u32): void
extern func size_(n: u64, c: u64, e: u32): void
extern func see_(k: u32, found: u32, v: u32): void
extern func iter_(k: u32, v: u32): void
extern func iterEnd_(): void
extern func fail_(c: u32): void
extern func mk(k: u32): u32
extern func rm(k: u32): u32
extern func live(): u32
class Res { id: u32
  func `init`(i: u32) { id = mk(i) }
  func `deinit`() { rm(id) }
  const func `==`(o: &const Res): bool => id == o.id
  const func `hash`(): HashCode => id as HashCode
  const func `str`(os: &OutputStream) { os << id }
}
struct HH { const func `()`(val: &const u32): HashCode => hash_(<u32>val) as HashCode }
func look(m: HashMap[u32, u32, HH], nk: u32) {
  var k = 0`u32
  while (k < nk) { const v = m.get(k); if (v) { see_(k, 1, *v) } else { see_(k, 0, 0) } if (m.contains(k) != !!v) { fail_(78) } k++ }
  size_(m.size(), m.capacity(), m.empty() ? 1 : 0)
}
func walk(m: HashMap[u32, u32, HH]) { for (const k, v: m) { iter_(k, v) } iterEnd_() }
func step(m: HashMap[u32, u32, HH], o: u32, k: u32) {
  if (o == 0) { const v = val_(); const r = m.insert(k, v); done_(0, k, v, r ? 1 : 0) }
  else if (o == 1) { m.remove(k); done_(1, k, 0, 0) }
  else if (o == 2) { const v = val_(); const r = m.insert(k, v, false); done_(2, k, v, r ? 1 : 0) }
  else if (o == 3) { const v = val_(); m.[k] = v; done_(0, k, v, 2) }
  else { m.clear(); done_(4, 0, 0, 0) }
}
func hist(n: u64, c: u64, nk: u32) { var m = HashMap[u32, u32, HH](c); var i = 0`u64; while (i < n) { const o = op_(); const k = key_(); step(m, o, k); look(m, nk); i++ } walk(m) }
func fixed(nk: u32, c: u64, re: u32) { var m = HashMap[u32, u32, HH](c); var i = 0`u32; while (i < nk) { const v = val_(); const r = m.insert(i, v); done_(0, i, v, r ? 1 : 0); i++ }
  look(m, nk); const x = key_(); step(m, 1, x); look(m, nk);
  const y = key_(); step(m, 1, y); look(m, nk); if (re > 0) { step(m, 0, x); look(m, nk) } walk(m) }
func fill(n: u32) { var m = HashMap[u32, u32](); var i = 0`u32; while (i < n) { m.insert(i * 3, i + 1); i++ } return &&m }
"""
CPRE = r"""
static uint32_t M[300], H[300]; static uint8_t has[300], hh[300]; static int n, bad, NK = 3, NH = 5; static uint8_t seen[300]; static uint32_t nl, nseen;
static const uint32_t HV[] = {0, 1, 2, 3, 4}, HW[] = {0, 1, 9, 10};
static uint32_t ops;
uint32_t op_(void) { for (;;) { uint32_t o = sx_choice(5, "op"); if (o == 4 && ops == 0) sx_assume(0); ops++; return o; } }
uint32_t val_(void) { return sx_u8("v") * 257u + 3; }
uint32_t key_(void) { return sx_choice(NK, "k"); }
uint32_t hash_(uint32_t k) { if (!hh[k]) { hh[k] = 1; H[k] = NH == 4 ? HW[sx_choice(4, "h")] : HV[sx_choice(NH, "h")]; } return H[k]; }
void fail_(uint32_t c) { bad = c; }
void done_(uint32_t o, uint32_t k, uint32_t v, uint32_t r) {
  if (o == 0 || o == 2) { if (r < 2 && r != !has[k]) bad = 1; if (!has[k]) { has[k] = 1; n++; M[k] = v; } else if (o == 0) M[k] = v; }
  else if (o == 1) { if (has[k]) { has[k] = 0; n--; } } else { for (int i = 0; i < 300; i++) has[i] = 0; n = 0; }
}
void size_(uint64_t s, uint64_t c, uint32_t e) { if (s != (uint64_t)n || s > c || e != (n == 0)) bad = 2; }
void see_(uint32_t k, uint32_t f, uint32_t v) { sx_assert(f == has[k], f ? "a key that is not in the map is found" : "a key of the map is not found"); if (f && has[k]) sx_assert(v == M[k], "a key has another value than the one stored last"); }
void iter_(uint32_t k, uint32_t v) { if (k >= 300 || !has[k] || seen[k]) { bad = 4; return; } seen[k] = 1; nseen++; sx_assert(v == M[k], "iteration yields another value than the one stored"); }
void iterEnd_(void) { if (nseen != (uint32_t)n) bad = 5; }
uint32_t mk(uint32_t k) { nl++; return k; }
uint32_t rm(uint32_t k) { nl--; return k; }
uint32_t live(void) { return nl; }
"""
D = [
 ("hist(%d, 0, 3); return 0" % N, "return bad;", "", "NK = 3; NH = 3;"),
 ("fixed(4, 4, 1); return 0", "return bad;", "", "NK = 4; NH = 5;"),
 ("fixed(3, 0, 1); return 0", "return bad;", "", "NK = 3; NH = 5;"),
 ("fixed(4, 8, 1); return 0", "return bad;", "", "NK = 4; NH = 4;"),
 ("fixed(5, 8, 0); return 0", "return bad;", "", "NK = 5; NH = 4;"),
 # sizes
 ("var t = fill(k as u32); var i = 0`u32; while (i < 300) { const v = t.get(i); const want = (i % 3 == 0) && (i < (k as u32) * 3); if (!!v != want) { return 1 } if (v) { if (*v != i / 3 + 1) return 2 } i++ } return t.size() == k ? 0 : 3", "return 0;", "k == 0 || k == 1 || k == 4 || k == 5 || k == 10 || k == 20 || k == 47 || k == 90 || k == 100"),
 ("var t = fill(k as u32); var n = 0`u64; var s = 0`u64; for (const x, y: t) { n++; s += (x as u64) + (y as u64) } return n * 1000000 + s", "uint64_t s = 0; for (int i = 0; i < k; i++) s += i * 4 + 1; return (uint64_t)k * 1000000 + s;", "k == 0 || k == 1 || k == 9 || k == 48 || k == 100 || k == 127 || k == 128 || k == 180 || k == 250"),
 ("var t = fill(k as u32); var n = 0`u64; var s = 0`u64; t.each((x: u32, y: u32) => { iter_(x, y) }); return 0", "for (int i = 0; i < k; i++) if (!seen[i * 3]) return 1; return nseen != k;", "k == 0 || k == 1 || k == 9 || k == 48 || k == 90", "for (int i = 0; i < 100; i++) has[i * 3] = 1, M[i * 3] = i + 1;"),
 ("var t = fill(k as u32); const v = t.map[u64]((x: &const u32, y: &const u32) => (<u64>x) * 1000 + (<u64>y)); var s = 0`u64; for (const x, _: v) { s += x } return s * 1000 + v.size()", "uint64_t s = 0; for (int i = 0; i < k; i++) s += i * 3000 + i + 1; return s * 1000 + k;", "k == 0 || k == 1 || k == 9 || k == 48 || k == 150"),
 ("var t = fill(k as u32); var i = 0`u32; while (i < (k as u32)) { if (i % 3 != m as u32) { t.remove(i * 3) } i++ } return 0", "return 0;", "0"),
 ("var t = fill(k as u32); var i = 0`u32; while (i < (k as u32)) { if (i % 3 != (m as u32)) { t.remove(i * 3) } i++ } i = 0; while (i < (k as u32)) { const v = t.get(i * 3); if (!!v != (i % 3 == (m as u32))) { return 1 } if (v) { if (*v != i + 1) return 2 } i++ } return t.size()", "uint64_t n = 0; for (int i = 0; i < k; i++) n += i % 3 == m; return n;", "(k == 6 || k == 20 || k == 50 || k == 100 || k == 200) && m < 4"),
 # other keys and values
 ("var t = HashMap[String, u32](); t.insert(\"one\", 1); t.[\"two\"] = 2; t.insert(\"one\", a); t.insert(\"\", 7); const x = t.[\"one\"]; const y = t.[\"\"]; if (!x || !y || !!t.[\"three\"]) { return 1 } t.remove(\"two\"); return t.size() * 4 + ((*x == a && *y == 7 && !t.[\"two\"]) ? 3 : 0)", "return 2 * 4 + 3;"),
 ("var s = HashSet[u32](); s.insert(a); s.insert(7); s.insert(a); var n = 0`u64; for (const x: s) { n += x as u64 } const had = s.contains(a); s.remove(a); return n * 16 + s.size() * 4 + (had ? 2 : 0) + (s.contains(7) ? 1 : 0)", "return ((uint64_t)a + (a == 7 ? 0 : 7)) * 16 + (a == 7 ? 0 : 4) + 2 + (a != 7);", "a < 40"),
 ("{ var t = HashMap[u32, Res](); var i = 0`u32; while (i < (k as u32)) { t.insert(i, Res(i + 100)); i++ } t.insert(0, Res(5)); t.insert(1, Res(6), false); t.remove(2); const x = t.get(0); const y = t.get(1); if (!x || !y) { return 99 } if (x&.id != 5 || y&.id != 101) { return 98 } if (live() != t.size() || t.size() != k - 1) { return 97 } if (k > 3) { t.clear(); if (live() != 0) return 96 } } return live() as u64", "return 0;", "k >= 3 && k <= 15"),
 ("{ var t = HashMap[Res, u32](); var i = 0`u32; while (i < (k as u32)) { t.insert(Res(i), i); i++ } t.insert(Res(0), 7); t.remove(Res(1)); const x = t.get(Res(0)); if (!x) { return 99 } if (*x != 7) { return 98 } if (live() != t.size()) { return 97 } } return live() as u64", "return 0;", "k >= 2 && k <= 12"),
 ("{ var t = HashMap[String, Res](); t.insert(\"a\", Res(1)); t.insert(\"b\", Res(2)); t.insert(\"a\", Res(3)); var r = Res(4); t.insert(\"c\", r); t.remove(\"c\"); if (r.id != 4) { return 99 } for (const key, v: t) { if (v.id != 3 && v.id != 2) { return 98 } } if (live() != 3) { return 97 } } return live() as u64", "return 0;"),
]
D = [d for d in D if len(d) < 3 or d[2] != "0"]
PRE += "".join("func d%d(a: u32, k: u8, m: u8): u64 { %s }\n" % (i, d[0]) for i, d in enumerate(D))
CASES = [("return d%d(a, b, c)" % i, "uint32_t k = b, m = c; " + d[1], ("uint32_t k = b, m = c; " + (d[3] if len(d) > 3 else "") + "return " + (d[2] or "1")) if len(d) > 2 else "", d[0]) for i, d in enumerate(D)]
CASES = [(c[0], c[1], c[2].replace("uint32_t k = b, m = c; ", "({ uint32_t k = b, m = c; ").replace("return ", "") + "; })" if c[2] else "1", c[3]) for c in CASES]
def units(work):
    yield S.cases_unit("maps", work, CASES, params=P, ret="u64", pre=PRE, cpre=CPRE, mm=True, what="maps", time_s=800)
