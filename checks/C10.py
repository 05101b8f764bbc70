import sxlib as S
BOUNDS = "each combination below of defer, raise, catch, break, continue and return with arbitrary 8-bit operands"
OUTSIDE = "defer in coroutines; exceptions across threads"
ASSUMPTIONS = []
P = ("u8", "u8", "u8")
# (function body, returning u64; C body: E(k) records event k, the value is returned by R(v))
D = [
 ("defer ev(1); ev(2); return 3", "E(2); E(1); R(3);"),
 ("defer ev(1); defer ev(2); defer ev(3); return 0", "E(3); E(2); E(1); R(0);"),
 ("defer ev(1); if (a > 3) { return ev(2) } return ev(3)", "if (a > 3) { E(2); E(1); R(2); } E(3); E(1); R(3);"),
 ("if (a > 3) { defer ev(1); ev(2) } ev(3); return 0", "if (a > 3) { E(2); E(1); } E(3); R(0);"),
 ("for (const i: 0..3) { defer ev(1); if (i == ((a & 3) as i32)) continue; ev(2); if (i == ((b & 3) as i32)) break; ev(3) } return 0", "for (int i = 0; i < 3; i++) { if (i == (a & 3)) { E(1); continue; } E(2); if (i == (b & 3)) { E(1); break; } E(3); E(1); } R(0);"),
 ("for (const i: 0..3) { defer ev(1); if (i == ((a & 3) as i32)) return i as u64; defer ev(2); ev(3) } return 9", "for (int i = 0; i < 3; i++) { if (i == (a & 3)) { E(1); R(i); } E(3); E(2); E(1); } R(9);"),
 ("var i = 0`u64; while (i < 3) { defer ev(1); i++; { defer ev(2); if (i == ((a & 3) as u64)) continue; ev(3) } if (i == ((b & 3) as u64)) break; ev(4) } return i", "uint64_t i = 0; while (i < 3) { i++; if (i == (a & 3)) { E(2); E(1); continue; } E(3); E(2); if (i == (b & 3)) { E(1); break; } E(4); E(1); } R(i);"),
 ("defer ev(1); { defer ev(2); { defer ev(3); if (a > 100) return 5; if (a > 50) { defer ev(4); return 6 } } ev(5) } return 7", "if (a > 100) { E(3); E(2); E(1); R(5); } if (a > 50) { E(4); E(3); E(2); E(1); R(6); } E(3); E(5); E(2); E(1); R(7);"),
 ("var x = a as u64; defer { ev(1) }; x = x + 1; return x", "E(1); R(a + 1);"),
 ("switch (a & 3) { case 0`u8 => { defer ev(1); ev(2) } case 1`u8 => { defer ev(3); return 4 } default => ev(5) } return 6", "if ((a & 3) == 0) { E(2); E(1); } else if ((a & 3) == 1) { E(3); R(4); } else E(5); R(6);"),
 # exceptions
 ("return may(a) catch 7`u64", "if (a > 3) { E(1); R(a); } E(2); R(7);"),
 ("const x = may(a) catch 7`u64; ev(3); return x + 1", "if (a > 3) { E(1); E(3); R(a + 1); } E(2); E(3); R(8);"),
 ("const x = may(a) catch { ev(4); yield 9`u64 }; return x", "if (a > 3) { E(1); R(a); } E(2); E(4); R(9);"),
 ("vmay(a) catch discard; ev(3); return 1", "if (a > 3) E(1); else E(2); E(3); R(1);"),
 ("vmay(a) catch { ev(4) }; ev(3); return 1", "if (a > 3) E(1); else { E(2); E(4); } E(3); R(1);"),
 ("may(a) catch { ev(4); return 5 }; ev(3); return 1", "if (a > 3) E(1); else { E(2); E(4); R(5); } E(3); R(1);"),
 ("const x = chain(a, b) catch 50`u64; return x", "if (a > 3) E(1); else { E(2); R(50); } if (b > 3) E(1); else { E(2); R(50); } E(3); R(a + b);"),
 ("const x = reraise(a) catch 50`u64; return x", "if (a > 3) { E(1); E(5); R(a); } E(2); if (a > 1) { E(4); R(50); } E(5); R(77);"),
 ("const x = deferred(a) catch 50`u64; return x", "if (a > 3) { E(1); E(7); E(6); R(a); } E(2); E(6); R(50);"),
 ("const x = looped(a) catch 50`u64; return x", "uint64_t s = 0; for (int i = 2; i < 7; i++) { if (i > (a & 7)) { E(6); R(50); } s += i; E(6); } R(s);"),
 ("var n = 0`u64; for (const i: 0..4) { n += may((i as u8) + (a & 3)) catch { if (i == 1) continue; yield 100`u64 } } return n", "uint64_t n = 0; for (int i = 0; i < 4; i++) { int v = i + (a & 3); if (v > 3) { E(1); n += v; } else { E(2); if (i == 1) continue; n += 100; } } R(n);"),
 ("vmay(a) catch { return 5 }; ev(3); return 6", "if (a > 3) { E(1); E(3); R(6); } E(2); R(5);"),
 ("return (may(a) catch 1`u64) * 10 + (may(b) catch 2`u64)", "uint64_t x, y; if (a > 3) { E(1); x = a; } else { E(2); x = 1; } if (b > 3) { E(1); y = b; } else { E(2); y = 2; } R(x * 10 + y);"),
 ("return two(a) catch { yield streq(ex!.what(), \"one\") != 0 ? 61`u64 : 62`u64 }", "if (a == 1) R(61); if (a == 2) R(62); R(a);"),
]
# every pair of loops with deferred statements at each level, left in each way at an arbitrary iteration
LOOPS = [("for", "for (const %s: 0..2) { %s }", "for (int %s = 0; %s < 2; %s++) { %s }", 3),
         ("while", "var %s = -1`i32; while (%s < 1) { %s++; %s }", "for (int %s = 0; %s < 2; %s++) { %s }", 3),
         ("block", "const %s = 0`i32; { %s }", "for (int %s = 0; %s < 1; %s++) { %s }", 3)]
JUMPS = ["break", "continue", "return ev(5)", "raise Low()"]
NESTS = []
def fill(t, v, body):
    n = t.count("%s") - 1
    return t % ((v,) * n + (body,))
for oi, (on, oc, orf, _) in enumerate(LOOPS):
    for ii, (n, ic, irf, _) in enumerate(LOOPS):
        for j in JUMPS:
            for k in JUMPS:
                if on == "block" and j in JUMPS[:2]: continue
                if n == "block" and k in JUMPS[:2]: continue
                cin = fill(ic, "j", "defer ev(3); if (j == B) { %s }; defer ev(4)" % k)
                cout = fill(oc, "i", "defer ev(2); %s; if (i == A) %s; ev(6)" % (cin, j))
                src = "defer ev(1); const A = (a & 3) as i32; const B = (b & 3) as i32; %s; return 7`u64" % cout
                # reference: D(k) opens a deferred statement, unwound by the exit
                def ex(x, inner):
                    un = "E(3); " if inner else "E(2); "
                    if x in JUMPS[:2]: return un + x + ";"
                    un = ("E(3); " if inner else "") + "E(2); E(1); "
                    return ("E(5); " + un + "R(5);") if "return" in x else un + "R(50);"
                rin = fill(irf, "j", "if (j == B) { %s } E(4); E(3);" % ex(k, 1))
                rout = fill(orf, "i", "%s if (i == A) { %s } E(6); E(2);" % (rin, ex(j, 0)))
                NESTS.append((src, "int A = a & 3, B = b & 3; %s E(1); R(7);" % rout, "%s in %s: %s / %s" % (n, on, j, k)))
PRE = """
extern func ev(k: u64): u64
extern func tr(): u64
extern func streq(a: string, b: string): i32
exception Low => "low"
exception One => "one"
exception Two(n: u64) => "two"
func may(a: u8): !u64 { if (a > 3) { ev(1); return a as u64 } ev(2); raise Low() }
func vmay(a: u8): !void { if (a > 3) { ev(1); return } ev(2); raise Low() }
func chain(a: u8, b: u8): !u64 { const x = may(a); const y = may(b); ev(3); return x + y }
func reraise(a: u8): !u64 { const x = may(a) catch { if (a > 1) { ev(4); raise } yield 77`u64 }; ev(5); return x }
func deferred(a: u8): !u64 { defer ev(6); const x = may(a); defer ev(7); return x }
func over(i: u64, m: u64): !u64 { if (i > m) raise Low(); return i }
func looped(a: u8): !u64 { var s = 0`u64; for (const i: 2..7) { defer ev(6); s += over(i as u64, (a & 7) as u64) } return s }
func two(a: u8): !u64 { if (a == 1) raise One(); if (a == 2) raise Two(3); return a as u64 }
"""
CPRE = """static uint64_t T;
uint64_t ev(uint64_t k) { T = T * 8 + k; return k; }
uint64_t tr(void) { uint64_t t = T; T = 1; return t; }
int streq(const char *a, const char *b) { return !strcmp(a, b); }
#define E(k) (t = t * 8 + k)
#define R(v) return t * 16 + (v)
"""
PRE += "".join("func d%d(a: u8, b: u8, c: u8): u64 { %s }\n" % (k, d[0]) for k, d in enumerate(D))
CASES = [("tr(); const r = d%d(a, b, c); return tr() * 16 + r" % k, "uint64_t t = 1; " + d[1].replace("R(", "R(").replace("return", "return"), "", d[0]) for k, d in enumerate(D)]
CASES = [(x, y + " return 0;", z, m) for x, y, z, m in CASES]
NPRE = "".join("func n%d(a: u8, b: u8): !u64 { %s }\n" % (k, d[0]) for k, d in enumerate(NESTS))
NCASES = [("tr(); const r = n%d(a, b) catch 50`u64; return tr() * 64 + r" % k, "uint64_t t = 1; " + d[1] + " return 0;", "", d[2]) for k, d in enumerate(NESTS)]
def units(work):
    yield S.cases_unit("nest", work, NCASES, params=P, pre=PRE + NPRE, cpre=CPRE.replace("t * 16", "t * 64"), what="defer in nested loops", time_s=300)
    yield S.cases_unit("defer_mm", work, CASES, params=P, pre=PRE, cpre=CPRE, mm=True, what="defer and exceptions, memory managed", time_s=300)
    yield S.cases_unit("defer", work, CASES, params=P, pre=PRE, cpre=CPRE, what="defer and exceptions", time_s=300)
