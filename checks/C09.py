import sxlib as S
BOUNDS = "each control-flow form below with arbitrary 8-bit or 32-bit operands and up to 6 iterations"
OUTSIDE = "more iterations; coroutines"
ASSUMPTIONS = []
P = ("u8", "u8", "u8")
L = lambda body: body
CASES = [
 # if / else chains
 ("if (a > b) return 1; return 2", "return a > b ? 1 : 2;"),
 ("if (a > b) { return 1 } else { return 2 }", "return a > b ? 1 : 2;"),
 ("if (a > b) { return 1 } else if (a == b) { return 2 } else if (b > c) { return 3 } return 4", "return a > b ? 1 : a == b ? 2 : b > c ? 3 : 4;"),
 ("var r = 0`u64; if (a > 3) if (b > 3) { r = 1 } else { r = 2 } return r", "return a > 3 ? (b > 3 ? 1 : 2) : 0;"),
 ("var r = 0`u64; if (a > 3) { if (b > 3) { r = 1 } } else { r = 2 } return r", "return a > 3 ? (b > 3 ? 1 : 0) : 2;"),
 ("if (const x = a & 6) { return x as u64 } return 99", "return (a & 6) ? (a & 6) : 99;"),
 # while, break, continue
 ("var i = 0`u64; var s = 0`u64; while (i < (a & 3) as u64) { i++; if (i == 2) continue; s += i * 10 } return s", "uint64_t s = 0; for (uint64_t i = 1; i <= (a & 3); i++) if (i != 2) s += i * 10; return s;"),
 ("var i = 0`u64; while (true) { if (i == ((a & 3) as u64)) break; i++ } return i", "return a & 3;"),
 ("var i = 0`u64; while { i++; if (i > ((a & 3) as u64)) break } return i", "return (a & 3) + 1;"),
 ("var n = 0`u64; var i = 0`u64; while (i < 3) { i++; var j = 0`u64; while (j < 3) { j++; if (j == ((a & 3) as u64)) break; if (i == ((b & 3) as u64)) continue; n += 1 } } return n", "uint64_t n = 0; for (int i = 1; i <= 3; i++) for (int j = 1; j <= 3; j++) { if (j == (a & 3)) break; if (i == (b & 3)) continue; n++; } return n;"),
 ("var x = a & 7; var n = 0`u64; while (var y = x) { n += y as u64; x -= 1 } return n", "uint64_t n = 0; for (int x = a & 7; x; x--) n += x; return n;"),
 # for ranges
 ("var s = 0`u64; const n = (a & 7) as u64; for (const i: 0`u64..n) { s = s * 8 + i + 1 } return s", "uint64_t s = 0; for (uint64_t i = 0; i < (uint64_t)(a & 7); i++) s = s * 8 + i + 1; return s;"),
 ("var s = 0`u64; for (const i: 0..5) { if (i == ((a & 7) as i32)) continue; if (i == ((b & 7) as i32)) break; s = s * 8 + (i as u64) + 1 } return s", "uint64_t s = 0; for (int i = 0; i < 5; i++) { if (i == (a & 7)) continue; if (i == (b & 7)) break; s = s * 8 + i + 1; } return s;"),
 ("var s = 0`u64; const lo = (a & 7) as i32; const hi = (b & 7) as i32; for (const i: lo..hi) { s = s * 8 + (i as u64) + 1 } return s", "uint64_t s = 0; for (int i = a & 7; i < (b & 7); i++) s = s * 8 + i + 1; return s;", "(a & 7) <= (b & 7)"),
 ("var s = 0`u64; const hi = (a & 15) as i32; for (const i: range(0`i32, hi, 3)) { s = s * 16 + (i as u64) + 1 } return s", "uint64_t s = 0; for (int i = 0; i < (a & 15); i += 3) s = s * 16 + i + 1; return s;"),
 ("var s = 0`u64; const hi = (a & 7) as i32; for (const i: range(hi, 0`i32, -1)) { s = s * 16 + (i as u64) + 1 } return s", "uint64_t s = 0; for (int i = a & 7; i > 0; i += -1) s = s * 16 + i + 1; return s;"),
 ("var s = 0`u64; var xs = [a, b, c]; for (const x: xs) { s = s * 256 + (x as u64) } return s", "return ((uint64_t)a * 256 + b) * 256 + c;"),
 ("var s = 0`u64; var xs = [a, b, c]; for (const x, i: xs) { s = s * 256 + (x as u64) * ((i as u64) + 1) } return s", "return ((uint64_t)a * 256 + b * 2) * 256 + c * 3;"),
 ("var s = 0`u64; for (const i: 0..3) { for (const j: 0..3) { if (i == j) continue; if (j == ((a & 3) as i32)) break; s = s * 10 + (i as u64) * 3 + (j as u64) } } return s", "uint64_t s = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { if (i == j) continue; if (j == (a & 3)) break; s = s * 10 + i * 3 + j; } return s;"),
 # switch
 ("switch (a) { case 0`u8 => return 10; case 7`u8 => return 20; case 255`u8 => return 30; default => return 40 } return 50", "return a == 0 ? 10 : a == 7 ? 20 : a == 255 ? 30 : 40;"),
 ("var r = 1`u64; switch (a) { case 1`u8 => r = 2; case 2`u8 => r = 3; default => r = 4 } return r * 10 + r", "uint64_t r = a == 1 ? 2 : a == 2 ? 3 : 4; return r * 11;"),
 ("var r = 1`u64; switch (a) { case 1`u8 => { r = 2; r += 5 } case 2`u8 => { r = 3 } } return r", "return a == 1 ? 7 : 3;", "a == 1 || a == 2"),
 ("var r = 0`u64; switch (a) { case 1`u8, 3`u8, 5`u8 => r = 1; case 2`u8, 4`u8 => r = 2; default => r = 3 } return r", "return a == 1 || a == 3 || a == 5 ? 1 : a == 2 || a == 4 ? 2 : 3;"),
 ("var s = 0`u64; for (const i: 0..4) { switch (i as u8) { case 1`u8 => { s += 100; continue } case 2`u8 => { if (a > 5) continue; s += 10 } default => s += 1 } s += 1000 } return s", "uint64_t s = 0; for (int i = 0; i < 4; i++) { if (i == 1) { s += 100; continue; } if (i == 2) { if (a > 5) continue; s += 10; } else s += 1; s += 1000; } return s;"),
 ("switch (a & 3) { case 0`u8 => { switch (b & 1) { case 0`u8 => return 1; default => return 2 } } case 1`u8 => return 3; default => {} } return 4", "return (a & 3) == 0 ? ((b & 1) == 0 ? 1 : 2) : (a & 3) == 1 ? 3 : 4;"),
 # short circuit and side effects
 ("var n = 0`u64; if (t1(ptrof n, a > 3) && t2(ptrof n, b > 3)) n += 100; return n", "uint64_t n = 1; if (a > 3) { n += 10; if (b > 3) n += 100; } return n;"),
 ("var n = 0`u64; if (t1(ptrof n, a > 3) || t2(ptrof n, b > 3)) n += 100; return n", "uint64_t n = 1; if (a > 3) n += 100; else { n += 10; if (b > 3) n += 100; } return n;"),
 ("var n = 0`u64; const r = (t1(ptrof n, a > 3) && t2(ptrof n, b > 3)) || t2(ptrof n, c > 3); return n * 2 + (r as u64)", "uint64_t n = 1; int r = a > 3; if (r) { n += 10; r = b > 3; } if (!r) { n += 10; r = c > 3; } return n * 2 + r;"),
 ("var n = 0`u64; const r = a > 3 ? t1(ptrof n, b > 3) : t2(ptrof n, b > 9); return n * 2 + (r as u64)", "return a > 3 ? 2 + (b > 3) : 20 + (b > 9);"),
 # what the right side of a condition is called with is computed only if that side is
 ("if (b != 0 && inc(a / b, c) > 9) return 1; return 2", "return b && (uint8_t)(a / b + c) > 9 ? 1 : 2;"),
 ("if (b == 0 || inc(a / b, c) > 9) return 1; return 2", "return !b || (uint8_t)(a / b + c) > 9 ? 1 : 2;"),
 ("if (b == 0) { return 3 } else if (inc(a / b, c) > 9) { return 1 } return 2", "return !b ? 3 : (uint8_t)(a / b + c) > 9 ? 1 : 2;"),
 ("const x = b != 0 ? inc(a / b, c) : inc(a, c & 1); return x as u64", "return (uint8_t)(b ? a / b + c : a + (c & 1));"),
 ("var n = 0`u64; if (a > 3 && inc(nb(ptrof n, b), c) > 9) n += 100; return n", "uint64_t n = 0; if (a > 3) { n = 1; if ((uint8_t)(b + c) > 9) n += 100; } return n;"),
 ("var n = 0`u64; if (a > 3 || inc(nb(ptrof n, b), c) > 9) n += 100; return n", "uint64_t n = 0; if (a > 3) n += 100; else { n = 1; if ((uint8_t)(b + c) > 9) n += 100; } return n;"),
 ("var n = 0`u64; const r = (a > 3 && inc(nb(ptrof n, b), 1) > 9) || inc(nb(ptrof n, c), 1) > 9; return n * 2 + (r as u64)", "uint64_t n = 0; int r = a > 3; if (r) { n++; r = (uint8_t)(b + 1) > 9; } if (!r) { n++; r = (uint8_t)(c + 1) > 9; } return n * 2 + r;"),
 ("var n = 0`u64; const r = a > 3 ? inc(nb(ptrof n, b), 1) : b > 3 ? inc(nb(ptrof n, nb(ptrof n, c)), 2) : c; return n * 1000 + (r as u64)", "uint64_t n = a > 3 ? 1 : b > 3 ? 2 : 0; uint8_t r = a > 3 ? b + 1 : b > 3 ? c + 2 : c; return n * 1000 + r;"),
 ("var n = 0`u64; if (a > 3) { n += 5 } else if (inc(nb(ptrof n, b), 1) > 9) { n += 100 } else if (inc(nb(ptrof n, c), 1) > 9) { n += 200 } else { n += 400 } return n", "return a > 3 ? 5 : (uint8_t)(b + 1) > 9 ? 101 : (uint8_t)(c + 1) > 9 ? 202 : 402;"),
 ("var n = 0`u64; var i = 0`u8; while (i < 3 && inc(nb(ptrof n, i), a) != 200) { i++ } return n * 10 + (i as u64)", "uint64_t n = 0, i = 0; while (i < 3) { n++; if ((uint8_t)(i + a) == 200) break; i++; } return n * 10 + i;"),
 ("var n = 0`u64; const xs = [5`u8, 6`u8, 7`u8]; if (a < 3 && xs.[nb(ptrof n, a)] > 5) { n += 10 } return n", "uint64_t n = 0; if (a < 3) { n = 1; if (a > 0) n += 10; } return n;"),
 ("var n = 0`u64; return (a > 3 && (b > 3 ? inc(nb(ptrof n, c), 1) : inc(nb(ptrof n, nb(ptrof n, c)), 2)) > 9 ? 1000 : 0) + n", "uint64_t n = a > 3 ? (b > 3 ? 1 : 2) : 0; return (a > 3 && (uint8_t)(b > 3 ? c + 1 : c + 2) > 9 ? 1000 : 0) + n;"),
 ("var n = 0`u64; while (t1(ptrof n, n < ((a & 7) as u64)) && n != 5) {} return n", "uint64_t n = 0; for (;;) { int l = n < (uint64_t)(a & 7); n++; if (!(l && n != 5)) return n; }"),
 # early return from nested loops and functions
 ("for (const i: 0..3) { for (const j: 0..3) { if (i * 3 + j == ((a & 15) as i32)) return (i * 10 + j) as u64 } } return 99", "int v = a & 15; return v < 9 ? v / 3 * 10 + v % 3 : 99;"),
 ("return fact((a & 7) as u64)", "uint64_t r = 1; for (int i = 2; i <= (a & 7); i++) r *= i; return r;"),
 ("return (isEven((a & 7) as u64)) as u64", "return !(a & 1);"),
 ("return <u64> dflt(a as u64) + dflt(a as u64, 3) * 100 + dflt(a as u64, 4, 5) * 10000", "return (uint64_t)(a + 7 + 9) + (a + 3 + 9) * 100 + (a + 4 + 5) * 10000;"),
 # scoping and shadowing
 ("var x = a as u64; { var x = b as u64; x += 1 } return x", "return a;"),
 ("var s = 0`u64; for (const i: 0..2) { var x = a as u64; x += 1; s += x } return s", "return 2 * ((uint64_t)a + 1);"),
]
PRE = """
func t1(n: ^u64, v: bool): bool { *n += 1; return v }
func t2(n: ^u64, v: bool): bool { *n += 10; return v }
func inc(x: u8, y: u8): u8 => x + y
func nb(n: ^u64, v: u8): u8 { *n += 1; return v }
func fact(n: u64): u64 { if (n < 2) return 1; return n * fact(n - 1) }
func isOdd(n: u64): bool { if (n == 0) return false; return isEven(n - 1) }
func isEven(n: u64): bool { if (n == 0) return true; return isOdd(n - 1) }
func dflt(a: u64, b: u64 = 7, c: u64 = 9): u64 => a + b + c
"""
CASES += [
 # switch: several matches, ranges, enums, characters, blocks
 ("switch (a) { case 0`u8..9`u8 => return 1; case 10`u8..99`u8 => return 2; default => return 3 } return 4", "return a <= 9 ? 1 : a <= 99 ? 2 : 3;"),
 ("var r = 0`u64; switch (a) { case 1`u8, 5`u8..7`u8, 250`u8 => r = 1; case 2`u8..4`u8 => { r = 2; r *= 10 } default => r = 3 } return r", "return a == 1 || (a >= 5 && a <= 7) || a == 250 ? 1 : a >= 2 && a <= 4 ? 20 : 3;"),
 ("const k = a % 3 == 0 ? Color.Red : (a % 3 == 1 ? Color.Green : Color.Blue); switch (k) { case .Red => return 1; case .Green => return 2; case .Blue => return 3 } return 4", "return a % 3 == 0 ? 1 : a % 3 == 1 ? 2 : 3;"),
 ("const k = a > 9 ? Color.Red : Color.Blue; switch (k) { case .Red, .Green => return 1; default => return (k as u64) }  return 4", "return a > 9 ? 1 : 7;"),
 ("const k = a as char; switch (k) { case 'a' => return 1; case 'z' => return 2; default => return 3 } return 4", "return a == 'a' ? 1 : a == 'z' ? 2 : 3;"),
 ("const k = (a as i32) - 100; switch (k) { case -1`i32 => return 1; case 0`i32 => return 2; case 100`i32 => return 3; default => return 4 } return 5", "int k = a - 100; return k == -1 ? 1 : k == 0 ? 2 : k == 100 ? 3 : 4;"),
 ("var n = 0`u64; while (n < 20) { switch (n) { case 0`u64 => n = (a & 15) as u64 + 1; case 5`u64 => break; default => n += 3 } if (n == 5) { return 77 } } return n", "uint64_t n = 0; while (n < 20) { if (n == 0) n = (a & 15) + 1; else if (n == 5) ; else n += 3; if (n == 5) return 77; } return n;"),
 # union match
 ("var u: Num = 0`i32; if (a > 3) { u = (b as u64) + 300 } else if (b > 3) { u = a > 1 } else { u = (c as i32) - 50 } match (u) { case u64 as x => return x; case bool as f => return f ? 1 : 2; case i32 as i => return (i + 50) as u64 + 1000 } return 5", "return a > 3 ? b + 300 : b > 3 ? (a > 1 ? 1 : 2) : c + 1000;"),
 ("var u: Num = 0`i32; if (a > 3) { u = b as u64 } else if (b > 3) { u = a > 1 } match (u) { case u64, bool => return 1; else => return 2 } return 5", "return a > 3 || b > 3 ? 1 : 2;"),
 # counting loops: steps, empty ranges, large literals
 ("var s = 0`u64; const n = (a & 15) as i64; for (const i: range(0`i64, n, 4)) { s = s * 20 + (i as u64) + 1 } return s", "uint64_t s = 0; for (int i = 0; i < (a & 15); i += 4) s = s * 20 + i + 1; return s;"),
 ("var s = 0`u64; const lo = (a & 7) as i32; const hi = (b & 7) as i32; for (const i: lo..hi) { s = s * 9 + (i as u64) + 1 } return s", "uint64_t s = 0; for (int i = a & 7; i < (b & 7); i++) s = s * 9 + i + 1; return s;"),
 ("var s = 0`u64; const lo = (a & 7) as i32; const hi = (b & 7) as i32; const st = (c & 3) as i32 + 1; for (const i: range(lo, hi, st)) { s = s * 9 + (i as u64) + 1 } return s", "uint64_t s = 0; for (int i = a & 7; i < (b & 7); i += (c & 3) + 1) s = s * 9 + i + 1; return s;"),
 ("var s = 0`u64; const lo = (a & 7) as i32; for (const i: range(lo, -3`i32, -2)) { s = s * 12 + ((i + 4) as u64) } return s", "uint64_t s = 0; for (int i = a & 7; i > -3; i -= 2) s = s * 12 + i + 4; return s;"),
 ("var s = 0`u64; for (const i: 298..302) { if (i == 290 + ((a & 15) as i32)) continue; s = s * 1000 + (i as u64) } return s", "uint64_t s = 0; for (int i = 298; i < 302; i++) { if (i == 290 + (a & 15)) continue; s = s * 1000 + i; } return s;"),
 ("var s = 0`u64; for (const i: -2`i32..2`i32) { s = s * 10 + ((i + 5) as u64) } return s + (a as u64)", "return 3456 + a;"),
 # arrays, strings and characters in loops
 ("var xs = [a, b, c]; var i = 0`u64; var m = xs.[0]; while (i < 3) { if (xs.[i] > m) m = xs.[i]; i++ } return m as u64", "int m = a; if (b > m) m = b; if (c > m) m = c; return m;"),
 ("var xs = [a, b, c]; for (const i: 0..3) { for (const j: 0..2) { if (xs.[j] > xs.[j + 1]) { const t = xs.[j]; xs.[j] = xs.[j + 1]; xs.[j + 1] = t } } } return (xs.[0] as u64) * 65536 + (xs.[1] as u64) * 256 + (xs.[2] as u64)", "int x[3] = {a, b, c}; for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) if (x[j] > x[j + 1]) { int t = x[j]; x[j] = x[j + 1]; x[j + 1] = t; } return (uint64_t)x[0] * 65536 + x[1] * 256 + x[2];"),
 ("var m = [[a, b], [c, a]]; var s = 0`u64; for (const i: 0..2) { for (const j: 0..2) { s = s * 256 + (m.[i].[j] as u64) } } return s", "return (((uint64_t)a * 256 + b) * 256 + c) * 256 + a;"),
 # evaluation of conditions and arguments
 ("var n = 0`u64; if (!(t1(ptrof n, a > 3)) || a == b) { n += 100 } else if (t2(ptrof n, b > 3)) { n += 1000 } else { n += 10000 } return n", "uint64_t n = 1; if (!(a > 3) || a == b) n += 100; else { n += 10; n += b > 3 ? 1000 : 10000; } return n;"),
 ("const x = a > b ? a > c ? 1`u64 : 2`u64 : b > c ? 3`u64 : 4`u64; return x", "return a > b ? (a > c ? 1 : 2) : b > c ? 3 : 4;"),
 ("var x = 1`u64; x = x + (a > b ? 10`u64 : 20`u64) * (b > c ? 2`u64 : 3`u64); return x", "return 1 + (a > b ? 10 : 20) * (b > c ? 2 : 3);"),
 ("return <u64> gcd(a as u64 + 1, b as u64 & 7)", "uint64_t x = (uint64_t)a + 1, y = b & 7; while (y) { uint64_t t = x % y; x = y; y = t; } return x;"),
 ("return collatz((a & 7) as u64 + 1)", "uint64_t n = (a & 7) + 1, k = 0; while (n != 1) { n = n % 2 == 0 ? n / 2 : 3 * n + 1; k++; } return k;"),
 ("return firstOf(a, b, c)", "for (int i = 0; i < 3; i++) { int v = i == 0 ? a : i == 1 ? b : c; if (v % 2) { if (v > 100) return i; continue; } if (v == 0) break; } return 9;"),
]
PRE += """
enum Color { Red, Green, Blue = 7 }
type Num = i32 | u64 | bool
func gcd(a: u64, b: u64): u64 { var x = a; var y = b; while (y != 0) { const t = x % y; x = y; y = t } return x }
func collatz(m: u64): u64 { var n = m; var k = 0`u64; while (n != 1) { if (n % 2 == 0) n = n / 2; else n = 3 * n + 1; k++ } return k }
func firstOf(a: u8, b: u8, c: u8): u64 { var xs = [a, b, c]; for (const x, i: xs) { if (x % 2 != 0) { if (x > 100) return i as u64; continue } if (x == 0) break } return 9 }
"""
# nestings: every outer loop form around every inner one, leaving or continuing either at an arbitrary iteration, before or after the inner loop
FORMS = [
 ("while", "var %(v)s = -1`i64; while (%(v)s < %(n)d) { %(v)s++; %(b)s }", "for (int64_t %(v)s = 0; %(v)s <= %(n)d; %(v)s++) { %(b)s }"),
 ("for", "for (const %(v)s: 0`i64..%(n)d`i64) { %(b)s }", "for (int64_t %(v)s = 0; %(v)s < %(n)d; %(v)s++) { %(b)s }"),
 ("step", "for (const %(v)s: range(%(n)d`i64, 0`i64, -2)) { %(b)s }", "for (int64_t %(v)s = %(n)d; %(v)s > 0; %(v)s -= 2) { %(b)s }"),
 ("array", "var xs%(v)s = [3`i64, 0`i64, 1`i64, 2`i64]; for (const %(v)s: xs%(v)s) { %(b)s }", "static const int64_t xs%(v)s[] = {3, 0, 1, 2}; for (int k%(v)s = 0; k%(v)s < 4; k%(v)s++) { int64_t %(v)s = xs%(v)s[k%(v)s]; %(b)s }"),
 ("endless", "var %(v)s = -1`i64; while { %(v)s++; if (%(v)s >= %(n)d) break; %(b)s }", "for (int64_t %(v)s = 0; %(v)s < %(n)d; %(v)s++) { %(b)s }"),
]
JUMPS = ["break", "continue", "return s"]
NEST = []
for oi, (on, oc, orf) in enumerate(FORMS):
    for ii, (n, ic, irf) in enumerate(FORMS):
        for ji, j in enumerate(JUMPS):
            for ki, k in enumerate(JUMPS):
                body = lambda f: "s = s * 3 + (uint64_t)i; " if f else "s = s * 3 + (i as u64); "
                jump = lambda v, p, j: "if (%s == (%s & 3)%s) { %s; } " % (v, p, "" , j) 
                mk = lambda f: ((orf if f else oc) % {"v": "i", "n": 3, "b": ("s = s * 3 + (uint64_t)i; " if f else "s = s * 3 + (i as u64); ")
                    + ("if (i == A) { %s; } " % j if ki % 2 else "")
                    + ((irf if f else ic) % {"v": "j", "n": 2, "b": "if (j == B) { %s; } " % k + ("s = s * 5 + (uint64_t)j + 1; " if f else "s = s * 5 + (j as u64) + 1; ")}) + ("; " if not f else "")
                    + ("if (i == A) { %s; } " % j if not ki % 2 else "") + "s += 7"+ (";" if f else "")})
                NEST.append(("var s = 1`u64; const A = (a & 3) as i64; const B = (b & 3) as i64; " + mk(0) + "; return s + 1", "uint64_t s = 1; int64_t A = a & 3, B = b & 3; " + mk(1) + " return s + 1;", "", "%s in %s: %s outer, %s inner" % (n, on, j, k)))
SW = []
for oi, (on, oc, orf) in enumerate(FORMS):
    for j in JUMPS[1:]:
        mk = lambda f: ((orf if f else oc) % {"v": "i", "n": 3, "b": ("if (i == 0) { if (A == 1) { %s; } } else if (i == 1) { if (A == 2) { %s; } s += 10; } else { s += 100; } s = s * 3;" if f else "switch (i) { case 0`i64 => { if (A == 1) { %s } } case 1`i64 => { if (A == 2) { %s } s += 10 } default => { s += 100 } } s = s * 3") % (j, j)})
        SW.append(("var s = 1`u64; const A = (a & 3) as i64; " + mk(0) + "; return s + 1", "uint64_t s = 1; int64_t A = a & 3; " + mk(1) + " return s + 1;", "", "switch in %s: %s" % (on, j)))
CASES += SW
def units(work):
    yield S.cases_unit("nest", work, NEST, params=P, what="nested loops", time_s=300)
    yield S.cases_unit("flow", work, [c for c in CASES if c[1]], params=P, pre=PRE, what="control flow", time_s=300)
