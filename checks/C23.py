import sxlib as S
BOUNDS = "every binary operator on two literals (integer, negative integer, character, boolean) of arbitrary 64-bit value, both evaluators; products, quotients and remainders: windows of 256 values around 16 boundary values against 16 constants; shifts of arbitrary values by those constants; unary operators and conditions on arbitrary literals; through the whole compiler: about 700 folded expressions of boundary constants, casts of literals between all integer types, and compile-time conditions, loops, assignments, arrays and strings, each combined with an arbitrary run-time value"
OUTSIDE = "floating point constants; results no 64-bit literal can hold; reflection (type members, attributes); operands of logical operators other than 16 listed values (the tree converts them to floating point)"
ASSUMPTIONS = []
H = S.VERIF + "/harness/C23.c"
B = [0, 1, -1, 2, 3, 5, 7, 10, 127, 128, 255, 256, 65535, 2**31 - 1, 2**31, 2**32, 2**53 + 1, 2**63 - 1, -2**63, -128, -129, 2**63, 2**64 - 1, 10**19]
def lit(v): return str(v)
def tdiv(a, b): q = abs(a) // abs(b); return -q if (a < 0) != (b < 0) else q
OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: tdiv(a, b) if b else None, "%": lambda a, b: a - b * tdiv(a, b) if b else None,
       "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b, "<<": lambda a, b: a << b if 0 <= b < 64 else None, ">>": lambda a, b: a >> b if 0 <= b < 64 else None}
CMP = {"<": lambda a, b: a < b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b}
def c64(v): return "(uint64_t)%dull" % (v & (2**64 - 1))
def result(e, v):
    t = "i64" if v < 2**63 else "u64"
    return ("const x: %s = %s; return (x as u64) ^ a" % (t, e), "a ^ " + c64(v), "", e)
def folded():
    r = []
    for i, x in enumerate(B):
        for j, y in enumerate(B):
            for k, (o, f) in enumerate(OPS.items()):
                if not S.THOROUGH and (i * 7 + j * 3 + k) % 5: continue
                v = f(x, y)
                # as run-time arithmetic would have it: within the operands' common type
                if v is None or not (-2**63 <= v < 2**63 if max(x, y) < 2**63 else 0 <= min(x, y, v) and v < 2**64): continue
                r.append(result("%s %s %s" % (lit(x), o, lit(y)), v))
            for k, (o, f) in enumerate(CMP.items()):
                if (max(x, y) < 2**63 or min(x, y) >= 0) and (S.THOROUGH or (i + j * 5 + k) % 7 == 0): r.append(("if (%s %s %s) { return a + 1 } return a + 2" % (lit(x), o, lit(y)), "a + %d" % (1 if f(x, y) else 2)))
    return r
T = {"i8": (-2**7, 2**7 - 1), "u8": (0, 2**8 - 1), "i16": (-2**15, 2**15 - 1), "u16": (0, 2**16 - 1), "i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1)}
def wrap(v, t):
    lo, hi = T[t]; n = hi - lo + 1
    v &= n - 1
    return v - n if v > hi else v
def casts():
    r = []
    for t in T:
        for v in sorted(set(B + [200, -200, 40000, 3 * 10**9])):
            if v >= 2**63 and t not in ("u64",): continue
            w = wrap(v, t); e = "((%s) as %s)" % (lit(v), t)
            r.append(("const x = %s as i64; return (x as u64) + a" % e, "a + " + c64(w), "", e + " as i64"))
            if v in (200, -200, -1, 255, 256, 65535): r.append(("if (%s < 0) { return a + 1 } return a + 2" % e, "a + %d" % (1 if w < 0 else 2)))
            if v in (-129, 200, 40000, 2**31, -1):
                for u in T: r.append(("const x: u64 = ((%s as %s) as u64); return x - a" % (e, u), c64(wrap(w, u)) + " - a"))
    return r
PRE = """
extern func ch_(s: string, i: u64): u64
func at_(s: string, i: u64): u64 => ch_(s, i)
func f3(x: u64, y: u64, z: u64): u64 => x * 100 + y * 10 + z
struct Pt { x: i32; y: u8; z = 5`u32 }
func kind[T](t: T): u64 { #if (T.isInteger) { return 1 } else #if (T.isStruct) { return 2 } else #if (T.isString) { return 3 } else { return 4 } }
func fields[T](t: T): u64 { var n = 0`u64; #for (const M: T.members) { #if (M.isField) { n = n * 2 + 1 } else { n = n * 2 } } return n }
func sum[T](t: T): u64 { var n = 0`u64; #for (const i: 0..T.membersCount) { n = n * 8 + (t.#{i} as u64) } return n }
func vsum(...xs: auto): u64 { var n = 0`u64; #for (const x: xs) { n = n * 8 + (#{x} as u64) } return n }
func same[T, U](): u64 { #if (#T == #U) { return 1 } else { return 2 } }
"""
CPRE = "uint64_t ch_(const char *s, uint64_t i) { for (uint64_t k = 0; k < i; k++) if (!s[k]) return 999; return (uint8_t)s[i]; }\n"
def text(s): return "".join(" + ch_(\"%s\", %d) * %d" % (s, i, i + 1) for i in range(len(s) + 1))
def strs():
    r = []
    for e, s in [('"a" + -5', "a-5"), ('"a" + (3 - 5)', "a-2"), ('"a" + 7', "a7"), ('"x" + true', "xtrue"), ('"b" + \'c\'', "bc"), ('"ab" + "cd" + 12', "abcd12"), ('"" + 18446744073709551615', "18446744073709551615"), ('"m" + -9223372036854775807', "m-9223372036854775807")]:
        r.append(("#const z = %s; return a%s" % (e, "".join(" + at_(#{z}, %d) * %d" % (i, i + 1) for i in range(len(s) + 1))), "a" + text(s)))
    return r
COMP = [
 ("#const n = 5; return a + #{n * 2 + 1} - #{n / 2} * 4 + #{n % 3}", "a + 11 - 8 + 2"),
 ("#const n = 5; #if (n > 3 && n < 9) { return a + 1 } else { return a + 2 }", "a + 1"),
 ("#const n = 5; #if (n < 3 || n == 6) { return a + 1 } else #if (!(n != 5)) { return a + 2 } else { return a + 3 }", "a + 2"),
 ("#const n = 0; #if (n) { return a + 1 } return a + 2", "a + 2"),
 ("#const n = 5 - 7; #if (n < 0) { return a + 1 } else { return a + 2 }", "a + 1"),
 ("#const n = (7 / 2) * 2; return a ^ #{n}", "a ^ 6"),
 ("#const n = 5; #{ n = n * 2 + 1 } return a + #{n}", "a + 11"),
 ("#const n = 5; #{ n += 2 } #{ n *= n } #{ n -= 4 } #{ n %= 10 } return a + #{n}", "a + 5"),
 ("#const n = 12; #{ n <<= 2 } #{ n |= 3 } #{ n &= 50 } #{ n ^= 1 } #{ n >>= 1 } return a + #{n}", "a + 25"),
 ("#const n = 0; #for (const i: 0..4) { #{ n += i } } return a + #{n}", "a + 6"),
 ("#const n = 1; #for (const i: 0..4) { #for (const j: 0..i) { #if (j != 1) { #{ n = n * 2 + j } } } } return a + #{n}", "a + 18"),
 ("var n = 0`u64; #for (const i: 2..5) { n = n * 10 + #{i} } return n + a", "a + 234"),
 ("var n = 0`u64; #for (const i: -2..2) { #if (i < 0) { n = n * 4 + 1 } else { n = n * 4 + 2 } } return n + a", "a + 1 * 64 + 16 + 8 + 2"),
 ("var n = 0`i64; #for (const i: -2..2) { n = n * 10 + (#{i * 2 - 1}) } return (n as u64) + a", "a + (uint64_t)(-5 * 1000 - 3 * 100 - 1 * 10 + 1)"),
 ("var n = 0`u64; #for (const i: range(0, 7, 3)) { n = n * 10 + #{i + 1} } return n + a", "a + 147"),
 ("var n = 0`u64; #for (const i: range(6, 0, -2)) { n = n * 10 + #{i} } return n + a", "a + 642"),
 ("var n = 0`u64; #for (const i: 3..3) { n = n + 1 + #{i} } return n + a", "a"),
 ("#const z = [7, 8, 9]; return a + f3(#{z.[1]}, #{z.[0]}, #{z.[2]}) + #{z.[1 + 1]}", "a + 879 + 9"),
 ("#const z = (7, 8, 9); return a + f3(#{z.[1]}, #{z.[0]}, #{z.[2]})", "a + 879"),
 ("#const z = [7, 8, 9]; var n = 0`u64; #for (const c: z) { n = n * 10 + #{c} } return n + a", "a + 789"),
 ("#const z = \"abc\"; var n = 0`u64; #for (const c: z) { n = n * 3 + (#{c} as u64) } return n + a", "a + 97 * 9 + 98 * 3 + 99"),
 ("#const z = \"abc\"; return a + (#{z.[1]} as u64) * f3(1, 2, 3)", "a + 98 * 123"),
 ("#const x = \"ab\"; #const y = \"a\" + \"b\"; #if (x == y) { return a + 1 } else { return a + 2 }", "a + 1"),
 ("#const x = \"ab\"; #if (x < \"b\" && x > \"a\" && x != \"\") { return a + 1 } else { return a + 2 }", "a + 1"),
 ("return kind(a) * 1000 + kind(Pt{x: 1, y: 2}) * 100 + kind(\"s\") * 10 + kind((1, 2)) + a", "a + 1234"),
 ("return fields(Pt{x: 1, y: 2}) + a", "a + 7"),
 ("return sum((a, 3, 5))", "a * 64 + 24 + 5"),
 ("return vsum(a, 2, 1) + vsum(a) + vsum()", "a * 64 + 17 + a"),
 ("return same[i32, i32]() * 1000 + same[i32, u32]() * 100 + same[Pt, Pt]() * 10 + same[string, Pt]() + a", "a + 1212"),
 ("return same[(i32, u8), (i32, u8)]() * 1000 + same[(i32, u8), (i32, i8)]() * 100 + same[^i32, ^i32]() * 10 + same[i32?, u32?]() + a", "a + 1212"),
]
def units(work):
    for n, reach, t in (("simple", ["end", "integer", "char", "bool"], 200), ("muldiv", ["end", "integer", "bad"], 400), ("unary", ["end", "integer", "bool"], 100), ("truth", ["end", "bool"], 100)):
        yield S.c_unit(n, H, work, reach=reach, defs=["-D" + n.upper()], time_s=t)
    W = "a constant expression has the value run time would give"
    yield S.cases_unit("folded", work, folded(), params=("u64",), what=W)
    yield S.cases_unit("casts", work, casts(), params=("u64",), what=W)
    yield S.cases_unit("comptime", work, COMP + strs(), pre=PRE, cpre=CPRE, params=("u64",), what=W)
