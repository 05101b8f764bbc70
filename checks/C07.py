import sxlib as S
BOUNDS = "every sequence of 3 (thorough: 4) of the 19 binary operators; every combination of prefix, postfix, cast, member/call/index, assignment and conditional operators with one binary operator; through the whole compiler: every well-typed pair and triple of integer, comparison and logical operators on arbitrary 32-bit operands, every prefix pair, conditional, cast and assignment forms"
OUTSIDE = "longer operator sequences; overloaded operators; floating operands"
ASSUMPTIONS = ["operators follow the C precedence order, as the tree's operator table lists (range loosest)"]
H = S.VERIF + "/harness/C07.c"
PREC = {"*": 1, "/": 1, "%": 1, "+": 2, "-": 2, "<<": 3, ">>": 3, "<": 4, ">": 4, "<=": 4, ">=": 4, "==": 5, "!=": 5, "&": 6, "^": 7, "|": 8, "&&": 10, "||": 11}
ARI = ["*", "/", "%", "+", "-", "<<", ">>", "&", "^", "|"]
CMP = ["<", ">", "<=", ">=", "==", "!="]
LOG = ["&&", "||"]
V = "abcd"
def tree(ops):
    toks, pos = list(V[: len(ops) + 1]), [0]
    def climb(limit):
        l = V[pos[0]]
        while pos[0] < len(ops) and PREC[ops[pos[0]]] <= limit:
            o = ops[pos[0]]; pos[0] += 1
            r = climb(PREC[o] - 1)
            l = (o, l, r)
        return l
    return climb(99)
def typ(t):
    if isinstance(t, str): return "i"
    a, b = typ(t[1]), typ(t[2])
    if a is None or b is None: return None
    if t[0] in LOG: return "b" if a == b == "b" else None
    if a != "i" or b != "i": return None
    return "b" if t[0] in CMP else "i"
def cx(t):
    if isinstance(t, str): return t
    return "(%s %s %s)" % (cx(t[1]), t[0], cx(t[2]))
def divs(t):
    if isinstance(t, str): return []
    return divs(t[1]) + divs(t[2]) + ([(cx(t[1]), cx(t[2]))] if t[0] in "/%" else [])
def shifts(t):
    if isinstance(t, str): return []
    return shifts(t[1]) + shifts(t[2]) + ([cx(t[2])] if t[0] in ("<<", ">>") else [])
def e2e(work, seqs, name):
    cxy, h, calls = [], [], []
    k = 0
    for ops in seqs:
        t = tree(ops); ty = typ(t)
        if ty is None: continue
        vs = V[: len(ops) + 1]
        flat = vs[0] + "".join(" %s %s" % (o, v) for o, v in zip(ops, vs[1:]))
        ps = ", ".join("%s: i32" % v for v in vs)
        cxy.append("func ev%d(%s): %s => %s" % (k, ps, "i32" if ty == "i" else "bool", flat))
        conds = ["%s != 0 && !(%s == -1 && %s == INT32_MIN)" % (r, r, l) for l, r in divs(t)] + ["(uint32_t)%s < 32" % s for s in shifts(t)]
        calls.append((k, vs, ty))
        h.append("int ok%d(%s) { %sreturn %s; }\nint32_t r%d(%s) { return %s; }" % (k, ", ".join("int32_t " + v for v in vs), "", " && ".join(conds) or "1", k, ", ".join("int32_t " + v for v in vs), cx(t)))
        k += 1
    src = "".join("extern func ok%d(%s): i32\nextern func r%d(%s): i32\n" % (i, ", ".join(v + ": i32" for v in vs), i, ", ".join(v + ": i32" for v in vs)) for i, vs, ty in calls)
    src += "\n".join(cxy) + "\n"
    src += "func run(i: u32, a: i32, b: i32, c: i32, d: i32): void {\n"
    for i, vs, ty in calls:
        a = ", ".join(vs)
        src += "  if (i == %d) { if (ok%d(%s) != 0) { sx_assert(<i32>((<i32>ev%d(%s)) == r%d(%s)), \"an expression evaluates as its precedence says (%d)\"); sx_reach(\"eval\") } return }\n" % (i, i, a, i, a, i, a, i)
    src += "}\n"
    src += "func main() { var a = sx_i32(\"a\"); var b = sx_i32(\"b\"); var c = sx_i32(\"c\"); var d = sx_i32(\"d\"); const k = sx_choice_(%d, \"expr\"); run(k, a, b, c, d); }\n" % len(calls)
    return S.cxy_unit(name, src, work, harness="\n".join(h) + "\n", reach=["eval"], time_s=300, bounds="%d expressions, arbitrary operands" % len(calls), opts=["-path-steps", "3000000"])
MISC = r'''
extern func T(k: i32, got: i64, a: i32, b: i32, c: i32): void
func t0(a: i32): i32 => - -a
func t1(a: i32): i32 => -(-a)
func t2(a: i32, b: i32): i32 => a - -b
func t3(a: i32, b: i32): i32 => a + +b
func t4(a: i32): i32 => ~ ~a
func t5(a: i32): i32 => - ~a
func t6(a: i32): bool => !!(a > 3)
func t7(a: i32, b: i32): i32 { var x = 0`i32; x = a > b ? a : b; return x }
func t8(a: i32, b: i32): i32 { var x = a; var y = b; x = y = a ^ b; return x + y }
func t9(a: i32, b: i32, c: i32): i32 => a > b ? a > c ? a : c : b > c ? b : c
func t10(a: i32, b: i32): i64 => <i64>a * <i64>b
func t11(a: i32, b: i32): i64 => <i64>(a * b)
func t12(a: i32, b: i32): i32 => a + b as u8 as i32
func t13(a: i32, b: i32): i32 => (a + b) as u8 as i32
func t14(a: i32, b: i32): i32 { var x = a; const y = x++ + b; return y * 3 + x }
func t15(a: i32, b: i32): i32 { var x = a; const y = ++x + b; return y * 3 + x }
func t16(a: i32, b: i32): i32 { var x = a; const y = b - x--; return y * 3 + x }
func t17(a: i32, b: i32): i32 { var x = a; const y = b - --x; return y * 3 + x }
func t18(a: i32, b: i32): i32 { var x = a; x += b - 1; x -= b ^ 5; x *= a - b; return x }
func t19(a: i32, b: i32): i32 { var x = a; x &= b | 1; x |= b & 12; x ^= a + b; x <<= 3; x >>= 2; return x }
func t20(a: i32, b: i32): i32 { var x = a; if (b != 0) { x /= (b & 1023) + 1; x %= 7 } return x }
func t21(a: i32, b: i32, c: i32): i32 => (a > b ? a : b) - c
func t22(a: i32, b: i32, c: i32): i32 => -(a - b) - c
func t23(a: i32, b: i32, c: i32): i32 => a - (b - c)
func t24(a: i32, b: i32, c: i32): i32 => a - (b + c) * 2
func t25(a: i32, b: i32, c: i32): bool => !(a == b) && (b == c || a < c)
func t26(a: i32, b: i32): i32 => -5 - a - -7 + b
func t27(a: i32): i64 => -(-9 - <i64>a)
func t28(a: i32, b: i32): i32 { var x = a; x = b > 0 ? x : x = 5; return x }
func t29(a: i32, b: i32, c: i32): i32 { var x = [a, b, c]; x.[1] += x.[0] * 2; x.[0] = x.[2] = x.[1] - 1; return x.[0] ^ x.[1] + x.[2] }
func t30(a: i32): i32 => - - -a
func t31(a: i32, b: i32): i32 => a - - -b
func t32(a: i32): i32 => - -5 + a
func main() {
  var a = sx_i32("a"); var b = sx_i32("b"); var c = sx_i32("c");
  T(0, <i64>t0(a), a, b, c); T(1, <i64>t1(a), a, b, c); T(2, <i64>t2(a, b), a, b, c); T(3, <i64>t3(a, b), a, b, c); T(4, <i64>t4(a), a, b, c); T(5, <i64>t5(a), a, b, c); T(6, <i64>t6(a), a, b, c);
  T(7, <i64>t7(a, b), a, b, c); T(8, <i64>t8(a, b), a, b, c); T(9, <i64>t9(a, b, c), a, b, c); T(10, t10(a, b), a, b, c); T(11, t11(a, b), a, b, c); T(12, <i64>t12(a, b), a, b, c); T(13, <i64>t13(a, b), a, b, c);
  T(14, <i64>t14(a, b), a, b, c); T(15, <i64>t15(a, b), a, b, c); T(16, <i64>t16(a, b), a, b, c); T(17, <i64>t17(a, b), a, b, c); T(18, <i64>t18(a, b), a, b, c); T(19, <i64>t19(a, b), a, b, c); T(20, <i64>t20(a, b), a, b, c);
  T(21, <i64>t21(a, b, c), a, b, c); T(22, <i64>t22(a, b, c), a, b, c); T(23, <i64>t23(a, b, c), a, b, c); T(24, <i64>t24(a, b, c), a, b, c); T(25, <i64>t25(a, b, c), a, b, c); T(26, <i64>t26(a, b), a, b, c); T(27, t27(a), a, b, c); T(28, <i64>t28(a, b), a, b, c); T(29, <i64>t29(a, b, c), a, b, c); T(30, <i64>t30(a), a, b, c); T(31, <i64>t31(a, b), a, b, c); T(32, <i64>t32(a), a, b, c);
  sx_reach("end")
}
'''
MISCH = r'''
static int64_t w(int k, int32_t a, int32_t b, int32_t c) {
  int32_t x, y;
  switch (k) {
  case 0: return a; case 1: return a; case 2: return (int32_t)(a + b); case 3: return (int32_t)(a + b); case 4: return a; case 5: return (int32_t)(a + 1); case 6: return a > 3;
  case 7: return a > b ? a : b; case 8: return (int32_t)(2 * (a ^ b)); case 9: return a > b ? (a > c ? a : c) : (b > c ? b : c); case 10: return (int64_t)a * (int64_t)b; case 11: return (int32_t)(a * b); case 12: return (int32_t)(a + (b & 255)); case 13: return (a + b) & 255;
  case 14: return (int32_t)((a + b) * 3 + (a + 1)); case 15: return (int32_t)((a + 1 + b) * 3 + (a + 1)); case 16: return (int32_t)((b - a) * 3 + (a - 1)); case 17: return (int32_t)((b - (a - 1)) * 3 + (a - 1));
  case 18: x = a + (b - 1); x = x - (b ^ 5); x = x * (a - b); return x; case 19: x = a & (b | 1); x = x | (b & 12); x = x ^ (a + b); x = x << 3; x = x >> 2; return x;
  case 20: x = a; if (b != 0) { x = x / ((b & 1023) + 1); x = x % 7; } return x; case 21: return (int32_t)((a > b ? a : b) - c); case 22: return (int32_t)(-(a - b) - c); case 23: return (int32_t)(a - b + c); case 24: return (int32_t)(a - ((b + c) * 2)); case 25: return (a != b) & ((b == c) | (a < c)); case 26: return (int32_t)(2 - a + b); case 27: return 9 + (int64_t)a; case 28: return b > 0 ? a : 5;
  case 29: { int32_t v[3] = {a, b, c}; v[1] = v[1] + v[0] * 2; v[2] = v[1] - 1; v[0] = v[2]; return v[0] ^ (int32_t)(v[1] + v[2]); } case 30: return (int32_t)-a; case 31: return (int32_t)(a - b); case 32: return (int32_t)(5 + a); }
  return 0; }
void T(int k, int64_t got, int32_t a, int32_t b, int32_t c) { static char m[80]; if (k == 20 && a == INT32_MIN) return; __builtin_memcpy(m, "an expression evaluates as its grouping says (t  )", 51); m[47] = '0' + k / 10; m[48] = '0' + k % 10; sx_assert(got == w(k, a, b, c), m); }
'''
def units(work):
    import itertools
    al = ARI + CMP + LOG
    yield S.c_unit("tree", H, work, defs=["-DBIN", "-DNB=%d" % (4 if S.THOROUGH else 3)], time_s=400, reach=["end"], opts=["-path-steps", "30000000"], bounds="all sequences of binary operators")
    yield S.c_unit("mixed", H, work, defs=["-DMIX"], time_s=200, reach=["end"], opts=["-path-steps", "30000000"], bounds="prefix, postfix, cast, call, assignment and conditional forms with each binary operator")
    yield S.cxy_unit("misc", MISC, work, harness=MISCH, reach=["end"], time_s=200, bounds="33 expression forms on arbitrary 32-bit operands")
    yield e2e(work, list(itertools.product(al, repeat=2)), "pairs")
    tr = [t for t in itertools.product(al, repeat=3) if typ(tree(t))]
    yield e2e(work, tr, "triples")
