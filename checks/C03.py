import sxlib as S
BOUNDS = "integer spellings of up to 16 hex, 22 octal, 64 binary and 20 decimal digits, all digit values; every character literal body of one character, one escape, two hex digits, three octal digits or one UTF-8 sequence of 2-4 bytes; every string literal of up to 2 arbitrary bytes and 4 bytes over the escape alphabet; all byte values end to end"
OUTSIDE = "floating literals; integers above 2^64-1; strings with an embedded NUL; longer strings"
ASSUMPTIONS = ["the byte-string hash is replaced by a constant for string interning"]
H = S.VERIF + "/harness/C03.c"
ST = ["-stub", "hashRawBytes=sx_hash0", "-stub", "hashStr=sx_hash0", "-path-steps", "30000000"]
def e2e(work):
    # literals through the whole compiler: the value the compiled program computes is the value the literal denotes
    ints, chars, strs = [], [], []
    for e in list(range(0, 65, 1)):
        for d in (-1, 0, 1):
            v = (1 << e) + d
            if 0 <= v < 1 << 64 and v not in ints:
                ints.append(v)
    sp = []
    for i, v in enumerate(ints):
        sp.append((["%d", "0x%X", "0o%o", "0x%x"][i % 4] % v if i % 5 else "0b" + bin(v)[2:], v))
    for v in (0, 7, 127, 255, 0x7fffffff, 0x80000000, 0xdeadbeef, (1 << 63) - 1, 1 << 63, 0xa5a5a5a5a5a5a5a5, (1 << 64) - 1):
        sp += [("%d" % v, v), ("0x%x" % v, v), ("0X%X".replace("X%", "x%") % v, v), ("0o%o" % v, v), ("0b" + bin(v)[2:], v)]
    for c in range(256):
        chars.append(("'\\x%02x'" % c, c))
        chars.append(("'\\%03o'" % c, c))
        if 32 <= c < 127 and chr(c) not in "'\\":
            chars.append(("'%c'" % c, c))
    for c in (0x80, 0xe9, 0x7ff, 0x800, 0x20ac, 0xffff, 0x10000, 0x1f600, 0x10ffff):
        chars.append(("'%s'" % chr(c), c))
    for e, v in zip("ntvrab$\"'\\", "\n\t\v\r\a\b$\"'\\"):
        chars.append(("'\\%s'" % e, ord(v)))
    lits = [(s, v) for s, v in sp] + [("<u64><u32>" + s, v) for s, v in chars]
    src = "extern func want(i: u64): u64\nextern func str(i: u64, s: string): void\nfunc lit(i: u64): u64 {\n"
    for i, (s, v) in enumerate(lits):
        src += "  if (i == %d) return %s;\n" % (i, s)
    src += "  return 0\n}\n"
    for c in range(1, 256):
        strs.append(("\\x%02x" % c, bytes([c])))
        strs.append(("a\\%03ob" % c, b"a" + bytes([c]) + b"b"))
    for c in range(32, 127):
        if chr(c) not in '"\\$':
            strs.append(("<%c>" % c, b"<%c>" % c))
    for e, v in zip("ntvrab$\"'\\", "\n\t\v\r\a\b$\"'\\"):
        strs.append(("x\\%sy" % e, b"x" + v.encode() + b"y"))
        strs.append(("\\\\\\%s\\\\" % e, b"\\" + v.encode() + b"\\"))
    for t in ("é€😀", "%d%s%%", "??=", "\\x41B", "\\1012", "\\x1bface", "'quoted'", "/* no */ // no", "a\\tb\\nc", "\\\\n", "\\\\\\\\"):
        strs.append((t, t.encode().replace(b"\\x41", b"A").replace(b"\\101", b"A").replace(b"\\x1b", b"\x1b").replace(b"\\\\", b"\0").replace(b"\\t", b"\t").replace(b"\\n", b"\n").replace(b"\0", b"\\")))
    src += "func strs(): void {\n" + "".join('  str(%d, "%s");\n' % (i, s) for i, (s, v) in enumerate(strs)) + "}\n"
    src += 'func main() {\n  var i = sx_u64("i");\n  sx_assume(<i32>(i < %d));\n  sx_assert(<i32>(lit(i) == want(i)), "value of a literal in the compiled program");\n  sx_reach("lit");\n  if (i == 0) strs();\n}\n' % len(lits)
    h = "static const uint64_t W[] = {" + ",".join("%dull" % v for s, v in lits) + "};\nuint64_t want(uint64_t i) { return W[i]; }\n"
    h += "static const char *const S[] = {" + ",".join('"' + "".join("\\%03o" % b for b in v) + '"' for s, v in strs) + "};\nvoid str(uint64_t i, const char *s) { sx_assert(!strcmp(s, S[i]), \"content of a string literal in the compiled program\"); sx_reach(\"str\"); }\n"
    return S.cxy_unit("compiled", src, work, harness=h, reach=["lit", "str"], bounds="%d integer and character literals, %d string literals through the whole compiler and the generated C" % (len(lits), len(strs)))
def units(work):
    yield e2e(work)
    for b, ks in ((16, (1, 2, 7, 8, 9, 15, 16)), (10, (1, 2, 9, 10, 18, 19, 20)), (8, (1, 3, 10, 11, 21, 22)), (2, (1, 8, 31, 32, 33, 63, 64))):
        for k in ks:
            yield S.c_unit("int%d_%d" % (b, k), H, work, defs=["-DINT", "-DBASE=%d" % b, "-DK=%d" % k, "-DSYM=%d" % {16: 8, 10: 8, 8: 8, 2: 5}[b]], time_s=100, reach=["int"], opts=ST, bounds="%d digits in base %d" % (k, b))
    yield S.c_unit("char", H, work, defs=["-DCHR"], time_s=100, reach=["char", "bad", "utf8"], opts=ST, bounds="one character literal")
    for k in (1, 2) + ((3,) if S.THOROUGH else ()):
        yield S.c_unit("str%d" % k, H, work, defs=["-DSTR", "-DFULL", "-DK=%d" % k], time_s=100, reach=["string"], opts=ST, bounds="%d arbitrary bytes in a string literal" % k)
    yield S.c_unit("esc4", H, work, defs=["-DSTR", "-DK=4"], time_s=300, reach=["string", "hex", "octal"], opts=ST, bounds="4 bytes over the escape alphabet in a string literal")
