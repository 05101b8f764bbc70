import sxlib as S
BOUNDS = "every operator, comparison, compound assignment, increment and conversion at each of the 8 integer types (and bool/char conversions), on arbitrary operand values; arithmetic with typed literals; mixed widths of equal signedness"
OUTSIDE = "mixed-signedness comparison and division, division by zero, MIN / -1 and shifts by more than the width minus one (undefined in the generated C); floating point"
ASSUMPTIONS = ["the result of an operation is observed after it is stored in or returned as its type"]
I = ["i8", "i16", "i32", "i64"]
U = ["u8", "u16", "u32", "u64"]
CT = {t: ("int" if t[0] == "i" else "uint") + t[1:] + "_t" for t in I + U}
W = {t: int(t[1:]) for t in I + U}
def units(work):
    ar, cmpo, comp, conv, mixed = [], [], [], [], []
    for t in I + U:
        c, w = CT[t], W[t]
        A, B = "(%s)a" % c, "(%s)b" % c
        mn = "INT%d_MIN" % w
        for op in ["+", "-", "*", "&", "|", "^", "/", "%", "<<", ">>"]:
            pre = "1"
            if op in "/%":
                pre = B + " != 0" + (" && !((%s) == %s && (%s) == -1)" % (A, mn, B) if t[0] == "i" else "")
            if op in ("<<", ">>"):
                pre = "(uint64_t)(%s) < %d" % (B, w)
            if op == "*" and w == 64 and not S.THOROUGH: pass
            un = "u" + c if t[0] == "i" else c
            ref = "(uint64_t)(%s)((%s)(%s) %s (%s)(%s))" % (c, un, A, op, un, B) if op in ("+", "-", "*", "<<") else "(uint64_t)(%s)(%s %s %s)" % (c, A, op, B)
            ar.append(("const x = a as %s; const y = b as %s; const z: %s = x %s y; return z as u64" % (t, t, t, op), ref, pre, t + " " + op))
            comp.append(("var x = a as %s; const y = b as %s; x %s= y; return x as u64" % (t, t, op), ref, pre, t + " " + op + "="))
        for op in ["==", "!=", "<", ">", "<=", ">="]:
            cmpo.append(("const x = a as %s; const y = b as %s; const z = x %s y; return z as u64" % (t, t, op), "(uint64_t)(%s %s %s)" % (A, op, B), "", t + " " + op))
            cmpo.append(("const x = a as %s; const y = b as %s; if (x %s y) return 7; return 9" % (t, t, op), "(uint64_t)(%s %s %s) ? 7 : 9" % (A, op, B), "", "if " + t + " " + op))
        for op, ref in [("-", "(uint64_t)(%s)(0 - (uint64_t)a)" % c), ("~", "(uint64_t)(%s)~(uint64_t)a" % c), ("+", "(uint64_t)%s" % A)]:
            ar.append(("const x = a as %s; const z: %s = %sx; return z as u64" % (t, t, op), ref, "", t + " unary " + op))
        ar.append(("const x = a as %s; if (!x) return 1; return 2" % t, "%s == 0 ? 1 : 2" % A, "", t + " !") if False else ("const x = a as %s; if (x) return 1; return 2" % t, "%s != 0 ? 1 : 2" % A, "", t + " truthy"))
        for pat, d, use in [("x++", 1, 0), ("++x", 1, 1), ("x--", -1, 0), ("--x", -1, 1)]:
            new = "(%s)((uint64_t)a + (uint64_t)(%d))" % (c, d)
            comp.append(("var x = a as %s; const y: %s = %s; return (x as u64) * 3 + (y as u64)" % (t, t, pat), "(uint64_t)%s * 3 + (uint64_t)%s" % (new, new if use else A), "", t + " " + pat))
        for u in I + U:
            d = CT[u]
            conv.append(("const x = a as %s; const y = x as %s; return y as u64" % (t, u), "(uint64_t)(%s)(%s)a" % (d, c), "", "%s as %s" % (t, u)))
            conv.append(("const x = a as %s; const y = <%s>x; return <u64>y" % (t, u), "(uint64_t)(%s)(%s)a" % (d, c), "", "<%s>%s" % (u, t)))
            for v in I + U:
                conv.append(("return ((a as %s) as %s) as u64 + (((b as %s) as %s) as %s) as u64" % (t, u, t, u, v), "(uint64_t)(%s)(%s)a + (uint64_t)(%s)(%s)(%s)b" % (d, c, CT[v], d, c), "", "chain %s %s %s" % (t, u, v)))
            conv.append(("return <u64>(<%s>(<%s>a))" % (u, t), "(uint64_t)(%s)(%s)a" % (d, c), "", "<%s>(<%s>a)" % (u, t)))
            conv.append(("const x = a as %s; if ((x as %s) < 3) return 1; return 2" % (t, u), "(%s)(%s)a < 3 ? 1 : 2" % (d, c), "", "(%s as %s) < 3" % (t, u)))
            conv.append(("const x = [a as %s]; const y = (x.[0] as %s) >> 1; return <u64> y" % (t, u), "(uint64_t)(%s)((%s)(%s)a >> 1)" % (d, d, c), "", "(%s as %s) >> 1" % (t, u)))
            if W[u] > W[t] and (t[0] == u[0] or t[0] == "u"):
                conv.append(("const x = a as %s; const y: %s = x; return y as u64" % (t, u), "(uint64_t)(%s)(%s)a" % (d, c), "", "%s widened to %s" % (t, u)))
                conv.append(("const x = a as %s; return take%s(x)" % (t, u), "(uint64_t)(%s)(%s)a" % (d, c), "", "%s passed as %s" % (t, u)))
                if t[0] == u[0]:
                    for op in ["+", "-", "*", "/", "%", "&", "|", "^", "<", ">=", "=="]:
                        pre = "(%s)b != 0" % d + (" && (%s)b != -1" % d if t[0] == "i" else "") if op in "/%" else ""
                        pre2 = "(%s)a != 0" % c + (" && (%s)a != -1" % c if t[0] == "i" else "") if op in "/%" else ""
                        rt = "const z" if op in ("<", ">=", "==") else "const z: %s" % u
                        cast = "" if op in ("<", ">=", "==") else "(%s)" % d
                        un = "u" + d if t[0] == "i" and op in "+-*" else d
                        mixed.append(("const x = a as %s; const y = b as %s; %s = x %s y; return z as u64" % (t, u, rt, op), "(uint64_t)%s((%s)(%s)(%s)a %s (%s)(%s)b)" % (cast, un, d, c, op, un, d), pre, "%s %s %s" % (t, op, u)))
                        mixed.append(("const x = a as %s; const y = b as %s; %s = y %s x; return z as u64" % (t, u, rt, op), "(uint64_t)%s((%s)(%s)b %s (%s)(%s)(%s)a)" % (cast, un, d, op, un, d, c), pre2, "%s %s %s" % (u, op, t)))
        conv.append(("const x = a as %s; return (x as bool) as u64" % t, "%s != 0" % A, "", t + " as bool") if False else ("const x = a > b; return (x as %s) as u64" % t, "a > b", "", "bool as " + t))
        for op in ["+", "-", "*", "&", "|", "^", "<<", ">>"]:
            pr = "b < 64" if op in ("<<", ">>") else "1"
            conv.append(("const z = <%s>a %s b; return <u64>z" % (t, op), "(uint64_t)(%s)(a %s b)" % (c, op), pr, "<%s> applies to a whole a %s b" % (t, op)))
            conv.append(("const z = (a %s b) as %s; return <u64>z" % (op, t), "(uint64_t)(%s)(a %s b)" % (c, op), pr, "(a %s b) as %s" % (op, t)))
        conv.append(("const z = <%s> a > b ? a : b; return <u64>z" % t, "(uint64_t)(%s)(a > b ? a : b)" % c, "", "<%s> applies to a whole conditional" % t))
        conv.append(("const x = a as %s; const y = b as %s; return <u64> x * <%s>y + x" % (t, t, t), "(uint64_t)(%s)((uint64_t)%s * (uint64_t)((%s)((uint64_t)%s + (uint64_t)%s)))" % (c, A, c, B, A), "" if w < 32 else "", "x * <%s>y + x" % t)) if w == 64 else None
        conv.append(("const z = (<%s> a) as u64 + b; return z" % t, "(uint64_t)%s + b" % A, "", "(<%s> a) as u64 + b" % t))
        conv.append(("const z = -(a as %s); const y: %s = z; return <u64>y" % (t, t), "(uint64_t)(%s)(0 - (uint64_t)%s)" % (c, A), "", "- of a converted %s" % t))
    lits = []
    for t in I + U:
        c, w = CT[t], W[t]
        A, un = "(%s)a" % c, "u" + CT[t] if t[0] == "i" else CT[t]
        for v in [1, 3, 100] + ([30000] if w > 8 else []) + ([1000000007] if w > 16 else []) + ([(1 << 40) + 7] if w > 32 else []):
            for op in "+-*&|^":
                lits.append(("const x = a as %s; const z: %s = x %s %d`%s; return z as u64" % (t, t, op, v, t), "(uint64_t)(%s)((%s)%s %s (%s)%dull)" % (c, un, A, op, un, v), "", "%s %s %d`%s" % (t, op, v, t)))
                lits.append(("const x = a as %s; const z: %s = (%d`%s) %s x; return z as u64" % (t, t, v, t, op), "(uint64_t)(%s)((%s)%dull %s (%s)%s)" % (c, un, v, op, un, A), "", "%d`%s %s %s" % (v, t, op, t)))
            for op in ["<", ">="]:
                lits.append(("const x = a as %s; const z = (%d`%s) %s x; return z as u64" % (t, v, t, op), "(uint64_t)((%s)%d %s %s)" % (c, v, op, A), "", "%d`%s %s %s" % (v, t, op, t)))
            lits.append(("const z: %s = %d`%s << (b as u8); return z as u64" % (t, v, t), "(uint64_t)(%s)((%s)%dull << (b & 255))" % (c, un, v), "(b & 255) < %d" % w, "%d`%s << u8" % (v, t)))
            lits.append(("const z = (%d`%s << b) as u64; return z" % (v, t), "(uint64_t)(%s)((%s)%dull << b)" % (c, un, v), "b < %d" % w, "%d`%s << u64" % (v, t)) if w == 64 else lits[-1])
            for u in I + U:
                if W[u] < w and u[0] == t[0]:
                    for op in "+*-":
                        lits.append(("const x = a as %s; const z: %s = x %s %d`%s; return z as u64" % (u, t, op, v, t), "(uint64_t)(%s)((%s)(%s)a %s (%s)%dull)" % (c, un, CT[u], op, un, v), "", "%s %s %d`%s" % (u, op, v, t)))
    pre = "".join("func take%s(x: %s): u64 => x as u64\n" % (t, t) for t in I + U)
    P = ("u64", "u64")
    yield S.cases_unit("arith", work, ar, params=P, what="integer arithmetic", time_s=400)
    yield S.cases_unit("compound", work, comp, params=P, what="compound assignment", time_s=400)
    yield S.cases_unit("compare", work, cmpo, params=P, what="integer comparison")
    yield S.cases_unit("convert", work, conv, params=P, pre=pre, what="integer conversion")
    yield S.cases_unit("literal", work, lits, params=P, what="arithmetic with literals", time_s=400)
    yield S.cases_unit("mixed", work, mixed, params=P, what="mixed widths", time_s=400)
