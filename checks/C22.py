import sxlib as S, itertools
BOUNDS = "each of the calls below with arbitrary 32-bit arguments; every declaration order of the overload sets of three"
OUTSIDE = "calls that are ambiguous or need more than one implicit conversion per argument; extern variadic functions; plugins"
ASSUMPTIONS = []
P = ("u32", "u32", "u32")
RET = "u32"
PN = "pqk"
# three overload sets, each in every declaration order
SETS = {
 "num": ["func {n}(x: u8): u32 => 100 + (x as u32)", "func {n}(x: u32): u32 => x * 3 + 1", "func {n}(x: i64): u32 => (x as u32) ^ 5"],
 "kind": ["func {n}(x: string): u32 => 11", "func {n}(x: u32): u32 => x + 22", "func {n}(x: &const Pt): u32 => x.x + 33"],
 "arity": ["func {n}(): u32 => 7", "func {n}(x: u32): u32 => x + 1", "func {n}(x: u32, y: u32): u32 => x * 2 + y"],
 "obj": ["func {n}(x: A): u32 => x.v + 1", "func {n}(x: B): u32 => x.w + 2", "func {n}(x: u32, y: A): u32 => x + y.v + 3"],
}
# more kinds of parameters
SETS["lit"] = ["func {n}(x: bool): u32 => x ? 1`u32 : 2`u32", "func {n}(x: char): u32 => (x as u32) + 5", "func {n}(x: Col): u32 => (x as u32) + 9"]
SETS["opt"] = ["func {n}(x: u32?): u32 { if (x) return *x + 1; return 3 }", "func {n}(x: string): u32 => 4", "func {n}(x: A): u32 => x.v + 6"]
SETS["ref"] = ["func {n}(x: &Pt): u32 { x.x += 1; return x.x }", "func {n}(x: (u32, u32)): u32 => x.0 * 2 + x.1", "func {n}(x: ^u32): u32 { *x = *x + 2; return *x }"]
SETS["dft"] = ["func {n}(x: u32, y: u32, z: u32 = 5`u32): u32 => x + y * 2 + z * 3", "func {n}(x: u32): u32 => x + 1", "func {n}(x: string, y: u32 = 2`u32, z: u32 = 3`u32): u32 => y * 4 + z"]
PRE = """
enum Col { Red, Green, Blue = 7 }
var calls = 0`u32;
struct Pt { x: u32; y: u32 = 7`u32;
  func get(k: u32): u32 => x + k
  func get(k: u8): u32 => x * 2 + (k as u32)
  func get(s: string): u32 => y
  func two(k: u32, m: u32 = 5`u32): u32 => x + k * m
  @static func of(k: u32): Pt => Pt{x: k}
  @static func of(k: u32, m: u32): Pt => Pt{x: k, y: m}
  func `+`(o: u32) => Pt{x: x + o, y: y}
  func `+`(o: &const Pt) => Pt{x: x + o.x, y: y + o.y}
  func `[]`(i: u32): u32 => x + i
  func `()`(i: u32): u32 => x + i
  func `()`(i: u32, j: u32): u32 => x * i + j
}
class A { v: u32
  func `init`(x: u32) { v = x }
  func `init`(x: u32, y: u32) { v = x * 8 + y }
  func who(): u32 => v + 1
  virtual func vir(k: u32): u32 { return v + k }
  virtual func vir2(): u32 { return vir(2) }
  func fin(k: u32 = 4`u32): u32 => vir(k) * 2
}
class B : A { w: u32
  func `init`(x: u32, y: u32) { super(x); w = y }
  func who(): u32 => w + 2
  @override func vir(k: u32): u32 { return super.vir(k) + w }
}
class C : B {
  func `init`(x: u32) { super(x, x + 1) }
  @override func vir2(): u32 { return super.vir2() + 1 }
}
class VO { u: u32
  func `init`(x: u32) { u = x }
  virtual func vo(a: u32): u32 { return u + a }
  virtual func other(a: u32): u32 { return u - a - 3 }
  virtual func vo(a: string): u32 { return u + 50 }
  virtual func vo(a: u32, b: u32): u32 { return u + a - b + 9 }
}
class VP : VO { func `init`(x: u32) { super(x) }
  @override func vo(a: string): u32 { return u + 31 }
  @override func vo(a: u32): u32 { return u + a + 7 }
}
class VQ : VO { func `init`(x: u32) { super(x) }
  @override func vo(a: u32, b: u32): u32 { return u + a - b }
}
class VR : VP { func `init`(x: u32) { super(x) }
  @override func vo(a: u32): u32 { return super.vo(a) + 11 }
  @override func other(a: u32): u32 { return u - a }
  func vo(a: u8, b: string): u32 { return u + (a as u32) }
}
class VS { u: u32
  func `init`(x: u32) { u = x }
  virtual func one(a: u32): u32 { return u + a }
  func two(a: u32): u32 { return one(a) + 1 }
}
class VT : VS { func `init`(x: u32) { super(x) }
  func one(a: string): u32 { return 9 }
  @override func one(a: u32): u32 { return u * 2 + a }
}
func viavo(b: VO, p: u32, q: u32): u32 { return b.vo(p) ^ (b.vo("a") << 1) ^ (b.vo(p, q) << 2) ^ (b.other(q) << 3) }
struct Cn { v: u32
  func at(): u32 { v += 1; return v }
  const func at(): u32 => v * 2
  const func ro(k: u32): u32 => v + k
}
class D0 { n: u32 = 3`u32
  func `init`(k: u32 = 6`u32) { n = k }
  func `init`(s: string, k: u32 = 2`u32) { n = k + 50 }
  func sel(k: u32): u32 => n + k
  func sel(k: u8): u32 => n * 2 + (k as u32)
  func self() => this
}
class D1 : D0 { m: u32
  func `init`(k: u32) { super(k); m = k + 1 }
  func sel(s: string): u32 => m
}
struct Tm[T] { v: T
  func put(x: T): u32 { v = x; return 1 }
  func put(x: T, y: u32): u32 { v = x; return y }
  func cmp[U](x: U): u32 => (x as u32) + (v as u32) * 2
  @static func mk(x: T): Tm[T] => Tm[T]{v: x}
}
func gen[T](x: ^T): u32 => (*x) as u32
func gen2[T](x: T, f: func(y: T) -> u32): u32 => f(x) + 1
func deep[T](x: T, k: u32): u32 { if (k == 0) return x as u32; return deep[T](x, k - 1) + 1 }
func isz[T]() : u32 => (sizeof!(#T)) as u32
func tlen(...args: auto): u32 { var n = 0`u32; #for (const a: args) { n += 1 } return n }
func next(): u32 { calls += 1; return calls }
func dflt(x: u32, y: u32 = 3`u32, z: u32 = 4`u32): u32 => x * 16 + y * 4 + z
func dfn(x: u32, y: u32 = next()): u32 => x + y
func same[T](x: T): T => x
func width[T](x: T): u32 { return (sizeof!(#T)) as u32 }
func addg[T](x: T, y: T): T => x + y
func mixed[T, U](x: T, y: U): u32 => (x as u32) * 3 + (y as u32)
func conv[U, T](x: T): U => x as U
func fact[T](x: T): T { if (x == 0) return 1; return x + fact[T](x - 1) }
func sumv(...args: auto): u32 { var n = 0`u32; #for (const a: args) { n = n * 3 + (#{a} as u32) } return n }
func lastv(x: u32, ...args: auto): u32 { var n = x; #for (const a: args) { n = #{a} as u32 } return n }
func pick[T](x: T): u32 { #if (T.isSigned) { return 1`u32 } else #if (T.isInteger) { return 2`u32 } else #if (T.isClass) { return 3`u32 } else { return 4`u32 } }
struct Box[T] { v: T; n: u32 = 1`u32
  func get(): T => v
  func map[U](f: func(x: T) -> U): U => f(v)
  func size(): u32 => (sizeof!(#T)) as u32
}
func apply(f: func(x: u32) -> u32, x: u32): u32 => f(x)
func apply2(f: func(x: u32, y: u32) -> u32, x: u32, y: u32): u32 => f(x, y)
func dbl(x: u32): u32 => x * 2
func outer(x: u32): u32 => inner(x) + 1
func inner(x: u32): u32 => x * 5
func even(n: u32): bool { if (n == 0) return true; return odd(n - 1) }
func odd(n: u32): bool { if (n == 0) return false; return even(n - 1) }
macro TWICE(e) = e! * 2
macro MAX2(a, b) = a! > b! ? a! : b!
macro SUB(a, b) = a! - b!
macro SHL(a, b) = a! << b!
macro NEG(a) = -a!
macro FLD(a) = a!
"""
OV = []
for s, fs in SETS.items():
    for k, o in enumerate(itertools.permutations(fs)):
        n = "%s%d" % (s, k)
        PRE += "".join(f.replace("{n}", n) + "\n" for f in o)
        OV += [(c.replace("F(", n + "("), r) for c, r in {
            "num": [("return F(p)", "p * 3 + 1"), ("return F(p as u8)", "100 + (p & 255)"), ("return F(p as i64)", "p ^ 5"), ("const x: u8 = q as u8; return F(x) + F(p)", "100 + (q & 255) + p * 3 + 1")],
            "kind": [("return F(p)", "p + 22"), ("return F(\"a\")", "11"), ("var x = Pt{x: p}; return F(&x)", "p + 33")],
            "arity": [("return F(p)", "p + 1"), ("return F()", "7"), ("return F(p, q)", "p * 2 + q"), ("return F(F(p), F())", "(p + 1) * 2 + 7")],
            "obj": [("var x = A(p); return F(x)", "p + 1"), ("var x = B(p, q); return F(x)", "q + 2"), ("return F(p, A(q))", "p + q + 3"), ("var x = B(p, q); return F(p, x)", "p + p + 3")],
            "lit": [("return F(p > q) + F('a') * 4 + F(Col.Blue) * 1024", "(p > q ? 1 : 2) + 102 * 4 + 16 * 1024"), ("const b = p == q; const c = Col.Green; return F(b) + F(c) * 4", "(p == q ? 1 : 2) + 40")],
            "opt": [("var x: u32? = p; if (q > 3) { x = null } return F(x)", "q > 3 ? 3 : p + 1"), ("const s = \"x\"; return F(s) + F(A(p))", "4 + p + 6")],
            "ref": [("var x = Pt{x: p}; const r = F(&x); return r + x.x", "p + 1 + p + 1"), ("var x = p; const r = F(ptrof x); return r + x * 2", "(p + 2) * 3"), ("const t = (p, q); return F(t) + F((q, k))", "p * 2 + q + q * 2 + k")],
            "dft": [("return F(p) * 3 + F(p, q) + F(p, q, k)", "(p + 1) * 3 + p + q * 2 + 15 + p + q * 2 + k * 3"), ("return F(\"a\") + F(\"a\", p) + F(\"a\", p, q)", "11 + p * 4 + 3 + p * 4 + q")],
        }[s]]
D = [
 # methods, constructors and operators select by their arguments
 ("var x = Pt{x: p}; return x.get(q)", "p + q"),
 ("var x = Pt{x: p}; return x.get(q as u8)", "p * 2 + (q & 255)"),
 ("var x = Pt{x: p, y: q}; return x.get(\"s\")", "q"),
 ("var x = Pt{x: p}; return x.two(q) + x.two(q, k)", "p + q * 5 + p + q * k"),
 ("var x = Pt.of(p); var y = Pt.of(p, q); return x.x + x.y + y.y", "p + 7 + q"),
 ("var x = Pt{x: p} + q; var y = x + x; return y.x * 4 + y.y", "(p + q) * 8 + 14"),
 ("var x = Pt{x: p}; return x(q) + x(q, k) + x.[k]", "p + q + p * q + k + p + k"),
 ("var x = A(p); var y = A(p, q); return x.v + y.v", "p + p * 8 + q"),
 ("var x = B(p, q); return x.who() * 2 + x.v", "(q + 2) * 2 + p"),
 ("var x = B(p, q); var y: A = x; return y.vir(k) + y.vir2() + y.fin()", "p + k + q + p + 2 + q + (p + 4 + q) * 2"),
 ("var x = VO(p); return viavo(x, q, k)", "(p + q) ^ ((p + 50) << 1) ^ ((p + q - k + 9) << 2) ^ ((p - k - 3) << 3)"),
 ("var x = VP(p); return viavo(x, q, k)", "(p + q + 7) ^ ((p + 31) << 1) ^ ((p + q - k + 9) << 2) ^ ((p - k - 3) << 3)"),
 ("var x = VQ(p); return viavo(x, q, k)", "(p + q) ^ ((p + 50) << 1) ^ ((p + q - k) << 2) ^ ((p - k - 3) << 3)"),
 ("var x = VR(p); return viavo(x, q, k)", "(p + q + 7 + 11) ^ ((p + 31) << 1) ^ ((p + q - k + 9) << 2) ^ ((p - k) << 3)"),
 ("var x = VR(p); var y: VP = x; return x.vo(q) ^ (x.vo(3`u8, \"s\") << 1) ^ (y.vo(k) << 2) ^ (y.vo(\"t\") << 3)", "(p + q + 7 + 11) ^ ((p + 3) << 1) ^ ((p + k + 7 + 11) << 2) ^ ((p + 31) << 3)"),
 ("var x = VT(p); var y: VS = x; return y.one(q) ^ (y.two(k) << 1) ^ (x.one(q) << 2) ^ (x.one(\"a\") << 3)", "(p * 2 + q) ^ ((p * 2 + k + 1) << 1) ^ ((p * 2 + q) << 2) ^ (9 << 3)"),
 ("var x = C(p); var y: A = x; return y.vir2() * 2 + y.fin(k)", "(p + 2 + p + 1 + 1) * 2 + (p + k + p + 1) * 2"),
 ("var x = A(p); return x.fin() + x.fin(q)", "(p + 4) * 2 + (p + q) * 2"),
 # defaults
 ("return dflt(p) + dflt(p, q) + dflt(p, q, k)", "p * 48 + 12 + 4 + q * 4 + 4 + q * 4 + k"),
 ("calls = p; const x = dfn(q); const y = dfn(q, k); const z = dfn(1); return x * 4 + y * 2 + z + calls", "(q + p + 1) * 4 + (q + k) * 2 + 1 + p + 2 + p + 2"),
 # generics: inferred, explicit and specialised per type
 ("return same(p) + (same(q as u8) as u32)", "p + (q & 255)"),
 ("return same[u32](p) + same[u64](q as u64) as u32", "p + q"),
 ("return width(p) + width(p as u8) * 16 + width(p as u64) * 256", "4 + 16 + 8 * 256"),
 ("return addg(p, q) + (addg(p as u8, q as u8) as u32)", "p + q + ((p + q) & 255)"),
 ("return mixed(p, q as u8) + mixed(q as u16, k)", "p * 3 + (q & 255) + (q & 65535) * 3 + k"),
 ("return (conv[u8](p) as u32) + (conv[u16](p) as u32) * 3", "(p & 255) + (p & 65535) * 3"),
 ("return fact[u32](p & 3) + fact[u8](3) as u32", "(p & 3) * ((p & 3) + 1) / 2 + 1 + 7"),
 ("return sumv(p) * 5 + sumv(p, q) * 7 + sumv(p, q as u8, k)", "p * 5 + (p * 3 + q) * 7 + (p * 3 + (q & 255)) * 3 + k"),
 ("return lastv(p, q, k) * 3 + lastv(p, q)", "k * 3 + q"),
 ("return pick(p) + pick(p as i32) * 8 + pick(A(1)) * 64 + pick(1.5) * 512 + pick(\"a\") * 4096", "2 + 8 + 3 * 64 + 1 * 512 + 4 * 4096"),
 ("var b = Box[u32]{v: p}; var c = Box[u8]{v: q as u8}; return b.get() + (c.get() as u32) + b.size() * 2 + c.size()", "p + (q & 255) + 9"),
 ("var b = Box[u32]{v: p}; return b.map[u32]((x: u32) => x + 4)", "p + 4"),
 ("var b = Box[Box[u32]]{v: Box[u32]{v: p}}; return b.get().get() + b.n", "p + 1"),
 ("var x = Cn{v: p}; const y = Cn{v: q}; return x.at() * 3 + y.at() + y.ro(k) + x.ro(1)", "(p + 1) * 3 + q * 2 + q + k + p + 2"),
 ("var x = D0(); var y = D0(p); var z = D0(\"a\"); var w = D0(\"a\", q); return x.n + y.n * 2 + z.n + w.n", "6 + p * 2 + 52 + q + 50"),
 ("var x = D0(p); return x.sel(q) + x.sel(q as u8) * 2", "p + q + (p * 2 + (q & 255)) * 2"),
 ("var x = D1(p); return x.sel(\"a\") + x.n", "p + 1 + p"),
 ("var t = Tm[u32].mk(p); const r = t.put(q) + t.put(k, 9); return r + t.v + t.cmp(p as u8)", "10 + k + (p & 255) + k * 2"),
 ("var x = p; var y = q as u8; return gen(ptrof x) + gen(ptrof y)", "p + (q & 255)"),
 ("return gen2(p, (y: u32) => y * 2) + gen2[u8](q as u8, (y: u8) => y as u32)", "p * 2 + 1 + (q & 255) + 1"),
 ("return deep(p, 2) + deep(q as u8, 1)", "p + 2 + (q & 255) + 1"),
 ("return isz[u32]() + isz[u64]() * 16 + isz[Pt]() * 256", "4 + 128 + 8 * 256"),
 ("return tlen(p, q) + tlen(p, q as u8, \"a\") * 4", "2 + 12"),
 ("const x = p; const y: u8 = q as u8; return mixed(x, y) + width(y) + addg(x, q)", "p * 3 + (q & 255) + 1 + p + q"),
 # functions as values
 ("return apply((x: u32) => dbl(x), p) + apply((x: u32) => inner(x) + k, q)", "p * 2 + q * 5 + k"),
 ("return apply((x: u32) => x + 3, p)", "p + 3"),
 ("const f = dbl; return f(p) + f(f(q))", "p * 2 + q * 4"),
 ("return apply2((x: u32, y: u32) => x * 3 - y, p, q)", "p * 3 - q"),
 # order of declaration, recursion, macros
 ("return outer(p)", "p * 5 + 1"),
 ("return even(p & 3) ? 1`u32 : 2`u32", "(p & 1) ? 2 : 1"),
 ("return TWICE!(p + q) + 1", "(p + q) * 2 + 1"),
 ("return MAX2!(p, q) + TWICE!(MAX2!(q, k))", "(p > q ? p : q) + 2 * (q > k ? q : k)"),
 ("return 100 - TWICE!(p - q) - SUB!(k, p - 1) * 3", "100 - (p - q) * 2 - (k - (p - 1)) * 3"),
 ("return SUB!(p & q, k | 1) + -SUB!(p, q) + SHL!(p, 1 + 2)", "((p & q) - (k | 1)) - (p - q) + (p << 3)"),
 ("return NEG!(p + q) as u32 + NEG!(p > q ? p : q)", "-(p + q) + -(p > q ? p : q)"),
 ("return (FLD!(Pt{x: p, y: q}).y) + (Pt{x: p}).x", "q + p"),
]
D = D + OV
PRE += "".join("func d%d(p: u32, q: u32, k: u32): u32 { %s }\n" % (k, d[0]) for k, d in enumerate(D))
CASES = [("return d%d(a, b, c)" % k, "uint32_t p = a, q = b, k = c; return " + d[1] + ";", "", d[0]) for k, d in enumerate(D)]
def units(work):
    yield S.cases_unit("calls", work, CASES, params=P, ret="u32", pre=PRE, mm=True, what="the function that runs", time_s=300)
