import sxlib as S
BOUNDS = "each of the type definitions and uses below with arbitrary 32-bit field values"
OUTSIDE = "layout and alignment of foreign structs; plugins and annotations; arrays assigned or copied as a whole; a class derived from a virtual class that declares further virtual functions, nested capturing closures, and closures passed as arguments without --with-mm (not supported by the compiler)"
ASSUMPTIONS = []
P = ("u32", "u32", "u32")
RET = "u32"
PRE = """
struct Pt { x: u32; y: u32 = 7`u32;
  func sum() => x + y
  func put(v: u32) { x = v; return x }
  func `+`(o: &const Pt) => Pt{x: x + o.x, y: y + o.y}
  func `-`(o: &const Pt) => Pt{x: x - o.x, y: y - o.y}
  func `==`(o: &const Pt): bool => x == o.x && y == o.y
  func `<`(o: &const Pt): bool => x < o.x
  func `()`(k: u32) => x * k + y
  func `[]`(i: u32) => i == 0 ? x : y
  func `[]=`(i: u32, v: u32) { if (i == 0) { x = v } else { y = v } }
  func `!!`() => x != 0
}
struct Line { a: Pt; b: Pt; tag: u8 = 3`u8 }
struct Ctr { n: u32 = 0`u32
  @static func mk(k: u32) => Ctr{n: k}
  func inc() { n++; return &this }
}
struct Init { v: u32; w: u32
  func `init`(p: u32, q: u32 = 5`u32) { v = p; w = q }
}
class Shape { id: u32
  func `init`(i: u32) { id = i }
  virtual func area(k: u32): u32 { return id + k }
  virtual func twice(k: u32): u32 { return area(k) * 2 }
  func plain(): u32 { return id }
}
class Sq : Shape { side: u32
  func `init`(i: u32, s: u32) { super(i); side = s }
  @override func area(k: u32): u32 { return side * side + k }
}
class Cube : Sq { h: u32 = 4`u32
  func `init`(i: u32, s: u32) { super(i, s) }
  @override func area(k: u32): u32 { return side * h - k }
  @override func twice(k: u32): u32 { return area(k) + 1 }
}
class Node { v: u32; next: Node = null
  func `init`(x: u32) { v = x }
}
func poly(s: &Shape, k: u32) => s.area(k) * 16 + s.twice(k)
type U = u32 | i8 | Pt | bool
type W = u32 | Pt | (u32, u32)
func wval(w: &const W): u32 { match (w) { case u32 as x => return x; case Pt as x => return x.x ^ (x.y << 4); case (u32, u32) as x => return (x.0 << 1) ^ (x.1 << 5); else => return 77`u32 } }
func wset(w: &W, v: u32) { match (w) { case Pt as x => x.y = v; case (u32, u32) as x => x.0 = v; else => {} } }
func uval(u: &const U): u32 { match (u) { case u32 as x => return x; case i8 as x => return (x as u32) + 1000; case Pt as x => return x.x + x.y * 3; else => return 77`u32 } }
enum Col { Red, Green, Blue = 7, Violet }
enum Big : u64 { Lo = 1, Hi = 0x100000000 }
func cols(c: Col): u32 { switch (c) { case .Red => return 1`u32; case .Green => return 2`u32; case .Blue => return 3`u32; default => return 4`u32 } }
func gid[T](x: T): T => x
func gmax[T](a: T, b: T): T => a > b ? a : b
struct Box[T] { v: T; n: u32 = 1`u32
  func get() => v
  func set(x: T) { v = x; n++ }
}
struct Pair[A, B] { a: A; b: B
  func swap() => Pair[B, A]{a: b, b: a}
}
class Stk[T] { buf: [T, 4]; n: u32 = 0`u32
  func `init`() {}
  func push(x: T) { buf.[n] = x; n++ }
  func pop() { n--; return buf.[n] }
}
func vsum(...args: auto): u32 { var s = 0`u32; #for (const x: args) { s += #{x} as u32 } return s }
func dflt(a: u32, b: u32 = 10`u32, c: u32 = 100`u32) => a + b * 2 + c * 3
func byref(p: &Pt) { p.x = p.x + 1; p.y = 9`u32 }
func byval(p: Pt): u32 { p.x = p.x + 1; return p.x }
func byptr(p: ^u32) { *p = *p + 5 }
func swap2(t: (u32, u32)) => (t.1, t.0)
func divmod(a: u32, b: u32) => (a / b, a % b)
func app(f: func(x: u32) -> u32, v: u32): u32 => f(v)
func app2(f: func(x: u32, y: u32) -> u32, v: u32): u32 => f(v, v + 1)
func dbl(x: u32): u32 => x * 2
func fact(n: u32): u32 { if (n < 2) return 1`u32; return n * fact(n - 1) }
func over(x: u32): u32 => x + 1
func over(x: u8): u32 => (x as u32) + 1000
func over(x: u32, y: u32): u32 => x * y
func slsum(s: [u32]): u32 { s.[1] = 4`u32; return s.[0] + s.[1] * 3 + s.[2] * 5 + (len!(s) as u32) }
func opt(a: u32): u32? { if (a > 10) return a; return null }
var glob: u32 = 5`u32;
var garr: [u32, 3] = [1`u32, 2`u32, 3`u32];
func bump(): u32 { glob++; return glob }
"""
D = [
 # structs
 ("var p = Pt{x: a}; return p.sum()", "R(a + 7);"),
 ("var p = Pt{y: a, x: b}; return p.x * 2 + p.y", "R(b * 2 + a);"),
 ("var p = Pt{x: a, y: b}; var q = p; q.x = c; return p.x * 3 + q.x + q.y", "R(a * 3 + c + b);"),
 ("var p = Pt{x: a, y: b}; p.put(c); return p.sum()", "R(c + b);"),
 ("var p = Pt{x: a, y: b}; var q = Pt{x: c}; const r = p + q; return r.x * 3 + r.y", "R((a + c) * 3 + (b + 7));"),
 ("var p = Pt{x: a, y: b}; var q = Pt{x: c}; const r = p + q - p; return r.x * 3 + r.y", "R(c * 3 + 7);"),
 ("var p = Pt{x: a, y: b}; var q = Pt{x: c, y: b}; return p == q ? 1 : 2", "R(a == c ? 1 : 2);"),
 ("var p = Pt{x: a, y: b}; var q = Pt{x: c, y: b}; return p < q ? 1 : 2", "R(a < c ? 1 : 2);"),
 ("var p = Pt{x: a, y: b}; return p(c)", "R(a * c + b);"),
 ("var p = Pt{x: a, y: b}; return p.[0`u32] * 3 + p.[c]", "R(a * 3 + (c == 0 ? a : b));"),
 ("var p = Pt{x: a, y: b}; p.[c] = 5`u32; return p.x * 3 + p.y", "R(c == 0 ? 15 + b : a * 3 + 5);"),
 ("var p = Pt{x: a, y: b}; if (p) return 1; return 2", "R(a ? 1 : 2);"),
 ("var l = Line{a: Pt{x: a, y: b}, b: Pt{x: c}}; l.b.y = l.a.x + 1; return l.a.sum() + l.b.sum() * 3 + (l.tag as u32)", "R(a + b + (c + a + 1) * 3 + 3);"),
 ("var l = Line{a: Pt{x: a, y: b}, b: Pt{x: c}}; var m = l; m.a.x = 0; m.b = l.a; return l.a.x + m.a.x * 3 + m.b.x * 5 + l.b.x * 7", "R(a + a * 5 + c * 7);"),
 ("var l = Line{a: Pt{x: a, y: b}, b: Pt{x: c}}; l.a.put(5); return l.a.sum()", "R(5 + b);"),
 ("var k = Ctr.mk(a); k.inc().inc(); return k.n", "R(a + 2);"),
 ("var k = Ctr{}; k.inc(); return k.n", "R(1);"),
 ("var k = Init(a); var m = Init(b, c); return k.v + k.w * 3 + m.v * 5 + m.w * 7", "R(a + 15 + b * 5 + c * 7);"),
 ("var p = Pt{x: a, y: b}; byref(&p); return p.x * 3 + p.y", "R((a + 1) * 3 + 9);"),
 ("var p = Pt{x: a, y: b}; const r = byval(p); return p.x * 3 + r", "R(a * 3 + a + 1);"),
 ("var p = Pt{x: a, y: b}; var q = ptrof p; q.x = c; return p.x + q.y", "R(c + b);"),
 ("var p = Pt{x: a, y: b}; byptr(ptrof p.y); return p.x * 3 + p.y", "R(a * 3 + b + 5);"),
 ("var ps = [Pt{x: a}, Pt{x: b, y: c}]; ps.[1].x = ps.[0].y; var s = 0`u32; for (const p: ps) { s = s * 3 + p.x + p.y } return s", "R((a + 7) * 3 + 7 + c);"),
 ("var p = { x: a, y: b }; p.x = p.x + c; return p.x * 3 + p.y", "R((a + c) * 3 + b);"),
 # classes
 ("var s = Shape(a); return s.area(b) + s.plain()", "R(a + b + a);"),
 ("var s = Sq(a, b); return s.area(c) + s.plain() * 3 + s.twice(c)", "R((b * b + c) + a * 3 + (b * b + c) * 2);"),
 ("var s = Cube(a, b); return s.area(c) + s.plain() * 3 + s.twice(c)", "uint32_t v = b * 4 - c; R(v + a * 3 + v + 1);"),
 ("var s: Shape = Sq(a, b); return s.area(c) + s.id", "R(b * b + c + a);"),
 ("var s: Shape = Cube(a, b); return s.twice(c) * 3 + s.area(1)", "R((b * 4 - c + 1) * 3 + b * 4 - 1);"),
 ("var s: Shape = Shape(a); if (b > 5) { s = Sq(a, b) } return s.area(c)", "R(b > 5 ? b * b + c : a + c);"),
 ("var s = Sq(a, b); return poly(&s, c)", "R((b * b + c) * 16 + (b * b + c) * 2);"),
 ("var s = Shape(a); var t = s; t.id = b; return s.id", "R(b);"),
 ("var s = Node(a); s.next = Node(b); s.next.next = Node(c); var t = 0`u32; var n = s; while (n != null) { t = t * 3 + n.v; n = n.next } return t", "R((a * 3 + b) * 3 + c);"),
 # tuples
 ("var t = (a, b); t.0 = c; return t.0 * 3 + t.1", "R(c * 3 + b);"),
 ("var t = (a, (b, c)); var u = t; u.1.0 = 5`u32; return t.0 + t.1.0 * 3 + u.1.0 * 5 + u.1.1", "R(a + b * 3 + 25 + c);"),
 ("const x, y = swap2((a, b)); return x * 3 + y", "R(b * 3 + a);"),
 ("const x, _, y = (a, b, c); return x * 3 + y", "R(a * 3 + c);"),
 ("if (b == 0) return 0; const q, r = divmod(a, b); return q * b + r", "R(b ? a : 0);"),
 ("var t = (a, b as u8, true); return t.0 + (t.1 as u32) * 3 + (t.2 ? 1 : 0)", "R(a + (uint8_t)b * 3 + 1);"),
 # the variable of a case is what the union holds
 ("var w: W = (a, b); match (w) { case (u32, u32) as t => { t.1 = c } else => {} } return wval(&w)", "R((a << 1) ^ (c << 5));"),
 ("var w: W = Pt{x: a, y: b}; match (w) { case Pt as t => { t.x = c } else => {} } return wval(&w)", "R(c ^ (b << 4));"),
 ("var w: W = a; match (w) { case u32 as t => { t = c } else => {} } return wval(&w)", "R(a);"),
 ("var w: W = (a, b); if (a > 5) w = Pt{x: a, y: b}; wset(&w, c); return wval(&w)", "R(a > 5 ? a ^ (c << 4) : (c << 1) ^ (b << 5));"),
 ("var w: W = (a, b); var v = w; match (w) { case (u32, u32) as t => { t.1 = c } else => {} } return wval(&v)", "R((a << 1) ^ (b << 5));"),
 # unions
 ("var u: U = a; return uval(&u)", "R(a);"),
 ("var u: U = a as i8; return uval(&u)", "R((uint32_t)(int8_t)a + 1000);"),
 ("var u: U = Pt{x: a, y: b}; return uval(&u)", "R(a + b * 3);"),
 ("var u: U = true; return uval(&u)", "R(77);"),
 ("var u: U = a; if (b > 3) { u = Pt{x: a, y: b} } return uval(&u)", "R(b > 3 ? a + b * 3 : a);"),
 ("var u: U = a; var v = u; u = true; return uval(&u) + uval(&v)", "R(77 + a);"),
 ("var u: U = a; if (b > 3) { u = false }; return (u is #u32) ? 1 : 2", "R(b > 3 ? 2 : 1);"),
 ("var u: U = a; const x = <u32>u; return x + 1", "R(a + 1);"),
 # enums
 ("var k = Col.Blue; return k as u32", "R(7);"),
 ("var k = Col.Violet; if (a > 3) { k = .Green } return cols(k) * 16 + (k as u32)", "R(a > 3 ? 33 : 72);"),
 ("var k = Col.Red; if (a == 1) k = Col.Green; else if (a == 2) k = Col.Blue; return cols(k)", "R(a == 1 ? 2 : a == 2 ? 3 : 1);"),
 ("var k = Big.Hi; if (a > 3) { k = Big.Lo } return ((k as u64) >> 4) as u32", "R(a > 3 ? 0 : 0x10000000);"),
 # generics
 ("return gid(a) + (gid(b as u8) as u32)", "R(a + (uint8_t)b);"),
 ("return gmax(a, b) + ((gmax(a as i8, b as i8)) as u32)", "R((a > b ? a : b) + (uint32_t)((int8_t)a > (int8_t)b ? (int8_t)a : (int8_t)b));"),
 ("var p = Box[u32]{v: a}; var q = Box[u8]{v: b as u8}; p.set(c); q.set(a as u8); q.set(c as u8); return p.get() + p.n * 3 + (q.get() as u32) * 5 + q.n * 7", "R(c + 6 + (uint8_t)c * 5 + 21);"),
 ("var p = Pair[u32, u8]{a: a, b: b as u8}; var q = p.swap(); return (q.a as u32) * 3 + q.b", "R((uint8_t)b * 3 + a);"),
 ("var s = Stk[u32](); s.push(a); s.push(b); s.push(c); const x = s.pop(); const y = s.pop(); return x * 9 + y * 3 + s.n", "R(c * 9 + b * 3 + 1);"),
 ("var p = Box[Pt]{v: Pt{x: a, y: b}}; var q = p.get(); q.x = c; return p.v.x * 3 + q.x", "R(a * 3 + c);"),
 ("var p = Box[Box[u32]]{v: Box[u32]{v: a}}; p.v.set(b); return p.v.v + p.v.n * 3 + p.n * 7", "R(b + 6 + 7);"),
 ("return vsum(a, b as u8, c as u16)", "R(a + (uint8_t)b + (uint16_t)c);"),
 ("return vsum(a) + vsum() + vsum(b, c)", "R(a + b + c);"),
 # functions
 ("return dflt(a) + dflt(a, b) * 5 + dflt(a, b, c) * 7", "R((a + 20 + 300) + (a + b * 2 + 300) * 5 + (a + b * 2 + c * 3) * 7);"),
 ("return fact(a & 7)", "uint32_t f = 1; for (uint32_t i = 2; i <= (a & 7); i++) f *= i; R(f);"),
 ("return over(a) + over(b as u8) * 3 + over(b, c) * 5", "R(a + 1 + ((uint8_t)b + 1000) * 3 + b * c * 5);"),
 # optionals
 ("var x = opt(a); if (x) return *x; return 3", "R(a > 10 ? a : 3);"),
 ("const x = opt(a) || 5`u32; return x", "R(a > 10 ? a : 5);"),
 ("var x: u32? = null; if (b > 3) { x = a } return x ? *x : 1", "R(b > 3 ? a : 1);"),
 ("if (const x = opt(a)) { return *x + 1 } return 0", "R(a > 10 ? a + 1 : 0);"),
 ("var x = Some(a); var y = None[u32](); return (x ? 1 : 0) * 4 + (y ? 1 : 0) + *x * 8", "R(4 + a * 8);"),
 ("var x: Pt? = Pt{x: a, y: b}; return x&.sum()", "R(a + b);"),
 # globals, pointers, arrays
 ("glob = a; bump(); return bump() + glob * 3", "R((a + 2) * 4);"),
 ("garr.[1] = a; return garr.[0] + garr.[1] * 3 + garr.[2] * 5", "R(1 + a * 3 + 15);"),
 ("var x = [a, b, c]; var p = ptrof x.[1]; *p = 5`u32; return x.[0] * 9 + x.[1] * 3 + x.[2]", "R(a * 9 + 15 + c);"),
 ("var x = [a, b, c]; x.[a & 1] = 9`u32; return x.[0] * 9 + x.[1] * 3 + x.[2]", "uint32_t x[3] = {a, b, c}; x[a & 1] = 9; R(x[0] * 9 + x[1] * 3 + x[2]);"),
 ("var x = [[a, b], [c, a]]; x.[a & 1].[b & 1] += 3; return x.[0].[0] + x.[0].[1] * 3 + x.[1].[0] * 5 + x.[1].[1] * 7", "uint32_t x[2][2] = {a, b, c, a}; x[a & 1][b & 1] += 3; R(x[0][0] + x[0][1] * 3 + x[1][0] * 5 + x[1][1] * 7);"),
 ("var x = a; var p = ptrof x; var q = p; *q = *p + b; return x", "R(a + b);"),
 ("var x: [u32, 3] = [a, b, c]; return slsum(x) + x.[1]", "R(a + 12 + c * 5 + 3 + 4);"),
]
# closures passed as arguments (memory management only)
ND = len(D)
D += [
 ("return app((x: u32) => x * 3, a)", "R(a * 3);"),
 ("var k = b; return app((x: u32) => x * 3 + k, a)", "R(a * 3 + b);"),
 ("return app2((x: u32, y: u32) => x * b + y * c, a)", "R(a * b + (a + 1) * c);"),
 ("const f = (x: u32): u32 => { if (x > b) return c; return x }; return f(a) + f(b) * 3", "R((a > b ? c : a) + b * 3);"),
]
FN = ["func d%d(a: u32, b: u32, c: u32): u32 { %s }\n" % (k, d[0]) for k, d in enumerate(D)]
CASES = [("return d%d(a, b, c)" % k, d[1].replace("R(", "return (uint32_t)("), "", d[0]) for k, d in enumerate(D)]
def units(work):
    yield S.cases_unit("data_mm", work, CASES, params=P, ret="u32", pre=PRE + "".join(FN), mm=True, what="data types, memory managed", time_s=300)
    yield S.cases_unit("data", work, CASES[:ND], params=P, ret="u32", pre=PRE + "".join(FN[:ND]), what="data types", time_s=300)
