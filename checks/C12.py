import sxlib as S
BOUNDS = "each of the object lifetimes below (construction, copies, members, containers, arguments, returns, loops, branches, early exits) with arbitrary 8-bit values steering them"
OUTSIDE = "reference cycles; objects shared between threads; temporaries that are only read (call().member), ignored results and local arrays of class objects leak (known findings); a variable set to null or deleted cannot be used again before it is assigned"
ASSUMPTIONS = []
P = ("u8", "u8", "u8")
RET = "u32"
PN = "pqk"
PRE = """
exception Low => "low"
extern func mk(k: u32): u32
extern func rm(k: u32): u32
extern func live(): u32
class Res { id: u32; next: Res = null
  func `init`(i: u32) { id = mk(i) }
  func `deinit`() { rm(id) }
}
class Two { l: Res; r: Res; n: u32 = 1`u32
  func `init`(a: Res, b: Res) { l = &&a; r = &&b }
  func left() { return l }
  func setl(x: Res) { l = &&x }
}
class Base { b: Res
  func `init`(i: u32) { b = Res(i) }
  virtual func get(): u32 { return b.id }
}
class Deriv : Base { d: Res
  func `init`(i: u32, j: u32) { super(i); d = Res(j) }
  @override func get(): u32 { return b.id + d.id }
}
class Hold { o: Own; u: UR; t: (Res, u32)
  func `init`(i: u32) { o = Own{r: Res(i)}; u = Res(i); t = (Res(i), i) }
}
struct Own { r: Res; k: u32 = 2`u32 }
struct Own2 { o: Own; p: Res = null }
type UR = u32 | Res | Own
func id(r: Res) => r
func take(r: Res): u32 => r.id
func take2(r: Res, k: u32): u32 => r.id + k
func look(r: &Res): u32 => r.id
func pick(a: Res, b: Res, k: u8): Res { if (k > 3) return a; return b }
func mkr(i: u32) => Res(i)
func mko(i: u32) => Own{r: Res(i)}
func early(k: u8): u32 { var a = Res(1); if (k > 100) return a.id; var b = Res(2); if (k > 50) return a.id + b.id; var c = Res(3); return a.id + b.id + c.id }
func maybe(k: u8): !Res { var a = Res(1); if (k > 3) raise Low(); return a }
func opt(k: u8): Res? { if (k > 3) return Res(1); return null }
func tern(k: u8): Res { var a = Res(1); var b = Res(2); return k > 3 ? a : b }
func thru(k: u8): !u32 { var x = Res(5); var a = maybe(k); return a.id }
func thru2(k: u8, m: u8): !u32 { var x = Res(1); var a = maybe(k); if (m > 7) { var b = Res(3); raise Low() } return a.id + x.id * 2 }
func scan(k: u8, m: u8): u32 { for (const i: 0..3) { if (i >= ((k & 3) as i32)) break; var a = Res(i as u32); if (a.id == (m & 3)) return a.id + 100; } return 50 }
func build(n: u32): Res { var s = Res(n); var i = n - 1; while (i > 0) { var x = Res(i); x.next = s; s = x; i-- } return s }
func rev(s: Res): Res { var x = s; var r: Res = null; while (x != null) { var n = x.next; x.next = r; r = x; x = n } return r }
func find(k: u8): Res { var x = Res(1); for (const i: 0..3) { if (i == ((k & 3) as i32)) return x } return Res(9) }
func find2(k: u8, m: u8): Res { for (const i: 0..3) { var x = Res(i as u32); if (i == ((k & 3) as i32)) return x; if (i == ((m & 3) as i32)) { return &&x } } return Res(9) }
func find3(k: u8, m: u8): Res { var x = Res(1); while (k > 3) { if (m > 3) { x = Res(2) } k--; if (m == k) return x } return x }
func par(x: Res, k: u8): u32 { if (k > 3) { return take(&&x) } return x.id + 4 }
func par2(x: Res, k: u8): Res { if (k > 3) { x = Res(7) } return x }
func par3(x: Res, k: u8): Res { while (k > 3) { var y = &&x; x = Res(y.id + 1); k -= 3; if (k > 9) return x } return x }
func par4(o: Own, k: u8): u32 { for (const i: 0..3) { if (i == ((k & 3) as i32)) { o.r = Res(5); continue } if (o.r.id == 5) { return o.r.id } } return o.r.id + 8 }
func ex1(k: u8, m: u8): !Res { var x = Res(1); for (const i: 0..3) { if (i == ((k & 3) as i32)) raise Low(); if (i == ((m & 3) as i32)) { x = Res(2) } } return x }
func ex2(k: u8, m: u8): !Res { var x = Res(1); while (k > 0) { var y = maybe(m); x = &&y; k >>= 1; if (k == 1) break } return x }
func ex3(k: u8): !u32 { var o = mko(3); var t = (Res(1), 5`u32); if (k > 7) { var z = &&o; if (k > 9) raise Low(); return z.r.id } return t.0.id + o.r.id }
func swap(a: Res, b: Res) => (b, a)
"""
CPRE = """static uint32_t N; static unsigned char L[64];
static uint32_t bad;
uint32_t mk(uint32_t k) { N++; return k; }
uint32_t rm(uint32_t k) { N--; return k; }
uint32_t live(void) { return N; }
"""
D = [
 ("var a = Res(1); return a.id", "R(1);"),
 ("var a = Res(1); var b = a; return a.id + b.id * 2", "R(3);"),
 ("var a = Res(1); var b = Res(2); a = b; return a.id + b.id * 4", "R(10);"),
 ("var a = Res(1); var b = a; a = Res(2); return a.id + b.id * 4", "R(6);"),
 ("var a = Res(1); a = a; return a.id", "R(1);"),
 ("var a = Res(1); if (k > 3) { a = Res(2) } return a.id", "R(k > 3 ? 2 : 1);"),
 ("var a = Res(1); if (k > 3) { var b = Res(2); a = b } return a.id", "R(k > 3 ? 2 : 1);"),
 ("var a = Res(1); if (k > 3) { var b = a; b.id = 5 } return a.id", "R(k > 3 ? 5 : 1);"),
 ("var a = Res(1); var b = Res(2); var r = k > 3 ? a : b; return r.id", "R(k > 3 ? 1 : 2);"),
 ("var a = Res(1); { var b = Res(2); a.id += b.id } return a.id", "R(3);"),
 ("var n = 0`u32; for (const i: 0..3) { var b = Res(i as u32); n += b.id } return n", "R(3);"),
 ("var n = 0`u32; for (const i: 0..4) { var b = Res(i as u32); if (i == ((p & 3) as i32)) continue; n += b.id; if (i == ((k & 3) as i32)) break; var d = Res(1); n += d.id }  return n", "uint32_t n = 0; for (int i = 0; i < 4; i++) { if (i == (p & 3)) continue; n += i; if (i == (k & 3)) break; n += 1; } R(n);"),
 ("var x = Res(0); for (const i: 0..3) { if (i == ((p & 3) as i32)) { x = Res(7) } } return x.id", "R((p & 3) < 3 ? 7 : 0);"),
 ("var x = Res(0); for (const i: 0..3) { x = Res(i as u32) } return x.id", "R(2);"),
 ("var x = Res(0); var i = 0`u8; while (i < (p & 3)) { x = Res(i as u32); i++ } return x.id", "R((p & 3) ? (p & 3) - 1 : 0);"),
 ("return early(p)", "R(p > 100 ? 1 : p > 50 ? 3 : 6);"),
 # linked
 ("var s = Res(1); s.next = Res(2); s.next.next = Res(3); return s.next.next.id", "R(3);"),
 ("var s = Res(1); s.next = Res(2); s.next = Res(3); return s.next.id", "R(3);"),
 ("var s = Res(1); s.next = Res(2); s.next = null; return s.id", "R(1);"),
 ("var s = Res(1); s.next = Res(2); s.next.next = Res(3); s.next = s.next.next; return s.next.id", "R(3);"),
 ("var s = Res(1); s.next = Res(2); s = s.next; return s.id", "R(2);"),
 ("var s = Res(1); s.next = Res(2); s.next.next = Res(3); var n = s; var t = 0`u32; while (n != null) { t = t * 4 + n.id; n = n.next } return t", "R(27);"),
 ("var s = Res(0); for (const i: 1..4) { var n = Res(i as u32); n.next = s; s = n } return s.id + s.next.id * 4", "R(11);"),
 ("var s = Res(1); var t = Res(2); s.next = t; t = Res(3); return s.next.id + t.id * 4", "R(14);"),
 # arguments and results
 ("var a = Res(1); return take(a) + look(&a)", "R(2);"),
 ("return take(Res(3))", "R(3);"),
 ("var a = Res(1); var b = id(a); return a.id + b.id", "R(2);"),
 ("var x = Res(1); x = id(x); return x.id", "R(1);"),
 ("var x = Res(1); x = pick(x, Res(2), p); return x.id", "R(p > 3 ? 1 : 2);"),
 ("var x = Res(1); var y = Res(2); var z = pick(x, y, p); return z.id + x.id * 4 + y.id * 16", "R((p > 3 ? 1 : 2) + 36);"),
 ("var x = mkr(1); x = mkr(2); return x.id", "R(2);"),
 ("var x = Res(5); return take(&&x)", "R(5);"),
 ("var x = Res(5); var y = &&x; return y.id", "R(5);"),
 ("var x = Res(5); if (p > 3) { return take(&&x) } return x.id + 1", "R(p > 3 ? 5 : 6);"),
 # members of classes
 ("var t = Two(Res(1), Res(2)); return t.l.id + t.r.id * 4", "R(9);"),
 ("var t = Two(Res(1), Res(2)); t.l = t.r; return t.l.id + t.r.id * 4", "R(10);"),
 ("var t = Two(Res(1), Res(2)); var x = t.l; t.l = Res(3); return t.l.id + x.id * 4", "R(7);"),
 ("var t = Two(Res(1), Res(2)); var x = t.left(); t.setl(Res(3)); return t.l.id + x.id * 4", "R(7);"),
 ("var x = Res(1); var t = Two(x, x); return t.l.id + t.r.id + x.id", "R(3);"),
 ("var x = Res(1); var t = Two(&&x, Res(2)); return t.l.id + t.r.id", "R(3);"),
 ("var d = Deriv(1, 2); var b: Base = d; return b.get() + d.get() * 4", "R(15);"),
 ("var b: Base = Deriv(1, 2); b = Base(3); return b.get()", "R(3);"),
 ("var b: Base = Base(3); if (p > 3) { b = Deriv(1, 2) } return b.get()", "R(3);"),
 # structs
 ("var o = Own{r: Res(1)}; return o.r.id + o.k", "R(3);"),
 ("var o = Own{r: Res(1)}; var w = o; w.r = Res(2); return o.r.id + w.r.id * 4", "R(9);"),
 ("var o = Own{r: Res(1)}; var w = Own{r: Res(2)}; o = w; return o.r.id + w.r.id * 4", "R(10);"),
 ("var o = mko(1); o = mko(2); return o.r.id", "R(2);"),
 ("var o = Own2{o: Own{r: Res(1)}}; var w = o; w.o = Own{r: Res(2)}; w.p = Res(3); return o.o.r.id + w.o.r.id * 4 + w.p.id * 16", "R(57);"),
 ("var x = Res(1); var o = Own{r: x}; x = Res(2); return o.r.id + x.id * 4", "R(9);"),
 ("var o = mko(1); return o.r.id", "R(1);"),
 ("var o = mko(1); if (p > 3) { var w = o; o.r = Res(3); return w.r.id + o.r.id * 4 } return o.k", "R(p > 3 ? 13 : 2);"),
 # moved out of members, or deleted there
 ("var w = Own2{o: Own{r: Res(1)}}; var y = &&w.o; return y.r.id", "R(1);"),
 ("var w = Own2{o: Own{r: Res(1)}, p: Res(2)}; var y = &&w.p; return y.id + w.o.r.id * 4", "R(6);"),
 ("var w = Own2{o: Own{r: Res(1)}, p: Res(2)}; return take(&&w.p) + w.o.r.id * 4", "R(6);"),
 ("var w = Own2{o: Own{r: Res(1)}}; var y = &&w.o; w.o = mko(3); return y.r.id + w.o.r.id * 4", "R(13);"),
 ("var w = Own2{o: Own{r: Res(1)}}; if (p > 3) { var y = &&w.o; return y.r.id } return w.o.r.id + 1", "R(p > 3 ? 1 : 2);"),
 ("var w = Own2{o: Own{r: Res(1)}}; var v = Own2{o: &&w.o}; return v.o.r.id", "R(1);"),
 ("var w = Own2{o: Own{r: Res(1)}}; delete w.o; return 4", "R(4);"),
 ("var w = Own2{o: Own{r: Res(1)}, p: Res(2)}; delete w.p; return w.o.r.id", "R(1);"),
 ("var w = Own2{o: Own{r: Res(1)}, p: Res(2)}; delete w.p; w.p = Res(3); return w.o.r.id + w.p.id * 4", "R(13);"),
 ("var w = Own2{o: Own{r: Res(1)}, p: Res(2)}; if (p > 3) { delete w.p; return 3 } return w.p.id", "R(p > 3 ? 3 : 2);"),
 ("var t = (Res(1), Res(2)); delete t.1; return t.0.id", "R(1);"),
 ("var t = (Res(1), Res(2)); var y = &&t.1; return y.id + t.0.id * 4", "R(6);"),
 ("var t = (mko(1), 5`u32); var y = &&t.0; return y.r.id + t.1", "R(6);"),
 ("var h = Hold(1); var y = &&h.o; return y.r.id", "R(1);"),
 ("var h = Hold(1); if (p > 3) { var y = &&h.o; h.o = mko(2); return y.r.id + h.o.r.id * 4 } return h.o.r.id", "R(p > 3 ? 9 : 1);"),
 ("var h = Hold(1); var y = &&h.u; var z = &&h.t; match (y) { case Res as r => return r.id + z.0.id * 4; else => return 9 }", "R(5);"),
 # objects made on one side of a condition only
 ("var x = p > 3 ? take2(mkr(1), p & 1) : take2(mkr(2), p & 2); return x", "R(p > 3 ? 1 + (p & 1) : 2 + (p & 2));"),
 ("var x = p > 3 ? mkr((p & 1) + 1) : mkr((p & 3) + 1); return x.id", "R(p > 3 ? (p & 1) + 1 : (p & 3) + 1);"),
 ("var y = Res(5); var x = p > 3 ? mkr((p & 1) + 1) : y; return x.id + y.id * 4", "R((p > 3 ? (p & 1) + 1 : 5) + 20);"),
 ("var y = Res(5); y = p > 3 ? mkr((p & 1) + 1) : y; return y.id", "R(p > 3 ? (p & 1) + 1 : 5);"),
 ("var y = Res(5); return take(p > 3 ? mkr((p & 1) + 1) : y) + y.id * 4", "R((p > 3 ? (p & 1) + 1 : 5) + 20);"),
 ("if (p > 3 && take(mkr((p & 1) + 1)) > 1) return 1; return 2", "R(p > 3 && (p & 1) ? 1 : 2);"),
 ("if (p > 3 || take(mkr((p & 1) + 1)) > 1) return 1; return 2", "R(p > 3 || (p & 1) ? 1 : 2);"),
 ("if (p > 3) { return 3 } else if (take(mkr((p & 1) + 1)) > 1) { return 1 } return 2", "R(p > 3 ? 3 : (p & 1) ? 1 : 2);"),
 ("var o = p > 3 ? mko((p & 1) + 1) : Own{r: mkr((p & 3) + 1)}; return o.r.id", "R(p > 3 ? (p & 1) + 1 : (p & 3) + 1);"),
 ("var y = mko(5); var x = p > 3 ? y : mko((p & 3) + 1); return x.r.id + y.r.id * 4", "R((p > 3 ? 5 : (p & 3) + 1) + 20);"),
 ("var i = 0`u32; while (i < 3 && take(mkr(i + 1)) != p) { i++ } return i", "uint32_t i = 0; while (i < 3 && i + 1 != p) i++; R(i);"),
 # tuples, unions, optionals
 ("var t = (Res(1), Res(2)); return t.0.id + t.1.id * 4", "R(9);"),
 ("var t = (Res(1), 5`u32); var u = t; return u.0.id + t.1", "R(6);"),
 ("var x, y = swap(Res(1), Res(2)); return x.id + y.id * 4", "R(6);"),
 ("var t = (Res(1), 5`u32); t.0 = Res(2); return t.0.id", "R(2);"),
 ("var u: UR = Res(1); if (p > 3) { u = 5`u32 } match (u) { case Res as r => return r.id; case u32 as n => return n; else => return 9 }", "R(p > 3 ? 5 : 1);"),
 ("var u: UR = Res(1); var v = u; u = mko(2); match (v) { case Res as r => return r.id; else => return 9 }", "R(1);"),
 ("var x = maybe(p) catch Res(7); return x.id", "R(p > 3 ? 7 : 1);"),
 ("if (const x = opt(p)) { return x&.id } return 0", "R(p > 3 ? 1 : 0);"),
 ("var x: Res? = Res(1); x = Res(2); return x&.id", "R(2);"),
 # arrays
 # explicit delete and defer
 ("var x = Res(1); const n = x.id; delete x; return n", "R(1);"),
 ("var x = Res(1); delete x; x = Res(2); return x.id", "R(2);"),
 ("var x = Res(1); defer { x.id = 4 }; return x.id", "R(1);"),
 # closures
 ("var x = Res(2); const f = () => x.id + 1; return f()", "R(3);"),
 ("var x = Res(2); const f = (k: u32) => x.id + k; return f(1) + f(3)", "R(8);"),
 # conditional values, early exits and exceptions
 ("var a = Res(1); var b = p > 3 ? a : Res(2); return b.id + a.id * 4", "R((p > 3 ? 1 : 2) + 4);"),
 ("var a = Res(1); var b = Res(2); a = p > 3 ? b : a; return a.id + b.id * 4", "R((p > 3 ? 2 : 1) + 8);"),
 ("var a = Res(1); var b = Res(2); return take(p > 3 ? a : b) + a.id", "R((p > 3 ? 1 : 2) + 1);"),
 ("var a = Res(1); var t = Two(p > 3 ? a : Res(2), a); return t.l.id + t.r.id * 4", "R((p > 3 ? 1 : 2) + 4);"),
 ("var a = tern(p); return a.id", "R(p > 3 ? 1 : 2);"),
 ("return thru(p) catch 9`u32", "R(p > 3 ? 9 : 1);"),
 ("return thru2(p, q) catch 9`u32", "R(p > 3 || q > 7 ? 9 : 3);"),
 ("return scan(p, q)", "R(p & 3 ? (q & 3) == 0 ? 100 : ((p & 3) > 1 && (q & 3) == 1) ? 101 : ((p & 3) > 2 && (q & 3) == 2) ? 102 : 50 : 50);"),
 ("var n = 0`u32; var i = 0`u8; while (i < (p & 3)) { var a = Res(i as u32); if (a.id == (q & 3)) { i++; continue } var b = a; n += b.id + 1; i++ } return n", "uint32_t n = 0; for (int i = 0; i < (p & 3); i++) { if (i == (q & 3)) continue; n += i + 1; } R(n);"),
 ("var x = Res(0); var i = 0`u8; while (i < (p & 3)) { if (i == (q & 3)) { x = Res(9); break } x = Res(i as u32 + 1); i++ } return x.id", "uint32_t x = 0; for (int i = 0; i < (p & 3); i++) { if (i == (q & 3)) { x = 9; break; } x = i + 1; } R(x);"),
 ("var x = Res(1); if (p > 3) { x = Res(2); if (q > 3) { x = Res(3) } } else { var y = x; x = Res(y.id + 3) } return x.id", "R(p > 3 ? q > 3 ? 3 : 2 : 4);"),
 ("var x = Res(1); switch (p) { case 1`u8 => { x = Res(2) } case 2`u8 => { var y = Res(3); x = y } default => { } } return x.id", "R(p == 1 ? 2 : p == 2 ? 3 : 1);"),
 ("var x = Res(1); { var y = Res(2); { var z = Res(3); if (p > 3) return z.id; x.id += y.id } } return x.id", "R(3);"),
 ("var s = Res(0); for (const i: 1..4) { var n = Res(i as u32); if (i == ((p & 3) as i32)) { n.next = s.next; s.next = n } else { n.next = s; s = n } } var c = 0`u32; var x = s; while (x != null) { c++; x = x.next } return c", "R(4);"),
 ("var s = build(3); var t = 0`u32; while (s != null) { t = t * 4 + s.id; s = s.next } return t", "R(27);"),
 ("var s = build(3); s = rev(&&s); return s.id + s.next.id * 4 + s.next.next.id * 16", "R(27);"),
 ("var d = build(2); var e = d; d = build(1); return e.next.id + d.id * 4", "R(6);"),
 ("var o = Own{r: Res(1)}; o = Own{r: o.r}; return o.r.id", "R(1);"),
 ("var o = Own{r: Res(1)}; o.r = o.r; return o.r.id", "R(1);"),
 ("var o = Own{r: Res(1)}; var t = (o, Res(2)); t.0.r = t.1; return o.r.id + t.0.r.id * 4", "R(9);"),
 ("var u: UR = Res(1); u = u; match (u) { case Res as r => return r.id; else => return 9 }", "R(1);"),
 ("var t = Two(Res(1), Res(2)); t = Two(t.r, t.l); return t.l.id + t.r.id * 4", "R(6);"),
 ("var x = Res(1); var n = 0`u32; switch (p) { case 1`u8 => { n = take(&&x) } case 2`u8 => { n = 7 } default => { n = take(x) * 2 } } return n", "R(p == 1 ? 1 : p == 2 ? 7 : 2);"),
 ("var x = Res(1); var n = 0`u32; if (p > 3) { if (q > 3) n = take(&&x) } else { n = 5 } return n", "R(p > 3 ? q > 3 ? 1 : 0 : 5);"),
 ("var x = Res(1); var n = 0`u32; if (p > 3) { n = take(&&x); x = Res(4) } return n + x.id", "R(p > 3 ? 5 : 1);"),
 ("var x: Res = null; if (p > 3) { x = Res(4) } if (q > 3) { x = Res(5) } return p > 3 || q > 3 ? x.id : 0`u32", "R(q > 3 ? 5 : p > 3 ? 4 : 0);"),
 ("var u: UR = mko(4); if (p > 3) { u = Res(1) } var n = 0`u32; match (u) { case Res as r => { n = r.id } case Own as o => { var w = o; n = w.r.id } else => { n = 9 } } return n", "R(p > 3 ? 1 : 4);"),
 # moved in one place, assigned again in another
 ("var x = Res(1); var n = 0`u32; if (p > 3) { n = take(&&x); if (q > 3) { x = Res(4) } } return n", "R(p > 3);"),
 ("var x = Res(1); var n = 0`u32; if (p > 3) { n = take(&&x) } if (q > 3) { x = Res(4) } return n", "R(p > 3);"),
 ("var x: Res = null; if (p > 3) { x = Res(4) } else if (q > 3) { x = Res(5); return take(&&x) } return 1", "R(p > 3 ? 1 : q > 3 ? 5 : 1);"),
 ("var x = Res(1); var n = 0`u32; for (const i: 0..3) { if (i == ((p & 3) as i32)) { n += take(&&x); x = Res(3) } } return n + x.id * 8", "R((p & 3) < 3 ? 25 : 8);"),
 ("var x = Res(1); var n = 0`u32; var i = 0`u8; while (i < (p & 3)) { n += take(&&x); x = Res(2); if (i == (q & 3)) { n += take(&&x); x = Res(5) } i++ } return n * 8 + x.id", "uint32_t n = 0, x = 1; for (int i = 0; i < (p & 3); i++) { n += x; x = 2; if (i == (q & 3)) { n += x; x = 5; } } R(n * 8 + x);"),
 ("var x = Res(1); if (p > 3) { var y = &&x; if (q > 3) { x = &&y } else { return y.id } } return x.id + 4", "R(p > 3 && q <= 3 ? 1 : 5);"),
 ("var x = Res(1); var y = Res(2); if (p > 3) { y = &&x; x = Res(3) } return x.id + y.id * 4", "R(p > 3 ? 7 : 9);"),
 ("var s = Res(1); if (p > 3) { var n = Res(2); n.next = &&s; s = &&n } return s.id", "R(p > 3 ? 2 : 1);"),
 ("var x = Res(1); var n = 0`u32; switch (p) { case 1`u8 => { n = take(&&x); x = Res(3) } case 2`u8 => { n = take(&&x); return n } default => { } } return n + x.id * 4", "R(p == 1 ? 13 : p == 2 ? 1 : 4);"),
 ("var x = Res(1); defer { if (p > 3) { x = Res(2) } }; return x.id", "R(1);"),
 ("var o = mko(1); if (p > 3) { var w = &&o; return w.r.id } return o.r.id + 4", "R(p > 3 ? 1 : 5);"),
 ("var o = mko(1); var n = 0`u32; if (p > 3) { var w = &&o; n = w.r.id; if (q > 3) { o = mko(6) } } return n", "R(p > 3);"),
 ("var t = Two(Res(1), Res(2)); if (p > 3) { t.l = &&t.r; t.r = Res(5) } return t.l.id + t.r.id * 4", "R(p > 3 ? 22 : 9);"),
 ("var x = Res(1); { var y = &&x; if (p > 3) { x = &&y } } var n = 3`u32; if (p > 3) { n = x.id } return n", "R(p > 3 ? 1 : 3);"),
 ("var x = Res(0); for (const i: 0..3) { var y = Res((i as u32) + 1); if (i == ((p & 3) as i32)) { x = &&y; break } if (i == ((q & 3) as i32)) { x = y } } return x.id", "uint32_t x = 0; for (int i = 0; i < 3; i++) { if (i == (p & 3)) { x = i + 1; break; } if (i == (q & 3)) x = i + 1; } R(x);"),
 ("var x = find(p); return x.id", "R((p & 3) < 3 ? 1 : 9);"),
 ("var x = find2(p, q); return x.id", "R((p & 3) < 3 && ((q & 3) == 3 || (p & 3) < (q & 3)) ? (p & 3) : (q & 3) < 3 ? (q & 3) : 9);"),
 ("var x = find3(p & 7, q); return x.id", "R(q > 3 && (p & 7) > 3 ? 2 : 1);"),
 ("var x = Res(1); for (const i: 0..3) { if (i == ((p & 3) as i32)) { const n = take(&&x); return n } } return x.id + 4", "R((p & 3) < 3 ? 1 : 5);"),
 ("var x = Res(1); var n = 0`u32; for (const i: 0..3) { if (i == ((p & 3) as i32)) { n = take(&&x); break } } return n", "R((p & 3) < 3 ? 1 : 0);"),
 ("var x = Res(1); var n = 0`u32; for (const i: 0..3) { if (i == ((p & 3) as i32)) { delete x; n = 4; break } } return n", "R((p & 3) < 3 ? 4 : 0);"),
 ("var x = Res(1); var n = 0`u32; for (const i: 0..3) { if (i == ((p & 3) as i32)) { x = null; n = 4; break } } return n", "R((p & 3) < 3 ? 4 : 0);"),
 ("var x = Res(1); var n = 0`u32; for (const i: 0..3) { delete x; x = Res(i as u32); n += x.id }  return n", "R(3);"),
 ("var x = Res(1); var n = 0`u32; for (const i: 0..3) { x = null; if (i == ((p & 3) as i32)) { n = 4; break } x = Res(i as u32); n += x.id }  return n", "R((p & 3) == 0 ? 4 : (p & 3) == 1 ? 4 : (p & 3) == 2 ? 4 : 3);"),
 ("var x = Res(1); var n = 0`u32; for (const i: 0..3) { var y = &&x; n += y.id; x = Res((i as u32) + 2) } return n * 8 + x.id", "R(6 * 8 + 4);"),
 ("var x = Res(1); var n = take(&&x); for (const i: 0..3) { if (i == ((p & 3) as i32)) { return n } n += 2 } return n", "R((p & 3) * 2 + 1);"),
 ("var x = Res(1); delete x; for (const i: 0..3) { if (i == ((p & 3) as i32)) { x = Res(4); return x.id } if (i == ((q & 3) as i32)) return 9 } return 2", "R((p & 3) < 3 && ((q & 3) == 3 || (p & 3) <= (q & 3)) ? 4 : (q & 3) < 3 ? 9 : 2);"),
 ("var x: Res = null; for (const i: 0..3) { if (i == ((p & 3) as i32)) { return i as u32 } x = Res(1); if (i == ((q & 3) as i32)) { x = null } } return 8", "R((p & 3) < 3 ? (p & 3) : 8);"),
 ("var o = mko(1); for (const i: 0..3) { if (i == ((p & 3) as i32)) { var w = &&o; return w.r.id } if (i == ((q & 3) as i32)) { o = mko(5) } } return o.r.id + 4", "R((p & 3) < 3 ? ((q & 3) < (p & 3) ? 5 : 1) : ((q & 3) < 3 ? 9 : 5));"),
 ("var x = Res(1); for (const i: 0..2) { for (const j: 0..2) { if (j == ((p & 1) as i32)) { if (q > 3) { var y = &&x; x = Res(y.id + 1) } else { break } } } } return x.id", "R(q > 3 ? 3 : 1);"),
 ("return par(Res(1), p)", "R(p > 3 ? 1 : 5);"),
 ("var x = Res(1); return par(x, p) + x.id * 8", "R((p > 3 ? 1 : 5) + 8);"),
 ("var x = Res(1); var y = par2(x, p); return x.id + y.id * 8", "R(1 + (p > 3 ? 56 : 8));"),
 ("var x = Res(1); var y = par3(x, p & 15); return x.id + y.id * 8", "uint32_t x = 1; for (int k = p & 15; k > 3;) { x++; k -= 3; if (k > 9) break; } R(1 + x * 8);"),
 ("var o = mko(1); const n = par4(o, p); return n + o.r.id * 16", "R(16 + ((p & 3) < 2 ? 5 : (p & 3) == 2 ? 13 : 9));"),
 ("var x = ex1(p, q) catch Res(9); return x.id", "R((p & 3) < 3 ? 9 : (q & 3) < 3 ? 2 : 1);"),
 ("var x = ex2(p & 7, q) catch Res(9); return x.id", "R((p & 7) == 0 ? 1 : q > 3 ? 9 : 1);"),
 ("return ex3(p) catch 9`u32", "R(p > 9 ? 9 : p > 7 ? 3 : 4);"),
 ("var u: UR = Res(1); for (const i: 0..3) { if (i == ((p & 3) as i32)) { u = mko(2); continue } if (i == ((q & 3) as i32)) { u = 7`u32; break } } match (u) { case Res as r => return r.id; case Own as o => return o.r.id; case u32 as n => return n; else => return 9 }", "uint32_t n = 1; for (int i = 0; i < 3; i++) { if (i == (p & 3)) { n = 2; continue; } if (i == (q & 3)) { n = 7; break; } } R(n);"),
 ("var t = (Res(1), 5`u32); for (const i: 0..3) { if (i == ((p & 3) as i32)) { t = (Res(2), i as u32); if (q > 3) break } } return t.0.id * 8 + t.1", "R((p & 3) < 3 ? 16 + (p & 3) : 13);"),
 ("var x: Res? = null; for (const i: 0..3) { if (i == ((p & 3) as i32)) { x = Res(2); if (q > 3) break } else { x = null } } if (const y = x) { return y&.id } return 0", "R((p & 3) < 3 && (q > 3 || (p & 3) == 2) ? 2 : 0);"),
 ("var s = String(); for (const i: 0..3) { if (i == ((p & 3) as i32)) { s = String(); if (q > 3) break } s << \"ab\" } return s.size() as u32", "R((p & 3) < 3 ? q > 3 ? 0 : 2 * (3 - (p & 3)) : 6);"),
 # strings
 ("var s = String(); s << \"ab\" << (p as u32); return s.size() as u32", "R(2 + (p > 99 ? 3 : p > 9 ? 2 : 1));"),
]
PRE += "".join("func d%d(p: u8, q: u8, k: u8): u32 { %s }\n" % (k, d[0]) for k, d in enumerate(D))
CASES = [("const r = d%d(a, b, c); return r * 256 + live()" % k, "uint8_t p = a, q = b, k = c; " + d[1].replace("R(", "return 256 * ("), "", d[0]) for k, d in enumerate(D)]
KN = [
 ("var x = Res(2); const f = () => x.id + 1; x = Res(4); return f() < 100 ? 1`u32 : 2`u32", "R(1);"),
 ("return id(Res(3)).id", "R(3);"),
 ("return mkr(1).id + take(mkr(2))", "R(3);"),
 ("mkr(1); return 0", "R(0);"),
 ("var x = opt(p); if (x) return (*x).id; return 0", "R(p > 3 ? 1 : 0);"),
 ("var x = [Res(1), Res(2)]; return x.[0].id + x.[1].id * 4", "R(9);"),
 ("var x = [Res(1), Res(2)]; x.[0] = x.[1]; return x.[0].id + x.[1].id * 4", "R(10);"),
 ("var x = [Res(1), Res(2), Res(3)]; x.[p & 1] = Res(5); var n = 0`u32; for (const r: x) { n = n * 8 + r.id } return n", "R(p & 1 ? 64 + 40 + 3 : 5 * 64 + 16 + 3);"),
]
KPRE = PRE + "".join("func e%d(p: u8, q: u8, k: u8): u32 { %s }\n" % (k, d[0]) for k, d in enumerate(KN))
KCASES = [("const r = e%d(a, b, c); return r * 256 + live()" % k, "uint8_t p = a, q = b, k = c; " + d[1].replace("R(", "return 256 * ("), "", d[0]) for k, d in enumerate(KN)]
def units(work):
    yield S.cases_unit("temporaries", work, KCASES, params=P, ret="u32", pre=KPRE, cpre=CPRE, mm=True, what="object lifetimes", time_s=300)
    yield S.cases_unit("rc", work, CASES, params=P, ret="u32", pre=PRE, cpre=CPRE, mm=True, what="object lifetimes", time_s=300)
