import sxlib as S
BOUNDS = "programs of up to 4 coroutines with arbitrary sleeping times, timeouts and arrival times of up to 200 ms, every choice of ready descriptors and every way the clock can advance; 40 coroutines in a row for stack reuse, 110 at once for waking"
OUTSIDE = "the register save and restore instructions themselves (the switch is modelled as saving and restoring the call chain); several coroutines waiting on one descriptor; threads; kqueue and event port back ends; waits longer than 24 days"
ASSUMPTIONS = ["epoll, mmap and the clocks behave as Linux documents (stand-ins answer them)"]
P = ("u8", "u8", "u8")
PN = "akm"
RET = "u64"
PRE = """
import "stdlib/coro.cxy" as coro
extern func ev(k: u64): void
extern func at(k: u64): void
func work(id: u64, n: u8) { for (const i: 0`u8..n) { ev(id); __scheduler().yld() } ev(id + 100) }
func nap(id: u64, ms: u8) { sleepAsync(<i64>ms); at(id) }
func deep(n: u32): u32 { var x: [u32, 24] = []; for (const i: 0..24) x.[i] = n + <u32>i; return n == 0 ? x.[3] : deep(n - 1) + x.[5] }
"""
CPRE = r"""
#include <sys/epoll.h>
#include <sys/time.h>
#include <time.h>
#include <errno.h>
/* ---- clock, descriptors, stacks */
static uint32_t NOW, BASE; static int slack, late, dead, polls, nmap, spins;
struct fdst { int used, mask, want, in, out, hup; uint32_t when; }; static struct fdst F[8];
static uint64_t LOG[64]; static uint32_t LT[64]; static int nlog;
static void add(uint64_t k) { sx_assert(nlog < 64, "no event is repeated endlessly"); LOG[nlog] = k; LT[nlog++] = NOW; }
void ev(uint64_t k) { add(k); }
void at(uint64_t k) { add(k); }
#define BIG ((NOW + BASE) >= 1000)
#define MSEC (BIG ? NOW + BASE - 1000 : NOW + BASE)
static uint64_t SEC(void) { sx_assert(NOW + BASE < 2000, "time passes as told"); return BIG ? 1001 : 1000; }
int fz_gettimeofday(struct timeval *tv, void *z) { tv->tv_sec = SEC(); tv->tv_usec = MSEC * 1000; return 0; }
time_t fz_time(time_t *t) { return SEC(); }
int fz_clock_gettime(int c, struct timespec *t) { t->tv_sec = SEC(); t->tv_nsec = MSEC * 1000000; return 0; }
void *fz_mmap(void *a, size_t n, int p, int f, int fd, long o) { nmap++; return calloc(1, n); }
int fz_munmap(void *a, size_t n) { nmap--; free(a); return 0; }
int fz_epoll_create(int n) { return 99; }
int fz_epoll_ctl(int e, int op, int fd, struct epoll_event *ee) { if (fd < 0 || fd > 7) { errno = EPERM; return -1; } struct fdst *f = &F[fd]; 
  if (op == EPOLL_CTL_ADD) { if (f->used) { errno = EEXIST; return -1; } f->used = 1; f->mask = ee->events; } else { if (!f->used) { errno = ENOENT; return -1; } if (op == EPOLL_CTL_MOD) f->mask = ee->events; else f->used = 0; } return 0; }
/* a descriptor becomes ready at its time `when` (counted from 1; 0: never): in = readable, out = writable, hup = hung up (always reported) */
static int rd(struct fdst *f) { return f->used && f->when && NOW + 1 >= f->when ? (f->in && f->mask & EPOLLIN ? EPOLLIN : 0) | (f->out && f->mask & EPOLLOUT ? EPOLLOUT : 0) | (f->hup ? EPOLLHUP : 0) : 0; }
int fz_epoll_wait(int e, struct epoll_event *evs, int max, int to) {
  int n = 0; polls++; 
  if (to != 0) { uint32_t nx = 0; for (int i = 0; i < 8; i++) if (F[i].used && F[i].when && (F[i].in && F[i].mask & EPOLLIN || F[i].out && F[i].mask & EPOLLOUT || F[i].hup) && (!nx || F[i].when < nx)) nx = F[i].when;
    if (nx && nx < NOW + 1) nx = NOW + 1; uint32_t lim = NOW + (uint32_t)to; if (to < 0 && !nx) { dead = 1; sx_assert(0, "no wait lasts for ever"); }
    if (nx && (to < 0 || nx - 1 <= lim)) NOW = nx - 1; else { NOW = lim; if (slack) { late = 1; NOW += slack; } } }
  for (int i = 0; i < 8 && n < max; i++) { int r = rd(&F[i]); if (r) { evs[n].events = r; evs[n].data.fd = i; n++; } }
  if (n && to == 0) { if (++spins > 200) sx_assert(0, "no descriptor is reported for ever"); }
  if (n && to != 0) { if (++spins > 200) sx_assert(0, "no descriptor is reported for ever"); }
  return n; }
static int pos(uint64_t k) { for (int i = 0; i < nlog; i++) if (LOG[i] == k) return i; return -1; }
static int cnt(uint64_t k) { int n = 0; for (int i = 0; i < nlog; i++) n += LOG[i] == k; return n; }
static uint32_t tm_(uint64_t k) { int p = pos(k); return p < 0 ? ~0u : LT[p]; }
static int once(int n) { for (int i = 1; i <= n; i++) if (cnt(i) != 1) return 0; return 1; }
static uint64_t mx(uint64_t a, uint64_t b) { return a > b ? a : b; }
static int seq(int n, const uint8_t *w) { if (nlog != n) return 0; for (int i = 0; i < n; i++) if (LOG[i] != w[i]) return 0; return 1; }
#define SEQ(...) ({ static const uint8_t w_[] = {__VA_ARGS__}; seq(sizeof w_, w_); })
"""
D = []
def d(body, ref, pre="1", pre2=""):
    D.append((body, ref, pre, pre2))
ONE = "b == 0 && c == 0"
# starting: the coroutine runs at once, up to its first wait; the starter goes on afterwards
d("async work(1, 0); ev(1); __scheduler().yld(); ev(2); return 0", "return SEQ(101, 1, 2);", "a == 0 && " + ONE)
d("async work(1, a); ev(9); for (const i: 0..8) { __scheduler().yld() } ev(10); return 0", "int i; if (cnt(1) != a || cnt(101) != 1 || cnt(9) != 1 || LOG[nlog - 1] != 10) return 0; return pos(9) == (a ? 1 : 1) && pos(101) <= nlog - 2;", "a < 6 && " + ONE)
# everyone's turn comes, in order
d("async work(1, a); async work(2, b); async work(3, c); for (const i: 0..12) { __scheduler().yld() } ev(10); return 0", "return cnt(1) == a && cnt(2) == b && cnt(3) == c && once(0) && cnt(101) == 1 && cnt(102) == 1 && cnt(103) == 1 && LOG[nlog - 1] == 10;", "a < 4 && b < 4 && c < 4")
d("async work(1, 2); async work(2, 2); async work(3, 2); sleepAsync(1); return 0", "return cnt(101) == 1 && cnt(102) == 1 && cnt(103) == 1 && cnt(1) == 2 && cnt(2) == 2 && cnt(3) == 2;", "a == 0 && " + ONE)
# sleeping: not before the time, exactly at it when the clock is exact, everyone wakes once
d("async nap(1, a); async nap(2, b); async nap(3, c); sleepAsync(250); at(4); return 0", "return once(4) && tm_(1) == a && tm_(2) == b && tm_(3) == c && tm_(4) == 250 && nlog == 4;", "a < 200 && b < 200 && c < 200")
d("async nap(1, a); sleepAsync(<i64>b); at(2); sleepAsync(<i64>c); at(3); sleepAsync(200); return 0", "return once(3) && tm_(1) == a && tm_(2) == b && tm_(3) == b + c && nlog == 3;", "a < 200 && b < 100 && c < 100")
d("async nap(1, a); async nap(2, b); sleepAsync(250); return 0", "return once(2) && tm_(1) >= a && tm_(2) >= b && tm_(1) <= 250 && tm_(2) <= 250;", "a < 200 && b < 200 && (slack = c & 31, 1)")
# a coroutine that keeps yielding does not starve sleepers
d("async nap(1, a); var n = 0`u32; while (n < 150) { n++; __scheduler().yld(); tick_() } at(2); return 0", "return once(2) && pos(1) < pos(2) && tm_(1) >= a;", "a < 5 && " + ONE)
# the function that started a coroutine may return first
d("start1(a); const x = deep(6); sleepAsync(20); const y = deep(6); at(3); return <u64>(x + y)", "return GOT != 0 && cnt(1) == 1 && cnt(2) == 1 && cnt(3) == 1 && tm_(1) == 0 && tm_(2) == 0 + a;", "a < 10 && " + ONE)
d("start2(a, b); deep(3); sleepAsync(40); at(9); return 0", "return cnt(1) == 2 && cnt(2) == 2 && LOG[nlog - 1] == 9 && nlog == 5;", "a < 9 && b < 9 && c == 0")
d("start3(3, a); sleepAsync(60); at(9); return 0", "return once(3) && nlog == 4 && LOG[3] == 9;", "a < 10 && " + ONE)
# mutual exclusion
LK = "var in = 0`u32; "
d("var m = coro.Mutex(); m.lock(); at(1); m.unlock(); m.lock(); at(2); m.unlock(); return m.tryLock() ? 5`u64 : 6`u64", "return GOT == 5 && SEQ(1, 2);", "a == 0 && " + ONE)
d("var m = coro.Mutex(); async crit(&m, 1, a); async crit(&m, 2, b); async crit(&m, 3, c); sleepAsync(100); at(9); return m.tryLock() ? 5`u64 : 6`u64", "if (GOT != 5 || nlog != 7 || LOG[6] != 9) return 0; for (int i = 0; i < 6; i += 2) if (LOG[i] > 3 || LOG[i + 1] != LOG[i] + 10) return 0; return once(3);", "a < 20 && b < 20 && c < 20")
d("var m = coro.Mutex(); const x = m.tryLock(); const y = m.tryLock(); async crit(&m, 1, a); at(7); m.unlock(); sleepAsync(50); const z = m.tryLock(); return (x ? 1`u64 : 0`u64) + (y ? 2`u64 : 0`u64) + (z ? 4`u64 : 0`u64)", "return GOT == 5 && SEQ(7, 1, 11);", "a < 20 && " + ONE)
d("var m = coro.Mutex(); async crit(&m, 1, a); async crit(&m, 2, b); sleepAsync(50); async crit(&m, 3, c); sleepAsync(50); at(9); return 0", "return SEQ(1, 11, 2, 12, 3, 13, 9);", "a < 20 && b < 20 && c < 20")
# descriptors: b = when it becomes ready, c = timeout
R = "const r = fdWaitRead(3, <u64>c); at(r == coro.State.AE_READABLE ? 1`u64 : 2`u64); "
d("const r = fdWaitRead(3, 0); at(1); return <u64><u32>r", "return GOT == 1 && SEQ(1) && tm_(1) == b && !F[3].used;", "a == 0 && c == 0 && b < 200 && (F[3].in = 1, F[3].when = 1 + b)")
d("const r = fdWaitWrite(3, 0); at(1); return <u64><u32>r", "return GOT == 2 && SEQ(1) && tm_(1) == b && !F[3].used;", "a == 0 && c == 0 && b < 200 && (F[3].out = 1, F[3].when = 1 + b)")
d("const r = fdWaitRead(3, <u64>c); at(1); return r == coro.State.AE_READABLE ? 1`u64 : 2`u64", "return nlog == 1 && !F[3].used && (b < c ? GOT == 1 && tm_(1) == b : b > c ? GOT == 2 && tm_(1) == c : tm_(1) == c);", "a == 0 && c && b < 100 && c < 100 && (F[3].in = 1, F[3].when = 1 + b)")
d("const r = fdWaitWrite(3, <u64>c); at(1); return r == coro.State.AE_WRITABLE ? 1`u64 : 2`u64", "return nlog == 1 && !F[3].used && (b < c ? GOT == 1 && tm_(1) == b : b > c ? GOT == 2 && tm_(1) == c : tm_(1) == c);", "a == 0 && c && b < 100 && c < 100 && (F[3].out = 1, F[3].when = 1 + b)")
# waiting with a timeout leaves nothing behind: the next waits and sleeps are right
d("async nap(5, a); const r = fdWaitRead(3, 50); at(1); more_(b); const s = fdWaitRead(3, 0); at(2); more_(b); const t = fdWaitRead(3, <u64>c); at(3); sleepAsync(150); return (r == coro.State.AE_READABLE ? 1`u64 : 0`u64) + (s == coro.State.AE_READABLE ? 2`u64 : 0`u64) + (t == coro.State.AE_READABLE ? 4`u64 : 0`u64)", "return GOT == 7 && once(3) && cnt(5) == 1 && tm_(5) == a && tm_(1) == b && tm_(2) == 2 * b && tm_(3) == 3 * b;", "a < 100 && b < 30 && c > 30 && c < 40 && b && (F[3].in = 1, F[3].when = 1 + b)")
d("async nap(5, a); const r = fdWaitRead(3, <u64>c); at(1); more_(b); const s = fdWaitRead(3, 0); at(2); sleepAsync(150); return (r == coro.State.AE_READABLE ? 1`u64 : 0`u64) + (s == coro.State.AE_READABLE ? 2`u64 : 0`u64)", "return GOT == 2 && once(2) && cnt(5) == 1 && tm_(5) == a && tm_(1) == c && tm_(2) == c + b;", "a < 100 && b < 30 && c && c < 40 && b && (F[3].in = 1, 1)")
d("async rdr(3, 1, c); async rdr(4, 2, c); sleepAsync(120); at(9); return 0", "return once(2) && nlog == 3 && tm_(1) == (a < c || !c ? a : c) && tm_(2) == (b < c || !c ? b : c) && tm_(9) == 120;", "a < 100 && b < 100 && c < 100 && a != c && b != c && a && b && (F[3].in = F[4].in = 1, F[3].when = 1 + a, F[4].when = 1 + b)")
d("async rdr(3, 1, 0); sleepAsync(<i64>b); at(2); sleepAsync(120); return 0", "return once(2) && tm_(1) == a && tm_(2) == b;", "a < 100 && b < 100 && c == 0 && a && (F[3].in = 1, F[3].when = 1 + a)")
# a peer that hangs up wakes the waiter
d("const r = fdWaitRead(3, 0); at(1); return <u64><u32>r", "return GOT == 1 && SEQ(1) && tm_(1) == b && !F[3].used;", "a < 2 && c == 0 && b < 100 && (F[3].hup = 1, F[3].in = a, F[3].when = 1 + b)")
d("const r = fdWaitWrite(3, 0); at(1); return <u64><u32>r", "return GOT == 2 && SEQ(1) && tm_(1) == b && !F[3].used;", "a < 2 && c == 0 && b < 100 && (F[3].hup = 1, F[3].out = a, F[3].when = 1 + b)")
d("const r = fdWaitRead(3, 0); at(1); return 0", "return SEQ(1) && tm_(1) == b && !F[3].used;", "a == 0 && c == 0 && b < 100 && (F[3].hup = 1, F[3].when = 1 + b)")
d("async rdr(3, 1, c); sleepAsync(150); at(2); return 0", "return once(2) && tm_(1) == b && tm_(2) == 150;", "a == 0 && c && b < c && c < 100 && b && (F[3].hup = 1, F[3].when = 1 + b)")
# an unusable descriptor fails at once
d("const r = fdWaitRead(5000, 0); at(1); const q = fdWaitRead(9, 5); at(2); return (r == coro.State.AE_READABLE ? 1`u64 : 0`u64) + (q == coro.State.AE_READABLE ? 2`u64 : 0`u64)", "return GOT == 0 && SEQ(1, 2) && tm_(2) == 0;", "a == 0 && " + ONE)
d("const r = fdWaitRead(-1, 0); at(1); const q = fdWaitWrite(-5, 7); at(2); return (r == coro.State.AE_READABLE ? 1`u64 : 0`u64) + (q == coro.State.AE_WRITABLE ? 2`u64 : 0`u64)", "return GOT == 0 && SEQ(1, 2) && tm_(2) == 0;", "a == 0 && " + ONE)
# waking is once, however busy the others are
d("async rdr(3, 1, 0); for (const i: 0..110) { async spin(118) } tick_(); sleepAsync(20); at(2); return <u64>spun", "return GOT == 110 && once(2) && nlog == 2;", "a == 0 && b == 0 && c == 0 && (F[3].in = 1, F[3].when = 2)")
# times across a change of the second, and long ones
d("async nap(1, a); sleepAsync(<i64>b); at(2); return 0", "return once(2) && tm_(1) == a && tm_(2) == b;", "a < b && b < 100 && c == 0 && (BASE = 950, 1)")
d("const r = fdWaitRead(3, <u64>c); at(1); return r == coro.State.AE_READABLE ? 1`u64 : 2`u64", "return nlog == 1 && !F[3].used && (b < c ? GOT == 1 && tm_(1) == b : b > c ? GOT == 2 && tm_(1) == c : tm_(1) == c);", "a == 0 && c && b < 60 && c < 60 && (BASE = 970, F[3].in = 1, F[3].when = 1 + b)")
d("sleepAsync(<i64>a * 4 + 500); at(1); return 0", "return once(1) && tm_(1) == a * 4u + 500;", "c == 0 && b == 0 && a < 200")
# stacks are used again, and none is lost
d("for (const i: 0..40) { async nop1() } sleepAsync(1); return 0", "return cnt(1) == 40 && nmap <= 2;", "a == 0 && " + ONE)
d("for (const i: 0..36) { async nap(1, 5) } sleepAsync(9); return 0", "return cnt(1) == 36 && nmap <= 32 + 1;", "a == 0 && " + ONE)
PRE += """
extern func tick_(): void
extern func more_(b: u8): void
func nop1() { ev(1) }
var spun = 0`u32;
func spin(n: u32) { var i = 0`u32; while (i < n) { i++; __scheduler().yld() } spun = spun + 1 }
func two(id: u64, ms: u8) { at(id); sleepAsync(<i64>ms); at(id) }
func naps(ms: u8) { at(1); sleepAsync(<i64>ms); at(2) }
func start1(ms: u8) { async naps(ms) }
func start2(x: u8, y: u8) { async two(1, x); async two(2, y) }
func start3(n: u64, ms: u8): void { if (n == 0) return; async nap(n, ms); start3(n - 1, ms) }
func crit(m: &coro.Mutex, id: u64, ms: u8) { m.lock(); at(id); sleepAsync(<i64>ms); at(id + 10); m.unlock() }
func rdr(fd: i32, id: u64, t: u8) { fdWaitRead(fd, <u64>t); at(id) }
"""
PRE += "".join("func d%d(a: u8, b: u8, c: u8): u64 { %s }\n" % (i, x[0]) for i, x in enumerate(D))
PRE += "extern func got_(v: u64): u64\n"
CPRE += "void tick_(void) { NOW++; }\nvoid more_(uint8_t b) { F[3].when = 1 + NOW + b; }\nstatic uint64_t LASTGOT; uint64_t got_(uint64_t v) { LASTGOT = v; return v; }\n"
CPRE += "".join("static int r%d(uint8_t a, uint8_t b, uint8_t c, uint64_t GOT) { %s }\n" % (i, x[1]) for i, x in enumerate(D))
CASES = [("return got_(d%d(a, b, c))" % i, "return ({ int ok = r%d(a, b, c, LASTGOT); ok ? LASTGOT : ~LASTGOT; });" % i, "(%s)" % x[2], x[0]) for i, x in enumerate(D)]
REN = ["epoll_create", "epoll_ctl", "epoll_wait", "gettimeofday", "time", "clock_gettime", "mmap", "munmap"]
def units(work):
    yield S.cases_unit("coroutines", work, CASES, params=P, ret="u64", pre=PRE, cpre=CPRE, mm=True, what="coroutines", time_s=500, imp=True, adefs=["-D_GNU_SOURCE"] + ["-D%s=fz_%s" % (x, x) for x in REN], natives=[S.REPO + "/src/cxy/stdlib/native/evloop/ae.c"], natopts=["-mllvm", "-asan-stack=0"], bcopts=["-O0"])
