import sxlib as S
NB, NF = (6, 3) if S.THOROUGH else (4, 2)
BOUNDS = "files of up to 4 (thorough: 6) bytes of any content, every way the system can split a transfer (each call moves one byte or all), up to 2 (thorough: 3) calls that would block or fail, at any point, files that shrink or grow while read"
OUTSIDE = "buffers larger than 4092 bytes at once; interrupted system calls (EINTR); the program a process runs, signals, process groups; macOS"
ASSUMPTIONS = ["open, read, write, lseek, fstat, sendfile, mkstemps, unlink, close and epoll behave as Linux documents (stand-ins answer them)"]
P = ("u8", "u8", "u8")
PRE = """
import "stdlib/coro.cxy" as coro
import "stdlib/os.cxy" as os
import { FileInputStream, FileOutputStream, FileDescriptor, TempFile } from "stdlib/os.cxy"
extern func out_(p: ^const void, n: u64): u64
extern func data_(): ^const void
extern func datan_(): u64
extern func got_(v: u64): u64
extern func fd_(k: u32): u32
func O(s: &const String) { return out_(s.data() !: ^const void, s.size()) }
"""
CPRE = r"""
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/epoll.h>
#include <sys/time.h>
#include <sys/types.h>
#define NB %d
#define NF %d
/* descriptors 3.. refer to files; SRC is read, DST is written */
struct file { uint8_t b[16]; int n, size; const char *name; int nblk; };
static struct file SRC, DST; struct des { struct file *f; int at, open, closes, used; }; static struct des X[16]; static int nx = 3, faults, fmax, hard, soft, regular = 1, waits, bad, unlinked, opens, rounds, early; static uint8_t OUT[32]; static int on = -1; static uint64_t NOWMS;
static void setup(int n, int f) { SRC.n = n; SRC.size = n; for (int i = 0; i < n; i++) SRC.b[i] = sx_u8("c"); fmax = f; }
static int fault(int blocks) { if (faults < fmax) { int k = sx_choice(blocks ? 3 : 2, "fault"); if (k) { faults++; if (k == 2) { soft++; errno = EAGAIN; } else { hard++; errno = EIO; } return 1; } } return 0; }
static struct des *of(int fd) { if (fd < 3 || fd >= 16 || !X[fd].open) { bad++; errno = EBADF; return 0; } return &X[fd]; }
static int mk(struct file *f) { sx_assert(nx < 16, "descriptors"); X[nx].f = f; X[nx].open = 1; X[nx].used = 1; X[nx].at = 0; return nx++; }
uint32_t fd_(uint32_t k) { return mk(k ? &DST : &SRC); }
int fz_open(const char *p, int fl, ...) { opens++; if (fault(0)) return -1; if (!strcmp(p, "src")) return mk(&SRC); if (!strcmp(p, "dst")) { if ((fl & O_ACCMODE) == O_RDONLY) bad++; return mk(&DST); } errno = ENOENT; return -1; }
int fz_close(int fd) { if (fd < 3 || fd >= 16 || !X[fd].used) { bad++; return -1; } X[fd].closes++; if (!X[fd].open) { bad++; return -1; } X[fd].open = 0; return 0; }
static size_t part(size_t m) { return m > 1 ? sx_choice(2, "part") ? 1 : m : m; }
ssize_t fz_read(int fd, void *p, size_t n) { struct des *d = of(fd); sx_assert(++rounds < 60, "reading ends"); if (!d) return -1; if (fault(1)) return -1; size_t m = d->f->n > d->at ? d->f->n - d->at : 0; if (m > n) m = n; m = part(m); for (size_t i = 0; i < m; i++) ((uint8_t *)p)[i] = d->f->b[d->at + i]; d->at += m; return m; }
ssize_t fz_write(int fd, const void *p, size_t n) { struct des *d = of(fd); sx_assert(++rounds < 60, "writing ends"); if (!d) return -1; if (fault(1)) return -1; size_t m = part(n); for (size_t i = 0; i < m; i++) { if (d->f->n >= 16) { bad++; break; } d->f->b[d->f->n++] = ((const uint8_t *)p)[i]; } return m; }
off_t fz_lseek(int fd, off_t o, int w) { struct des *d = of(fd); if (!d) return -1; if (fault(0)) return -1; off_t t = w == 0 ? o : w == 1 ? d->at + o : d->f->n + o; if (t < 0) { errno = EINVAL; return -1; } d->at = t; return t; }
ssize_t fz_sendfile(int out, int in, off_t *o, size_t n) { struct des *d = of(out), *s = of(in); sx_assert(++rounds < 60, "copying ends"); if (!d || !s) return -1; if (fault(1)) return -1; off_t at = o ? *o : s->at; size_t m = s->f->n > at ? s->f->n - at : 0; if (m > n) m = n; m = part(m); errno = 0; for (size_t i = 0; i < m; i++) { if (d->f->n >= 16) { bad++; break; } d->f->b[d->f->n++] = s->f->b[at + i]; } if (o) *o += m; else s->at += m; return m; }
int fz_fstat(int fd, struct stat *s) { struct des *d = of(fd); if (!d) return -1; if (fault(0)) return -1; s->st_size = d->f->size; s->st_mode = regular ? S_IFREG : S_IFIFO; return 0; }
int fz_stat(const char *p, struct stat *s) { return -1; }
int fz_lstat(const char *p, struct stat *s) { return -1; }
int fz_fcntl(int fd, int c, ...) { struct des *d = of(fd); if (!d) return -1; va_list a; va_start(a, c); int v = va_arg(a, int); va_end(a); if (c == F_GETFL) return O_RDWR; if (c == F_SETFL) d->f->nblk = v & O_NONBLOCK; return 0; }
int fz_mkstemps(char *p, int n) { if (fault(0)) return -1; int l = strlen(p); if (l < n + 6) { bad++; return -1; } for (int i = 0; i < 6; i++) { if (p[l - n - 6 + i] != 'X') bad++; p[l - n - 6 + i] = 'q'; } return mk(&DST); }
static uint8_t UN[32]; int fz_unlink(const char *p) { unlinked++; for (int i = 0; i < 31 && p[i]; i++) UN[i] = p[i]; return 0; }
int fz_epoll_create(int n) { return 99; }
static int want[16], regfile;
int fz_epoll_ctl(int e, int op, int fd, struct epoll_event *ee) { if (!of(fd)) return -1; if (op != EPOLL_CTL_DEL && X[fd].f == &SRC && regfile) { errno = EPERM; return -1; } want[fd] = op == EPOLL_CTL_DEL ? 0 : ee->events; return 0; }
int fz_epoll_wait(int e, struct epoll_event *ev, int max, int to) { int n = 0; for (int i = 3; i < 16; i++) { int m = X[i].open ? want[i] & (X[i].f == &SRC ? EPOLLIN : EPOLLOUT) : 0; if (m) { waits++; ev[n].events = m; ev[n++].data.fd = i; } } if (!n) sx_assert(to >= 0, "no wait lasts for ever"); NOWMS += n ? 0 : to; return n; }
int fz_gettimeofday(struct timeval *tv, void *z) { tv->tv_sec = 1000 + NOWMS / 1000; tv->tv_usec = NOWMS %% 1000 * 1000; return 0; }
long fz_time(long *t) { return 1000; }
void *fz_mmap(void *a, size_t n, int p, int f, int fd, long o) { return calloc(1, n); }
int fz_munmap(void *a, size_t n) { free(a); return 0; }
uint64_t out_(const void *p, uint64_t k) { on = k; for (uint64_t i = 0; i < k && i < 32; i++) OUT[i] = ((const uint8_t *)p)[i]; return 1; }
static uint8_t TXT[16]; static int tn; const void *data_(void) { return TXT; } uint64_t datan_(void) { return tn; }
static void text(int n, int f) { tn = n; for (int i = 0; i < n; i++) TXT[i] = sx_u8("c"); fmax = f; }
static int isout(int n) { if (on != n) return 0; for (int i = 0; i < n; i++) if (OUT[i] != SRC.b[i]) return 0; return 1; }
static int wrote(int n) { if (DST.n != n) return 0; for (int i = 0; i < n; i++) if (DST.b[i] != TXT[i]) return 0; return 1; }
static int prefix(void) { if (DST.n > tn) return 0; for (int i = 0; i < DST.n; i++) if (DST.b[i] != TXT[i]) return 0; return 1; }
static int copied(void) { if (DST.n != SRC.n) return 0; for (int i = 0; i < SRC.n; i++) if (DST.b[i] != SRC.b[i]) return 0; return 1; }
static int closed(int owned) { for (int i = 3; i < nx; i++) if (X[i].closes != owned) return 0; return !bad; }
static uint64_t LASTGOT; uint64_t got_(uint64_t v) { LASTGOT = v; return v; }
""" % (NB, NF)
CPRE += "static int prefixc(void) { if (DST.n > SRC.n) return 0; for (int i = 0; i < DST.n; i++) if (DST.b[i] != SRC.b[i]) return 0; return 1; }\n"
CBASE, PBASE = CPRE, PRE
D = []
def d(body, ref, pre, helper):
    D.append((body, ref, pre, helper))
N = "a <= NB && b == 0 && c == 0 && (setup(a, NF), 1)"
def inp(body, ref, pre=N):   # a stream over a descriptor it owns
    d("return f%d() catch 9`u64" % len(D), ref, pre, "func f%d(): !u64 { %s }" % (len(D), body))
FS = "var s = FileInputStream(<i32>fd_(0), true, false); "
# reading all: everything or an error, never less and never for ever
inp(FS + "var x = s.readAll(); return O(&x)", "if (!closed(1)) return 0; return hard || soft ? GOT == 9 : GOT == 1 && isout(SRC.n);")
inp(FS + "var x = s.readAll(); return O(&x)", "return closed(1) && GOT == 1 && isout(SRC.n < SRC.size ? SRC.n : SRC.size);", "a <= NB && b <= NB && c == 0 && (setup(a, 0), SRC.size = b, 1)")
inp(FS + "var x = s.readAll(); return O(&x)", "if (!closed(1)) return 0; return hard || soft ? GOT == 9 : GOT == 1 && isout(SRC.n);", "a <= NB && b == 0 && c == 0 && (setup(a, NF), regular = 0, SRC.size = 0, 1)")
inp(FS + "var x = String(); s.readAll(&x); return O(&x)", "if (!closed(1)) return 0; return hard || soft ? GOT == 9 : GOT == 1 && isout(SRC.n);")
inp(FS + "var x = s.readAsync(); return O(&x)", "if (!closed(1)) return 0; return hard ? GOT == 9 : GOT == 1 && isout(SRC.n);")
inp(FS + "var x = String(); s.readAsync(&x, 50); return O(&x)", "if (!closed(1)) return 0; return hard ? GOT == 9 : GOT == 1 && isout(SRC.n);")
inp("var x = os.readAll(\"src\"); return O(&x)", "if (!closed(1)) return 0; return hard || soft ? GOT == 9 : GOT == 1 && isout(SRC.n);")
inp("var x = os.readAll(String(\"src\"), true); return O(&x)", "if (!closed(1)) return 0; return hard ? GOT == 9 : GOT == 1 && isout(SRC.n);")
inp("var x = os.readAll(\"nosuch\"); return O(&x)", "return GOT == 9 && on < 0 && nx == 3;", "a == 0 && b == 0 && c == 0")
# single reads and seeks
inp(FS + "var x: [u8, 8] = []; var r = s.read(x, 5); if (!r) return 8`u64; out_(x !: ^const void, *r); return 1`u64", "if (!closed(1)) return 0; if (hard || soft) return GOT == 8; return GOT == 1 && on <= 5 && (SRC.n ? on >= 1 && on <= SRC.n : on == 0) && isout(on);", "a <= NB && b == 0 && c == 0 && (setup(a, 1), 1)")
inp(FS + "var q = s.seek(datan_()); if (!q) return 8`u64; var x: [u8, 8] = []; var r = s.read(x, 1); if (!r) return 8`u64; out_(x !: ^const void, *r); return *q", "if (!closed(1)) return 0; if (hard || soft) return GOT == 8; return GOT == b && on == (b < SRC.n ? 1 : 0) && (!on || OUT[0] == SRC.b[b]);", "a <= NB && b <= NB && c == 0 && (setup(a, 1), tn = b, 1)")
inp(FS + "var q = s.seek(0, os.Seek.End); if (!q) return 8`u64; return *q", "return closed(1) && (hard ? GOT == 8 : GOT == SRC.n);", "a <= NB && b == 0 && c == 0 && (setup(a, 1), 1)")
# writing
W = "a <= NB && b == 0 && c == 0 && (text(a, NF), 1)"
FO = "var s = FileOutputStream(<i32>fd_(1), true, false); "
inp(FO + "return s.writeAsync(data_(), datan_())", "if (!closed(1) || !prefix()) return 0; return hard ? GOT == 9 : GOT == tn && wrote(tn);", W)
inp(FO + "return s.writeAsync(data_(), datan_(), 30)", "if (!closed(1) || !prefix()) return 0; return hard ? GOT == 9 : GOT == tn && wrote(tn);", W)
inp(FO + "var q = s.write(data_(), datan_()); if (!q) return 8`u64; return *q", "if (!closed(1) || !prefix()) return 0; return hard || soft ? GOT == 8 && !DST.n : wrote(GOT) && (!tn || GOT);", "a <= NB && b == 0 && c == 0 && (text(a, 1), 1)")
inp("var s = FileOutputStream.open(\"dst\"); return s.writeAsync(data_(), datan_())", "if (!closed(1) || !prefix()) return 0; return hard ? GOT == 9 : GOT == tn && wrote(tn) && DST.nblk;", W)
inp("var s = FileInputStream.open(\"src\"); var x = s.readAsync(); return O(&x)", "if (!closed(1)) return 0; return hard ? GOT == 9 : GOT == 1 && isout(SRC.n) && SRC.nblk;")
# copying
CP = "if (!prefixc()) return 0; return hard ? GOT == 9 : GOT == 1 && copied();"
inp("var x = FileDescriptor(<i32>fd_(1), true); var y = FileDescriptor(<i32>fd_(0), true); os.copy(&x, &y); return 1`u64", "if (!closed(1)) return 0; " + CP, "a <= NB && b == 0 && c == 0 && (setup(a, NF), regfile = 1, 1)")
inp("var x = FileDescriptor(<i32>fd_(1), true); os.copy(&x, \"src\"); return 1`u64", "if (!closed(1)) return 0; " + CP)
inp("var x = FileDescriptor(<i32>fd_(1), true); var y = FileDescriptor(<i32>fd_(0), true); os.copy(&x, &y); return 1`u64", "if (!closed(1) || !prefixc()) return 0; return SRC.n < SRC.size ? GOT == 9 : GOT == 1 && DST.n == SRC.size;", "a <= NB && b <= NB && c == 0 && (setup(a, 0), SRC.size = b, 1)")
# descriptors: closed once by the one that owns them
inp("var x = os.open(\"src\"); return !!x ? 1`u64 : 2`u64", "return closed(1) && (hard ? GOT == 9 && nx == 3 : GOT == 1 && nx == 4);", "a == 0 && b == 0 && c == 0 && (setup(0, 1), 1)")
inp("var x = os.open(\"src\"); x.close(); return !!x ? 1`u64 : 2`u64", "return closed(1) && GOT == 2;", "a == 0 && b == 0 && c == 0 && (setup(0, 0), 1)")
inp("var x = FileDescriptor(<i32>fd_(0)); return x.size()", "return closed(0) && (hard ? GOT == 9 : GOT == SRC.n);", N)
# temporary files: unlinked and closed when dropped, unless kept
inp("var x = os.mkstemp(\"tm\"); return out_(x.name().data() !: ^const void, x.name().size())", "if (hard) return GOT == 9 && !unlinked && nx == 3; return GOT == 1 && unlinked == 1 && on == 8 && !memcmp(OUT, \"tmqqqqqq\", 8) && !memcmp(UN, OUT, 9) && closed(1);", "a == 0 && b == 0 && c == 0 && (setup(0, 1), 1)")
inp("var x = os.mkstemp(\"tm\", __string(\".x\")); return out_(x.name().data() !: ^const void, x.name().size())", "return GOT == 1 && unlinked == 1 && on == 10 && !memcmp(OUT, \"tmqqqqqq.x\", 10) && !memcmp(UN, OUT, 10) && closed(1);", "a == 0 && b == 0 && c == 0 && (setup(0, 0), 1)")
inp("var x = os.mkstemp(\"tm\"); var p = x.keep(); return O(&p)", "return GOT == 1 && !unlinked && on == 8 && !memcmp(OUT, \"tmqqqqqq\", 8) && closed(1);", "a == 0 && b == 0 && c == 0 && (setup(0, 0), 1)")
inp("var x = os.mkstemp(\"tm\"); os.copy(&x, \"src\"); return x.size()", "if (!closed(1) || unlinked != (nx > 3)) return 0; return hard ? GOT == 9 : copied();", N)
def cases(D, pre, cpre):
    pre += "".join("%s\nfunc d%d(): u64 { %s }\n" % (x[3], i, x[0]) for i, x in enumerate(D))
    cpre += "".join("static int r%d(uint8_t a, uint8_t b, uint8_t c, uint64_t GOT) { %s }\n" % (i, x[1]) for i, x in enumerate(D))
    return [("return got_(d%d())" % i, "return ({ int ok = r%d(a, b, c, LASTGOT); ok ? LASTGOT : ~LASTGOT; });" % i, "(%s)" % x[2], x[3]) for i, x in enumerate(D)], pre, cpre
FILES = cases(D, PRE, CPRE)
# processes: three pipes, a fork that answers as parent or child, an exec that fails or succeeds
PPRE = r"""
#include <sys/wait.h>
static int npipe, std_[3] = {-1, -1, -1}, nforks, isparent, execfail, pids, status, hang, waitn, pend; static char *ENVN, *ENVV; static uint8_t ARGS;
static int pfail = -1; static struct file PF[3];
static int end(int fd) { return fd >= 3 && fd < 16 && X[fd].used && X[fd].f >= PF && X[fd].f < PF + 3 ? X[fd].f - PF : -1; }
/* the read end of pipe k is descriptor 3 + 2k, its write end 4 + 2k */
int fz_pipe(int *p) { if (npipe == pfail) { errno = EMFILE; hard++; return -1; } p[0] = mk(&PF[npipe]); p[1] = mk(&PF[npipe]); npipe++; return 0; }
int fz_dup2(int a, int b) { sx_assert(b >= 0 && b < 3 && of(a), "dup2"); std_[b] = a; return b; }
int fz_fork(void) { nforks++; if (pfail == 9) { hard++; errno = EAGAIN; return -1; } return isparent ? 42 : 0; }
int fz_setenv(const char *n, const char *v, int o) { ENVN = (char *)n; ENVV = (char *)v; return 0; }
/* the new program reads a pipe the parent writes, writes two pipes the parent reads, and has no other end of them */
static int wired(void) { if (std_[0] != 3 || std_[1] != 6 || std_[2] != 8) return 0; return !X[4].open && !X[5].open && !X[7].open && !bad; }
int fz_execvp(const char *c, char *const *v) { sx_assert(!isparent, "only the child executes"); sx_assert(!strcmp(c, ARGS >= 3 ? "sh" : "cmd") && !strcmp(v[0], c), "the command is executed"); sx_assert(ARGS == 0 ? !v[1] : ARGS >= 3 ? !strcmp(v[1], "-c") && !strcmp(v[2], "cmd x") && !v[3] : !strcmp(v[1], "x") && !strcmp(v[2], "yz") && !v[3], "the arguments are passed"); sx_assert(ARGS != 2 || ENVN && !strcmp(ENVN, "K") && !strcmp(ENVV, "V"), "the environment is passed"); sx_assert(ARGS == 4 || wired(), "the pipes are connected"); if (execfail) { errno = ENOENT; return -1; } exit(0); }
void fz__exit(int c) { sx_assert(!isparent && c, "the child ends with an error"); exit(0); }
void fz_exit(int c) { fz__exit(c); }
int fz_waitpid(int pid, int *st, int fl) { if (pid != 42 || waitn) { errno = ECHILD; return -1; } if (fl & WNOHANG && pend > 0) { pend--; return 0; } sx_assert(!(fl & WNOHANG) || !pend, "waited"); waitn++; *st = status; return 42; }
int fz_pidfd_open(int pid, unsigned fl) { if (pid != 42) return -1; if (hard) { errno = ENOSYS; return -1; } return mk(&SRC); }
static void proc(int parent, int fail, int args) { isparent = parent; pfail = fail; ARGS = args; execfail = sx_choice(2, "exec"); }
static int ended(int k, int v) { status = k ? v : v << 8; return 1; }
static int ispar(uint64_t GOT) { return isparent && GOT == 1 && npipe == 3 && nforks == 1 && closed(1); }
"""
D = []
A = "b == 0 && c == 0 && "
for n, (call, ar) in enumerate((("os.execlp(\"cmd\", \"x\", \"yz\")", 1), ("os.execlpe(\"cmd\", E(), \"x\", \"yz\")", 2), ("os.shell(\"cmd x\")", 3), ("os.capture(\"cmd\", \"x\", \"yz\")", 1), ("os.capture(\"cmd\")", 0))):
    inp("var p = %s; return 1`u64" % call, "return ispar(GOT);", A + "a < 2 && (proc(a, -1, %d), 1)" % ar)
inp("var p = os.execlp(\"cmd\", \"x\", \"yz\"); return 1`u64", "return GOT == 9 && closed(1);", A + "a < 4 && (proc(1, a < 3 ? a : 9, 1), 1)")
inp("var p = os.execlp(\"cmd\", \"x\", \"yz\"); p.stdin().write(data_(), datan_()); var x = p.stdout().readAsync(); return O(&x)", "if (PF[0].n != tn || PF[0].n && PF[0].b[0] != TXT[0]) return 0; return GOT == 1 && on == 1 && OUT[0] == PF[1].b[0] && closed(1);", A + "a == 0 && (proc(1, -1, 1), text(1, 0), PF[1].n = 1, PF[1].b[0] = sx_u8(\"c\"), 1)")
inp("var p = os.execlp(\"cmd\", \"x\", \"yz\"); var x = p.stderr().readAsync(); return O(&x)", "return GOT == 1 && on == 1 && OUT[0] == PF[2].b[0] && closed(1);", A + "a == 0 && (proc(1, -1, 1), PF[2].n = 1, PF[2].b[0] = sx_u8(\"c\"), 1)")
R2 = "return isparent && GOT == (b ? (uint64_t)(uint32_t)-1 : c) && closed(1);"
E2 = "a == 1 && b < 2 && (!b || c && (c & 127) < 65 && (c & 127)) && (proc(a, -1, 1), ended(b, c))"
inp("var p = os.execlp(\"cmd\", \"x\", \"yz\"); return <u64><u32>p.wait()", R2, E2)
inp("var p = os.execlp(\"cmd\", \"x\", \"yz\"); return <u64><u32>p.waitAsync()", R2, E2 + " && (pend = sx_choice(2, \"early\"), 1)")
inp("var p = os.execlp(\"cmd\", \"x\", \"yz\"); const q = p.isExited(); return q ? 1`u64 : 2`u64", "return GOT == (a ? 2 : 1) && closed(1);", "a < 2 && b == 0 && (proc(1, -1, 1), ended(0, c), pend = a, 1)")
inp("return <u64><u32>os.execute(\"cmd x\", Slice[(string, string)](null, 0`u64))", "return isparent && GOT == (b ? (uint64_t)(uint32_t)-1 : c);", "a < 2 && b < 2 && (!b || c && (c & 127) < 65 && (c & 127)) && (proc(a, -1, 4), ended(b, c))")
PROC = cases(D, PBASE + "var ENV: [(string, string), 1] = [(\"K\", \"V\")];\nfunc E() { return Slice[(string, string)](ENV, 1`u64) }\n", CBASE.replace("X[i].open ? want[i] & (X[i].f == &SRC ? EPOLLIN : EPOLLOUT) : 0", "X[i].open ? want[i] & EPOLLIN : 0") + PPRE)
REN = ["epoll_create", "epoll_ctl", "epoll_wait", "gettimeofday", "time", "mmap", "munmap", "open", "close", "read", "write", "lseek", "sendfile", "fstat", "stat", "lstat", "fcntl", "mkstemps", "unlink"]
REN2 = ["fork", "pipe", "dup2", "execvp", "waitpid", "setenv", "pidfd_open", "exit", "_exit"]
def units(work):
    for n, (c, pre, cpre) in (("files", FILES), ("processes", PROC)):
        yield S.cases_unit(n, work, c, params=P, ret="u64", pre=pre, cpre=cpre, mm=True, what="files", time_s=400, imp=True, adefs=["-D_GNU_SOURCE"] + ["-D%s=fz_%s" % (x, x) for x in REN + (REN2 if n == "processes" else [])], natives=[S.REPO + "/src/cxy/stdlib/native/" + x for x in ("evloop/ae.c", "nos.c")], natopts=["-mllvm", "-asan-stack=0"])
