import sxlib as S
NF = 2 if S.THOROUGH else 1
BOUNDS = "names: every path text of up to 5 (thorough: 6) bytes; the file system: every tree of a directory with two entries of any type (absent, file, directory, link out of the tree, dangling link), one of them with two entries of its own, every order of listing, up to 1 (thorough: 2) failing system calls anywhere"
OUTSIDE = "the operating system itself (stand-ins record and answer the calls); file systems that do not report entry types; links inside paths given by the caller; other processes changing the tree meanwhile; Windows separators"
ASSUMPTIONS = ["stat, lstat, access, opendir, readdir, mkdir, rmdir and unlink behave as POSIX says, on a tree of seven places"]
P = ("u32", "u8", "u8")
PN = "akm"
RET = "u64"
PRE = """
import "stdlib/path.cxy" as path
extern func p_(): ^const void
extern func pn_(): u64
extern func q_(): ^const void
extern func qn_(): u64
extern func name_(k: u32): ^const void
extern func namelen_(k: u32): u64
extern func out_(p: ^const void, n: u64): u64
extern func ent_(p: ^const void, n: u64): i32
func V(k: u32) => __string(name_(k) !: string, namelen_(k))
func O(p: path.Path) { return out_(p.__str().data() !: ^const void, p.size()) }
func L(p: path.PathLike) { const s = path.cast[__string](&p); return out_(s.data() !: ^const void, s.size()) }
func RM(p: path.PathLike, r: bool): !u64 { path.remove(p, r); return 1`u64 }
func MK(p: path.PathLike): !u64 { path.mkdir(p); return 1`u64 }
func MKS(p: path.PathLike): !u64 { path.mkdirs(p); return 1`u64 }
func LS(p: path.PathLike, r: bool): !u64 { path.ls(p, (x: path.PathLike): bool => { const s = path.cast[__string](&x); return ent_(s.data() !: ^const void, s.size()) != 0 }, r); return 1`u64 }
func FS(p: path.PathLike): !u64 { return path.getFileSize(p) }
func DE(p: path.PathLike): !u64 { const e = path.isDirEmpty(p); return e ? 1`u64 : 2`u64 }
"""
CPRE = r"""
#include <errno.h>
#include <dirent.h>
#include <sys/stat.h>
#define NT %d
#define NF %d
/* ---- texts */
static uint8_t T[NT + 1], U[NT + 1], *TX, *UX; static int tn = -1, un; static uint8_t O[64]; static int on = -1;
static uint8_t *mktext(uint8_t *t, int n) { uint8_t *x = malloc(n + 1); for (int i = 0; i < n; i++) { t[i] = x[i] = sx_u8("c"); sx_assume(x[i] != 0); } x[n] = 0; return x; }
static void needt(void) { if (tn < 0) { tn = sx_choice(NT + 1, "n"); TX = mktext(T, tn); } }
static void needu(void) { if (!UX) { un = sx_choice(3, "m"); UX = mktext(U, un); } }
const void *p_(void) { needt(); return TX; }
uint64_t pn_(void) { needt(); return tn; }
const void *q_(void) { needu(); return UX; }
uint64_t qn_(void) { needu(); return un; }
uint64_t out_(const void *p, uint64_t k) { on = k; for (uint64_t i = 0; i < k && i < 64; i++) O[i] = ((const uint8_t *)p)[i]; return 1; }
static int is(const uint8_t *p, int n) { if (on != n) return 0; for (int i = 0; i < n; i++) if (O[i] != p[i]) return 0; return 1; }
static int last(void) { for (int i = tn; i-- > 0;) if (T[i] == '/') return i; return -1; }
/* ---- a file system of seven places and one outside */
enum { ABS, FIL, DIRE, LNK, DNG };
static const char *const NM[] = {"t", "t/a", "t/..b", "t/a/...", "t/a/.d", "o", "o/x"};
static const signed char PAR[] = {-1, 0, 0, 1, 1, -1, 5};
static uint8_t ty[7], was[7]; static int up, faults, fmax, faulted, statf, seenm[7], nseen, wild, nested, stopat; static uint64_t sz[7];
static void fsup(int f) { if (up) return; up = 1; fmax = f; ty[0] = sx_choice(3, "t"); ty[5] = DIRE; ty[6] = FIL; for (int i = 1; i < 5; i++) ty[i] = ty[(int)PAR[i]] == DIRE ? sx_choice(i == 1 ? 5 : i == 2 ? 4 : i == 3 ? 4 : 2, "t") : ABS; for (int i = 0; i < 7; i++) { was[i] = ty[i]; sz[i] = 0; } }
static uint8_t *vw; static uint8_t vbuf[1200]; static int vlen, style;
/* the name of place k, terminated, or followed by other text (style), or in a block of exactly its size plus a terminator */
const void *name_(uint32_t k) { int n = strlen(NM[k]); for (int i = 0; i < n; i++) vbuf[i] = NM[k][i]; if (style) { vbuf[n] = 'x'; vbuf[n + 1] = 0; } else vbuf[n] = 0; return vbuf; }
uint64_t namelen_(uint32_t k) { return strlen(NM[k]); }
static int fault(void) { if (faults < fmax && sx_choice(2, "fault")) { faults++; faulted = 1; errno = EACCES; return 1; } return 0; }
static int raw(const char *p) { for (int i = 0; i < 7; i++) if (!strcmp(p, NM[i])) return i; return -1; }
/* where a path leads; a link to "o" on the way is followed */
static int place(const char *p, int follow) {
  if (raw(p) >= 0) { int i = raw(p); if (follow && ty[i] == LNK) return 5; if (follow && ty[i] == DNG) return -1; return ty[i] ? i : -1; }
  for (int i = 1; i < 5; i++) if (ty[i] == LNK) { int n = strlen(NM[i]); if (!strncmp(p, NM[i], n) && !strcmp(p + n, "/x")) return ty[6] ? 6 : -1; }
  return -1; }
static int parent(const char *p) { static char b[64]; int k = -1; for (int i = 0; p[i]; i++) if (p[i] == '/') k = i; if (k < 0) return 99; for (int i = 0; i < k; i++) b[i] = p[i]; b[k] = 0; int q = place(b, 1); return q >= 0 && ty[q] == DIRE ? q : -1; }
static int st(const char *p, struct stat *s, int follow) { if (statf && fault()) return -1; int i = place(p, follow); if (i < 0) { errno = ENOENT; return -1; } s->st_mode = ty[i] == FIL ? S_IFREG : ty[i] == DIRE ? S_IFDIR : S_IFLNK; s->st_size = sz[i]; return 0; }
int fz_stat(const char *p, struct stat *s) { return st(p, s, 1); }
int fz_lstat(const char *p, struct stat *s) { return st(p, s, 0); }
int fz_fstat(int fd, struct stat *s) { return -1; }
int fz_access(const char *p, int m) { return place(p, 1) < 0 ? -1 : 0; }
int fz_mkdir(const char *p, unsigned m) { int i = raw(p); if (i < 0) { wild = 1; errno = ENOENT; return -1; } if (fault()) return -1; if (ty[i]) { errno = EEXIST; return -1; } if (parent(p) < 0) { errno = ENOENT; return -1; } ty[i] = DIRE; return 0; }
static int empty(int i) { for (int k = 0; k < 7; k++) if (PAR[k] == i && ty[k]) return 0; return 1; }
int fz_rmdir(const char *p) { if (fault()) return -1; int i = place(p, 0); if (i < 0) { errno = ENOENT; return -1; } if (ty[i] != DIRE) { errno = ENOTDIR; return -1; } if (!empty(i)) { errno = ENOTEMPTY; return -1; } ty[i] = ABS; if (i > 4) wild = 2; return 0; }
int fz_unlink(const char *p) { if (fault()) return -1; int i = place(p, 0); if (i < 0) { errno = ENOENT; return -1; } if (ty[i] == DIRE) { errno = EISDIR; return -1; } ty[i] = ABS; if (i > 4) wild = 3; return 0; }
struct fz { int at, n, k; uint8_t e[8]; struct dirent d; };
static int opened, nord;
DIR *fz_opendir(const char *p) { if (fault()) return 0; int i = place(p, 1); if (i < 0) { errno = ENOENT; return 0; } if (ty[i] != DIRE) { errno = ENOTDIR; return 0; } struct fz *f = malloc(sizeof *f); opened++; f->at = i; f->k = f->n = 0; f->e[f->n++] = 100; f->e[f->n++] = 101; for (int k = 0; k < 7; k++) if (PAR[k] == i && ty[k]) f->e[f->n++] = k;
  int r = nord++ < 2 ? sx_choice(f->n > 3 ? 3 : f->n, "order") * (f->n > 3 ? f->n / 3 : 1) : 0; for (; r > 0; r--) { uint8_t x = f->e[0]; for (int k = 1; k < f->n; k++) f->e[k - 1] = f->e[k]; f->e[f->n - 1] = x; } return (DIR *)f; }
struct dirent *fz_readdir(DIR *d) { struct fz *f = (struct fz *)d; while (f->k < f->n && f->e[f->k] < 100 && !ty[f->e[f->k]]) f->k++; if (f->k == f->n) return 0; int e = f->e[f->k++]; if (e >= 100) { f->d.d_name[0] = f->d.d_name[1] = '.'; f->d.d_name[e - 99] = 0; f->d.d_type = DT_DIR; } else { const char *s = strrchr(NM[e], '/') + 1; int l = 0; do f->d.d_name[l] = s[l]; while (s[l++]); f->d.d_type = ty[e] == DIRE ? DT_DIR : ty[e] == FIL ? DT_REG : DT_LNK; } return &f->d; }
int fz_closedir(DIR *d) { opened--; free(d); return 0; }
char *fz_getenv(const char *n) { return 0; }
int32_t ent_(const void *p, uint64_t n) { char b[64]; if (n > 60) { wild = 4; return 0; } for (uint64_t i = 0; i < n; i++) b[i] = ((const char *)p)[i]; b[n] = 0; int i = raw(b); if (i < 0) { wild = 5; return 1; } seenm[i]++; nseen++; return nseen != stopat; }
static int under(int i, int k) { for (; i >= 0; i = PAR[i]) if (i == k) return 1; return 0; }
static int same(void) { for (int i = 0; i < 7; i++) if (ty[i] != was[i]) return 0; return 1; }
/* after remove: r is 1 (done) or 7 (an exception) */
static int rmok(int k, int rec, uint64_t r) { if (wild || opened) return 0; for (int i = 0; i < 7; i++) if (!under(i, k) && ty[i] != was[i]) return 0;
  int full = 0; for (int i = 0; i < 7; i++) if (PAR[i] == k && was[i]) full = 1;
  if (r == 1 && was[k] && ty[k]) return faulted && fmax && !rec ? 0 : 0; if (r == 1) return 1;
  if (faulted) return 1; return was[k] == DIRE && full && !rec && same(); }
static uint64_t GOT;
""" % (6 if S.THOROUGH else 5, NF)
# file system cases: (cxy, reference over GOT, style variants)
T = [
 ("return O(path.Path(p_() !: string))", "return is(T, tn);", "needt(), 1"),
 ("const p = path.Path(__string(p_() !: string, pn_())); const r = p / (q_() !: string); return O(r)", "if (tn && T[tn - 1] == '/') { if (on != tn + un) return 0; } else { if (on != tn + un + 1 || O[tn] != '/') return 0; } for (int i = 0; i < tn; i++) if (O[i] != T[i]) return 0; for (int i = 0; i < un; i++) if (O[on - un + i] != U[i]) return 0; return 1;", ""),
 ("const p = path.Path(p_() !: string); const n = p.name(); return out_(n.data() !: ^const void, n.size())", "return is(T + last() + 1, tn - last() - 1);", ""),
 ("return L(path.dirname(p_() !: string))", "return last() < 0 ? is(T, tn) : is(T, last());", ""),
 ("return L(path.dirname(__string(p_() !: string, pn_())))", "return last() < 0 ? is(T, tn) : is(T, last());", ""),
 ("return L(path.basename(path.Path(p_() !: string)))", "return is(T + last() + 1, tn - last() - 1);", ""),
 ("const x = path.Path(p_() !: string); const y = path.Path(q_() !: string); return ((x == &y) ? 1`u64 : 0`u64) + ((x != &y) ? 2`u64 : 0`u64) + ((hash(&x) == hash(&y)) ? 4`u64 : 0`u64) + (!!x ? 8`u64 : 0`u64) + (x.empty() ? 16`u64 : 0`u64) + ((x == (q_() !: string)) ? 32`u64 : 0`u64)", "int e = tn == un; for (int i = 0; e && i < un; i++) e = T[i] == U[i]; return (GOT | 4) == (e ? 37 : 2 + 4) + (tn ? 8 : 16) && (!e || GOT & 4);", ""),
]
D = [(a, "GOT = G; " + b, c) for a, b, c in T]
KS = [(0, "0"), (1, "1"), (2, "2"), (3, "3")]
def fs(body, ref, faults="0", pre="1"):
    D.append((body, "GOT = G; " + ref, "(fsup(%s), style = m & 1, m < 2 && %s)" % (faults, pre)))
for k in (0, 1, 3):
    fs("return RM(V(%d), %s) catch 7`u64" % (k, "true"), "return rmok(%d, 1, GOT);" % k, "k ? NF : 0", "k < 2")
for k in (0, 1):
    fs("return RM(V(%d), %s) catch 7`u64" % (k, "false"), "return rmok(%d, 0, GOT);" % k, "k ? NF : 0", "k < 2")
fs("return RM(path.Path(V(1)), true) catch 7`u64", "return rmok(1, 1, GOT);")
fs("return RM(name_(1) !: string, true) catch 7`u64", "return rmok(1, 1, GOT);", "0", "m == 0")
for k in (1, 3):
    fs("return (path.exists(V(%d)) ? 1`u64 : 0`u64) + (path.isfile(V(%d)) ? 2`u64 : 0`u64) + (path.isdir(V(%d)) ? 4`u64 : 0`u64) + (path.islink(V(%d)) ? 8`u64 : 0`u64)" % (k, k, k, k), "static const uint8_t W[] = {0, 3, 5, 13, 8}; return GOT == W[ty[%d]] && same();" % k)
fs("return MK(V(1)) catch 7`u64", "if (wild) return 0; for (int i = 0; i < 7; i++) if (i != 1 && ty[i] != was[i]) return 0; return GOT == 1 ? was[1] == ABS && ty[1] == DIRE : faulted ? 1 : (was[1] || was[0] != DIRE) && same();", "k ? NF : 0", "k < 2")
fs("return MKS(V(4)) catch 7`u64", "if (wild) return 0; for (int i = 0; i < 7; i++) if (!under(4, i) && ty[i] != was[i]) return 0; for (int i = 0; i < 5; i++) if (was[i] && ty[i] != was[i]) return 0; if (GOT == 1) return place(NM[4], 1) >= 0; return faulted || was[0] == FIL || (was[1] && was[1] != DIRE) || was[4] == DNG;", "k ? NF : 0", "k < 2")
fs("return MKS(path.Path(V(1))) catch 7`u64", "if (wild) return 0; for (int i = 2; i < 7; i++) if (ty[i] != was[i]) return 0; if (GOT == 1) return place(NM[1], 1) >= 0; return was[0] == FIL || was[1] == DNG;")
fs("return LS(V(0), false) catch 7`u64", "if (wild || opened || !same()) return 0; if (GOT == 7) return faulted || ty[0] != DIRE; for (int i = 0; i < 7; i++) if (seenm[i] != (PAR[i] == 0 && ty[i])) return 0; return ty[0] == DIRE;", "k ? NF : 0", "k < 2")
fs("return LS(V(0), true) catch 7`u64", "if (wild || opened || !same()) return 0; if (GOT == 7) return faulted || ty[0] != DIRE; for (int i = 0; i < 7; i++) if (seenm[i] != (i && under(i, 0) && ty[i])) return 0; return ty[0] == DIRE;", "k ? NF : 0", "k < 2")
fs("return LS(path.Path(V(0)), false) catch 7`u64", "int n = 0; for (int i = 0; i < 7; i++) n += PAR[i] == 0 && ty[i]; return !wild && !opened && nseen == (n ? 1 : 0);", "0", "(stopat = 1, ty[0] == DIRE)")
fs("return FS(V(1)) catch 7`u64", "return ty[1] == ABS || ty[1] == DNG || faulted ? GOT == 7 : ty[1] == LNK ? GOT == 0 : GOT == sz[1];", "k ? NF : 0", "k < 2 && (ty[1] != DIRE || 1) && (statf = 1, sz[1] = 1000 + a)")
fs("return DE(V(1)) catch 7`u64", "if (GOT == 7) return faulted || ty[1] != DIRE && ty[1] != LNK; if (ty[1] == LNK) return GOT == 2; return opened == 0 && GOT == (ty[3] || ty[4] ? 2 : 1);", "k ? NF : 0", "k < 2")
PRE += "".join("func d%d(a: u32, k: u8, m: u8): u64 { %s }\n" % (i, d[0]) for i, d in enumerate(D))
def chk(d):  # the reference answers whether the value is right; the unit compares values, so it returns the value itself or something else
    return "uint32_t k = b, m = c; " + d[1]
CP2 = "extern uint64_t LASTGOT;\n"
CASES = [("return got_(d%d(a, b, c))" % i, "return ({ uint64_t G = LASTGOT; int ok = (r%d)(a, b, c, G); ok ? G : ~G; });" % i, ("({ uint32_t k = b, m = c; %s; })" % d[2]) if d[2] else "(b == 0 && c == 0)", d[0]) for i, d in enumerate(D)]
CASES = [(c[0], c[1], c[2] if D[i][2] and i >= len(T) else "(b == 0 && c == 0)", c[3]) for i, c in enumerate(CASES)]
PRE += "extern func got_(v: u64): u64\n"
CPRE += "static uint64_t LASTGOT; uint64_t got_(uint64_t v) { LASTGOT = v; return v; }\n" + "".join("static int r%d(uint32_t a, uint32_t k, uint32_t m, uint64_t G) { %s }\n" % (i, d[1]) for i, d in enumerate(D))
REN = ["stat", "lstat", "fstat", "access", "mkdir", "rmdir", "unlink", "opendir", "readdir", "closedir", "getenv"]
def units(work):
    kw = dict(params=P, ret="u64", pre=PRE, cpre=CPRE, mm=True, what="paths", time_s=400, imp=True, adefs=["-D_GNU_SOURCE"] + ["-D%s=fz_%s" % (x, x) for x in REN], natives=[S.REPO + "/src/cxy/stdlib/native/nos.c"])
    yield S.cases_unit("names", work, CASES[:len(T)], **kw)
    yield S.cases_unit("filesystem", work, CASES[len(T):], **kw)
