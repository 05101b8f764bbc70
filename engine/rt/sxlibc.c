// libc functions executed symbolically (linked into the bitcode image as __sxc_<name>).
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdbool.h>
#include <limits.h>
#include <errno.h>
typedef struct _IO_FILE FILE;
extern FILE *stdin, *stdout, *stderr;
void *malloc(size_t); void free(void *); void *realloc(void *, size_t); void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t); size_t strlen(const char *);
int memcmp(const void*, const void*, size_t); int strncmp(const char*, const char*, size_t);
void __sx_fwrite(FILE *, const void *, size_t); void __sx_unmodelled(const char *); int __sx_dtoa(char *, size_t, const char *, double);
uint64_t sx_pick(uint64_t); uint64_t sx_ite(int, uint64_t, uint64_t);
#define X(n) __sxc_##n
// errno of the code under test (the engine has its own); system calls that are passed through do not set it
int *X(__errno_location)(void) { static int e; return &e; }
size_t X(strlen)(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t X(strnlen)(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
// branch-free: all bytes are combined into one expression
int X(memcmp)(const void *a, const void *b, size_t n) { const uint8_t *x = a, *y = b; int r = 0; for (size_t i = n; i-- > 0;) { int d = (int)x[i] - (int)y[i]; r = (int)sx_ite(d != 0, (uint64_t)(int64_t)d, (uint64_t)(int64_t)r); } return r; }
int X(strcmp)(const char *a, const char *b) { const uint8_t *x = (void *)a, *y = (void *)b; for (;; x++, y++) { if (*x != *y) return (int)*x - (int)*y; if (!*x) return 0; } }
int X(strncmp)(const char *a, const char *b, size_t n) { const uint8_t *x = (void *)a, *y = (void *)b; for (; n; n--, x++, y++) { if (*x != *y) return (int)*x - (int)*y; if (!*x) return 0; } return 0; }
static int lo(int c) { return c + (((unsigned)c - 'A' < 26) << 5); }
static int up(int c) { return c - (((unsigned)c - 'a' < 26) << 5); }
int X(strcasecmp)(const char *a, const char *b) { const uint8_t *x = (void *)a, *y = (void *)b; for (;; x++, y++) { int p = lo(*x), q = lo(*y); if (p != q) return p - q; if (!p) return 0; } }
int X(strncasecmp)(const char *a, const char *b, size_t n) { const uint8_t *x = (void *)a, *y = (void *)b; for (; n; n--, x++, y++) { int p = lo(*x), q = lo(*y); if (p != q) return p - q; if (!p) return 0; } return 0; }
char *X(strchr)(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *X(strchrnul)(const char *s, int c) { for (;; s++) { if (*s == (char)c || !*s) return (char *)s; } }
char *X(strrchr)(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
void *X(memchr)(const void *p, int c, size_t n) { const uint8_t *s = p; for (; n; n--, s++) if (*s == (uint8_t)c) return (void *)s; return 0; }
void *X(memrchr)(const void *p, int c, size_t n) { const uint8_t *s = p; while (n--) if (s[n] == (uint8_t)c) return (void *)(s + n); return 0; }
char *X(strstr)(const char *h, const char *n) { size_t l = X(strlen)(n); if (!l) return (char *)h; for (; *h; h++) if (X(strncmp)(h, n, l) == 0) return (char *)h; return 0; }
void *X(memmem)(const void *h, size_t hn, const void *n, size_t nn) { if (!nn) return (void *)h; const uint8_t *p = h; for (size_t i = 0; i + nn <= hn; i++) if (X(memcmp)(p + i, n, nn) == 0) return (void *)(p + i); return 0; }
char *X(strcpy)(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *X(stpcpy)(char *d, const char *s) { while ((*d = *s)) d++, s++; return d; }
char *X(strncpy)(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *X(strcat)(char *d, const char *s) { X(strcpy)(d + X(strlen)(d), s); return d; }
char *X(strncat)(char *d, const char *s, size_t n) { char *p = d + X(strlen)(d); while (n-- && *s) *p++ = *s++; *p = 0; return d; }
char *X(strdup)(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); if (p) memcpy(p, s, n); return p; }
char *X(__strdup)(const char *s) { return X(strdup)(s); }
char *X(strndup)(const char *s, size_t m) { size_t n = X(strnlen)(s, m); char *p = malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
size_t X(strspn)(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { const char *p = a; while (*p && *p != s[n]) p++; if (!*p) break; } return n; }
size_t X(strcspn)(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { const char *p = a; while (*p && *p != s[n]) p++; if (*p) break; } return n; }
char *X(strpbrk)(const char *s, const char *a) { s += X(strcspn)(s, a); return *s ? (char *)s : 0; }
static char *tokp;
char *X(strtok_r)(char *s, const char *d, char **sv) { if (!s) s = *sv; if (!s) return 0; s += X(strspn)(s, d); if (!*s) { *sv = 0; return 0; } char *e = s + X(strcspn)(s, d); if (*e) { *e = 0; *sv = e + 1; } else *sv = 0; return s; }
char *X(strtok)(char *s, const char *d) { return X(strtok_r)(s, d, &tokp); }
char *X(strsep)(char **sp, const char *d) { char *s = *sp; if (!s) return 0; char *e = s + X(strcspn)(s, d); if (*e) { *e = 0; *sp = e + 1; } else *sp = 0; return s; }
void X(bzero)(void *p, size_t n) { memset(p, 0, n); }
void *X(mempcpy)(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
// ctype, branch-free
int X(isdigit)(int c) { return (unsigned)c - '0' < 10; }
int X(isupper)(int c) { return (unsigned)c - 'A' < 26; }
int X(islower)(int c) { return (unsigned)c - 'a' < 26; }
int X(isalpha)(int c) { return ((unsigned)c | 32) - 'a' < 26; }
int X(isalnum)(int c) { return (((unsigned)c | 32) - 'a' < 26) | ((unsigned)c - '0' < 10); }
int X(isxdigit)(int c) { return (((unsigned)c | 32) - 'a' < 6) | ((unsigned)c - '0' < 10); }
int X(isspace)(int c) { return (c == ' ') | ((unsigned)c - 9 < 5); }
int X(isblank)(int c) { return (c == ' ') | (c == 9); }
int X(iscntrl)(int c) { return ((unsigned)c < 32) | (c == 127); }
int X(isprint)(int c) { return (unsigned)c - 32 < 95; }
int X(isgraph)(int c) { return (unsigned)c - 33 < 94; }
int X(ispunct)(int c) { return X(isgraph)(c) & !X(isalnum)(c); }
int X(tolower)(int c) { return lo(c); }
int X(toupper)(int c) { return up(c); }
int X(abs)(int c) { return c < 0 ? -c : c; }
long X(labs)(long c) { return c < 0 ? -c : c; }
static unsigned dig(int c) { unsigned d = 99; d = (unsigned)sx_ite((unsigned)c - '0' < 10, (unsigned)c - '0', d); d = (unsigned)sx_ite(((unsigned)c | 32) - 'a' < 26, ((unsigned)c | 32) - 'a' + 10, d); return d; }
static unsigned long long scan(const char *s, char **e, int base, int *neg, int *any, int *ovf) {
  const char *p = s; *neg = 0; *any = 0; *ovf = 0; while (X(isspace)((unsigned char)*p)) p++;
  if (*p == '+') p++; else if (*p == '-') { *neg = 1; p++; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && dig((unsigned char)p[2]) < 16) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0, mx = 0; for (;;) { unsigned d = dig((unsigned char)*p); if (d >= (unsigned)base) break; *any = 1; unsigned long long lim = (ULLONG_MAX - 0) / base, rem = ULLONG_MAX % base; if (mx > lim - 1) *ovf |= (v > lim) | ((v == lim) & (d > rem)); else mx = mx * base + base - 1; v = v * base + d; p++; }
  if (e) *e = (char *)(*any ? p : s); return v; }
unsigned long long X(strtoull)(const char *s, char **e, int b) { int n, a, o; unsigned long long v = scan(s, e, b, &n, &a, &o); if (o) { errno = ERANGE; return ULLONG_MAX; } return n ? -v : v; }
unsigned long X(strtoul)(const char *s, char **e, int b) { return X(strtoull)(s, e, b); }
unsigned long long X(strtoumax)(const char *s, char **e, int b) { return X(strtoull)(s, e, b); }
long long X(strtoll)(const char *s, char **e, int b) { int n, a, o; unsigned long long v = scan(s, e, b, &n, &a, &o); if (n) { if (o || v > 1ull << 63) { errno = ERANGE; return LLONG_MIN; } return -v; } if (o || v > LLONG_MAX) { errno = ERANGE; return LLONG_MAX; } return v; }
long X(strtol)(const char *s, char **e, int b) { return X(strtoll)(s, e, b); }
long long X(strtoimax)(const char *s, char **e, int b) { return X(strtoll)(s, e, b); }
int X(atoi)(const char *s) { return (int)X(strtoll)(s, 0, 10); }
long X(atol)(const char *s) { return X(strtoll)(s, 0, 10); }
long long X(atoll)(const char *s) { return X(strtoll)(s, 0, 10); }
long X(__isoc23_strtol)(const char *s, char **e, int b) { return X(strtoll)(s, e, b); }
unsigned long X(__isoc23_strtoul)(const char *s, char **e, int b) { return X(strtoull)(s, e, b); }
long long X(__isoc23_strtoll)(const char *s, char **e, int b) { return X(strtoll)(s, e, b); }
unsigned long X(__isoc23_strtoumax)(const char *s, char **e, int b) { return X(strtoull)(s, e, b); }
long X(__isoc23_strtoimax)(const char *s, char **e, int b) { return X(strtoll)(s, e, b); }
unsigned long long X(__isoc23_strtoull)(const char *s, char **e, int b) { return X(strtoull)(s, e, b); }
double strtod(const char *, char **);
double X(atof)(const char *s) { return strtod(s, 0); }
float X(strtof)(const char *s, char **e) { return (float)strtod(s, e); }
// sorting / searching (callbacks stay interpreted)
void X(qsort)(void *b, size_t n, size_t s, int (*cmp)(const void *, const void *)) { char *p = b; char *t = malloc(s ? s : 1); for (size_t i = 1; i < n; i++) { memcpy(t, p + i * s, s); size_t j = i; while (j > 0 && cmp(p + (j - 1) * s, t) > 0) { memcpy(p + j * s, p + (j - 1) * s, s); j--; } memcpy(p + j * s, t, s); } free(t); }
void *X(bsearch)(const void *k, const void *b, size_t n, size_t s, int (*cmp)(const void *, const void *)) { size_t l = 0, u = n; while (l < u) { size_t m = (l + u) / 2; const void *p = (const char *)b + m * s; int c = cmp(k, p); if (c < 0) u = m; else if (c > 0) l = m + 1; else return (void *)p; } return 0; }
// ---- output: memory streams are real (interpreted) memory, other streams are dropped
#define MSMAGIC 0x5358464d454d5331ull
typedef struct { uint64_t magic; char **bp; size_t *sp; char *buf; size_t len, cap; bool fixed; } MS;
static MS *mss[64]; static int nms;
static MS *asms(FILE *f) { for (int i = 0; i < nms; i++) if ((void *)mss[i] == (void *)f) return mss[i]; return 0; }
FILE *X(open_memstream)(char **b, size_t *s) { if (nms == 64) __sx_unmodelled("too many memory streams"); MS *m = malloc(sizeof *m); m->magic = MSMAGIC; m->bp = b; m->sp = s; m->cap = 4096; m->buf = malloc(m->cap); m->len = 0; m->buf[0] = 0; *b = m->buf; *s = 0; mss[nms++] = m; return (FILE *)m; }
static void mswrite(MS *m, const char *p, size_t n) { if (m->len + n + 1 > m->cap) { size_t c = m->cap * 2; while (c < m->len + n + 1) c *= 2; m->buf = realloc(m->buf, c); m->cap = c; } memcpy(m->buf + m->len, p, n); m->len += n; m->buf[m->len] = 0; *m->bp = m->buf; *m->sp = m->len; }
int X(fclose)(FILE *f) { MS *m = asms(f); if (m) { for (int i = 0; i < nms; i++) if (mss[i] == m) { mss[i] = mss[--nms]; break; } free(m); } return 0; }
static void out(FILE *f, const char *p, size_t n) { MS *m = asms(f); if (m) mswrite(m, p, n); else __sx_fwrite(f, p, n); }
size_t X(fwrite)(const void *p, size_t s, size_t n, FILE *f) { out(f, p, s * n); return n; }
int X(fputs)(const char *s, FILE *f) { out(f, s, strlen(s)); return 1; }
int X(fputc)(int c, FILE *f) { char b = (char)c; out(f, &b, 1); return (unsigned char)c; }
int X(putc)(int c, FILE *f) { return X(fputc)(c, f); }
int X(_IO_putc)(int c, FILE *f) { return X(fputc)(c, f); }
int X(putchar)(int c) { return X(fputc)(c, stdout); }
int X(puts)(const char *s) { out(stdout, s, strlen(s)); out(stdout, "\n", 1); return 1; }
long X(write)(int fd, const void *p, size_t n) { __sx_fwrite(0, p, n); return (long)n; }
void X(perror)(const char *s) { (void)s; }
// ---- printf family
typedef struct { char *b; size_t cap, n; } O;
static void pc(O *o, char c) { if (o->n + 1 < o->cap) o->b[o->n] = c; o->n++; }
static void pad(O *o, char c, long n) { while (n-- > 0) pc(o, c); }
int X(vsnprintf)(char *b, size_t cap, const char *f, va_list ap) {
  O o = {b, cap, 0};
  for (; *f; f++) {
    if (*f != '%') { pc(&o, *f); continue; }
    const char *start = f; f++;
    bool left = false, zero = false, plus = false, space = false, alt = false;
    for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == ' ') space = true; else if (*f == '#') alt = true; else break; }
    long w = 0, prec = -1;
    if (*f == '*') { w = va_arg(ap, int); if (w < 0) { left = true; w = -w; } f++; } else while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    w = (long)sx_pick((uint64_t)w); prec = (long)sx_pick((uint64_t)prec);
    int l = 0; for (;; f++) { if (*f == 'l') l++; else if (*f == 'z' || *f == 'j' || *f == 't') l = 2; else if (*f == 'h') l--; else if (*f == 'L') l = 3; else break; }
    char c = *f;
    if (c == '%') { pc(&o, '%'); continue; }
    if (c == 'c') { int ch = va_arg(ap, int); if (!left) pad(&o, ' ', w - 1); pc(&o, (char)ch); if (left) pad(&o, ' ', w - 1); continue; }
    if (c == 's') { const char *s = va_arg(ap, const char *); if (!s) s = "(null)"; size_t n = prec >= 0 ? X(strnlen)(s, prec) : strlen(s); if (!left) pad(&o, ' ', w - (long)n);
      if (o.n + n < o.cap) { memcpy(o.b + o.n, s, n); o.n += n; } else for (size_t i = 0; i < n; i++) pc(&o, s[i]); if (left) pad(&o, ' ', w - (long)n); continue; }
    if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'o' || c == 'p' || c == 'b') {
      uint64_t v; bool neg = false; bool sg = c == 'd' || c == 'i';
      if (c == 'p') { v = (uint64_t)va_arg(ap, void *); alt = true; if (!v) { const char *s = "(nil)"; while (*s) pc(&o, *s++); continue; } }
      else if (l >= 1) v = va_arg(ap, uint64_t); else { unsigned u = va_arg(ap, unsigned); if (l == -1) v = sg ? (uint64_t)(int64_t)(short)u : (unsigned short)u; else if (l <= -2) v = sg ? (uint64_t)(int64_t)(signed char)u : (unsigned char)u; else v = sg ? (uint64_t)(int64_t)(int)u : u; }
      if (sg && (int64_t)v < 0) { neg = true; v = -v; }
      unsigned base = c == 'x' || c == 'X' || c == 'p' ? 16 : c == 'o' ? 8 : c == 'b' ? 2 : 10; char t[72]; int n = 0; uint64_t q = v; bool nz = v != 0;
      const char *dg = c == 'X' ? "0123456789ABCDEF" : "0123456789abcdef";
      do { unsigned d = (unsigned)(q % base); t[n++] = (char)(base == 16 ? (d < 10 ? '0' + d : (c == 'X' ? 'A' : 'a') + d - 10) : '0' + d); q /= base; } while (q); (void)dg;
      if (prec == 0 && !nz) n = 0;
      long zeros = prec > n ? prec - n : 0; char sign = neg ? '-' : sg && plus ? '+' : sg && space ? ' ' : 0; int pre = (alt && base == 16 && nz) ? 2 : (alt && base == 8) ? 1 : 0;
      long tot = n + zeros + (sign ? 1 : 0) + pre; if (zero && !left && prec < 0 && w > tot) { zeros += w - tot; tot = w; }
      if (!left) pad(&o, ' ', w - tot); if (sign) pc(&o, sign); if (pre) { pc(&o, '0'); if (pre == 2) pc(&o, c == 'X' ? 'X' : 'x'); } pad(&o, '0', zeros); while (n) pc(&o, t[--n]); if (left) pad(&o, ' ', w - tot); continue; }
    if (c == 'f' || c == 'g' || c == 'e' || c == 'F' || c == 'G' || c == 'E' || c == 'a') { double d = l == 3 ? (double)va_arg(ap, long double) : va_arg(ap, double); char fm[48]; int k = 0; fm[k++] = '%'; if (left) fm[k++] = '-'; if (zero) fm[k++] = '0'; if (plus) fm[k++] = '+'; if (space) fm[k++] = ' '; if (alt) fm[k++] = '#';
      if (w) { char t[12]; int n = 0; long q = w; while (q) { t[n++] = '0' + q % 10; q /= 10; } while (n) fm[k++] = t[--n]; } if (prec >= 0) { fm[k++] = '.'; char t[12]; int n = 0; long q = prec; do { t[n++] = '0' + q % 10; q /= 10; } while (q); while (n) fm[k++] = t[--n]; } fm[k++] = c; fm[k] = 0; char bb[512]; int n = __sx_dtoa(bb, sizeof bb, fm, d); for (int i = 0; i < n; i++) pc(&o, bb[i]); continue; }
    if (c == 'n') { *va_arg(ap, int *) = (int)o.n; continue; }
    (void)start; __sx_unmodelled("printf conversion");
  }
  if (cap) b[o.n < cap ? o.n : cap - 1] = 0; return (int)o.n; }
int X(snprintf)(char *b, size_t c, const char *f, ...) { va_list ap; va_start(ap, f); int n = X(vsnprintf)(b, c, f, ap); va_end(ap); return n; }
int X(vsprintf)(char *b, const char *f, va_list ap) { char *t = malloc(8192); int n = X(vsnprintf)(t, 8192, f, ap); memcpy(b, t, (size_t)n + 1); free(t); return n; }
int X(sprintf)(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int n = X(vsprintf)(b, f, ap); va_end(ap); return n; }
int X(vasprintf)(char **r, const char *f, va_list ap) { char *t = malloc(8192); int n = X(vsnprintf)(t, 8192, f, ap); *r = t; return n; }
int X(asprintf)(char **r, const char *f, ...) { va_list ap; va_start(ap, f); int n = X(vasprintf)(r, f, ap); va_end(ap); return n; }
int X(vfprintf)(FILE *s, const char *f, va_list ap) { if (!asms(s)) { size_t cap = 16384; char *t = malloc(cap); int n = X(vsnprintf)(t, cap, f, ap); out(s, t, (size_t)n < cap ? (size_t)n : cap - 1); free(t); return n; } size_t cap = 65536; char *t = malloc(cap); int n = X(vsnprintf)(t, cap, f, ap); if ((size_t)n >= cap) __sx_unmodelled("long fprintf"); out(s, t, n); free(t); return n; }
int X(fprintf)(FILE *s, const char *f, ...) { va_list ap; va_start(ap, f); int n = X(vfprintf)(s, f, ap); va_end(ap); return n; }
int X(vprintf)(const char *f, va_list ap) { return X(vfprintf)(stdout, f, ap); }
int X(printf)(const char *f, ...) { va_list ap; va_start(ap, f); int n = X(vfprintf)(stdout, f, ap); va_end(ap); return n; }
int X(dprintf)(int fd, const char *f, ...) { va_list ap; va_start(ap, f); int n = X(vfprintf)(stdout, f, ap); va_end(ap); return n; }
// small sscanf: not modelled
int X(pthread_mutex_init)(void *m, void *a) { return 0; } int X(pthread_mutex_lock)(void *m) { return 0; } int X(pthread_mutex_unlock)(void *m) { return 0; } int X(pthread_mutex_destroy)(void *m) { return 0; }
int X(sigemptyset)(void *s) { return 0; }

// 128-bit arithmetic on pairs of 64-bit numbers (engine/wide.inc)
typedef struct { uint64_t lo, hi; } W;
static W wneg(W a) { W r = {~a.lo + 1, ~a.hi + (a.lo == 0)}; return r; }
static W wshl(W a, uint64_t n) { W r; n &= 127; r.hi = n >= 64 ? a.lo << (n & 63) : n ? a.hi << n | a.lo >> (64 - n) : a.hi; r.lo = n >= 64 ? 0 : a.lo << n; return r; }
static W wshr(W a, uint64_t n, uint64_t fill) { W r; n &= 127; r.lo = n >= 64 ? (n == 64 ? a.hi : a.hi >> (n & 63) | fill << (128 - n)) : n ? a.lo >> n | a.hi << (64 - n) : a.lo; r.hi = n >= 64 ? fill : n ? a.hi >> n | fill << (64 - n) : a.hi; return r; }
static W wmul(W a, W b) { uint64_t x = a.lo & 0xffffffff, y = a.lo >> 32, u = b.lo & 0xffffffff, v = b.lo >> 32, p = x * u, q = y * u + (p >> 32), s = x * v + (q & 0xffffffff); W r = {s << 32 | (p & 0xffffffff), y * v + (q >> 32) + (s >> 32) + a.lo * b.hi + a.hi * b.lo}; return r; }
static W wdiv(W a, W b, int rem) {
    if (a.hi == 0 && b.hi == 0) { W r = {rem ? a.lo % b.lo : a.lo / b.lo, 0}; return r; }
    W q = {0, 0}, m = {0, 0};
    for (int i = 127; i >= 0; i--) { m = wshl(m, 1); m.lo |= (i >= 64 ? a.hi >> (i - 64) : a.lo >> i) & 1; if (m.hi > b.hi || (m.hi == b.hi && m.lo >= b.lo)) { m.hi = m.hi - b.hi - (m.lo < b.lo); m.lo -= b.lo; if (i >= 64) q.hi |= 1ull << (i - 64); else q.lo |= 1ull << i; } }
    return rem ? m : q;
}
static W wsdiv(W a, W b, int rem) { int na = a.hi >> 63, nb = b.hi >> 63; W r = wdiv(na ? wneg(a) : a, nb ? wneg(b) : b, rem); return (rem ? na : na != nb) ? wneg(r) : r; }
#define OP(name, expr) uint64_t __sx_##name##128lo(uint64_t al, uint64_t ah, uint64_t bl, uint64_t bh) { W a = {al, ah}, b = {bl, bh}; return (expr).lo; } uint64_t __sx_##name##128hi(uint64_t al, uint64_t ah, uint64_t bl, uint64_t bh) { W a = {al, ah}, b = {bl, bh}; return (expr).hi; }
OP(mul, wmul(a, b)) OP(shl, wshl(a, b.lo)) OP(lshr, wshr(a, b.lo, 0)) OP(ashr, wshr(a, b.lo, (uint64_t)((int64_t)a.hi >> 63))) OP(udiv, wdiv(a, b, 0)) OP(urem, wdiv(a, b, 1)) OP(sdiv, wsdiv(a, b, 0)) OP(srem, wsdiv(a, b, 1))
