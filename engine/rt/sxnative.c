// Native replay runtime: inputs come from the file $SX_REPLAY (bytes of the solver's model in creation order).
#define _GNU_SOURCE
#include "sx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static unsigned char *buf; static size_t len, pos; static int inited; static FILE *obsf;
// live heap objects, counted through the sanitizer's allocation hooks
extern int __attribute__((weak)) __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static uint64_t live_;
static void hm(const volatile void *p, size_t n) { (void)n; if (p) live_++; }
static void hf(const volatile void *p) { if (p) live_--; }
static void init(void) { if (inited) return; inited = 1; if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(hm, hf); const char *f = getenv("SX_REPLAY"); if (f) { FILE *h = fopen(f, "rb"); if (!h) { fprintf(stderr, "SX: cannot open %s\n", f); _exit(90); } buf = malloc(1 << 16); len = fread(buf, 1, 1 << 16, h); fclose(h); } const char *o = getenv("SX_OBS"); if (o) obsf = fopen(o, "w"); }
void sx_make_symbolic(void *p, size_t n, const char *name) { init(); (void)name; for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = pos < len ? buf[pos++] : 0; }
void sx_assume(int c) { if (!c) { fprintf(stderr, "SX: assumption does not hold\n"); _exit(91); } }
void sx_assert(int c, const char *m) { if (!c) { fprintf(stderr, "SX-ASSERT-FAILED: %s\n", m); if (obsf) fclose(obsf); _exit(77); } }
void sx_fail(const char *m) { sx_assert(0, m); _exit(77); }
void sx_reach(const char *n) { (void)n; }
void sx_observe(const char *n, uint64_t v) { init(); if (obsf) { fprintf(obsf, "obs %s = %llu\n", n, (unsigned long long)v); fflush(obsf); } }
uint64_t sx_pick(uint64_t v) { return v; }
uint64_t sx_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
int sx_is_symbolic(uint64_t v) { (void)v; return 0; }
int sx_is_native(void) { return 1; }
int sx_feasible(int c) { return c; }
void sx_done(void) { if (obsf) fclose(obsf); _exit(0); }
uint64_t sx_live_objects(void) { init(); return live_; }
int sx_is_live(const void *p) { (void)p; return 1; }
int sx_readable(const void *p, size_t n) { (void)p; (void)n; return 1; }
void sx_log(const char *n, uint64_t v) { fprintf(stderr, "[log] %s %lld\n", n, (long long)v); }
void sx_concretize_str(const char *p) { (void)p; }
#ifndef SX_NO_MAIN
extern void sx_harness(void);
int main(void) { init(); sx_harness(); if (obsf) fclose(obsf); fflush(stderr); _exit(0); }
#endif
