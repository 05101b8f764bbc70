// Harness API: the same harness is run by symx (symbolically) and natively (replay of solver models).
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
void sx_make_symbolic(void *p, size_t n, const char *name);
void sx_assume(int c);
void sx_assert(int c, const char *msg);
void sx_fail(const char *msg) __attribute__((noreturn));
void sx_reach(const char *name);
void sx_observe(const char *name, uint64_t v);
uint64_t sx_pick(uint64_t v);              // fork over the feasible values
uint64_t sx_ite(int c, uint64_t a, uint64_t b); // branch-free select
int sx_is_symbolic(uint64_t v);
int sx_is_native(void);
int sx_feasible(int c);
void sx_done(void) __attribute__((noreturn));
uint64_t sx_live_objects(void);
int sx_is_live(const void *p);
int sx_readable(const void *p, size_t n);
void sx_log(const char *name, uint64_t v);
void sx_concretize_str(const char *p);
static inline uint8_t sx_u8(const char *n) { uint8_t x; sx_make_symbolic(&x, sizeof x, n); return x; }
static inline uint16_t sx_u16(const char *n) { uint16_t x; sx_make_symbolic(&x, sizeof x, n); return x; }
static inline uint32_t sx_u32(const char *n) { uint32_t x; sx_make_symbolic(&x, sizeof x, n); return x; }
static inline uint64_t sx_u64(const char *n) { uint64_t x; sx_make_symbolic(&x, sizeof x, n); return x; }
static inline int32_t sx_i32(const char *n) { return (int32_t)sx_u32(n); }
static inline int64_t sx_i64(const char *n) { return (int64_t)sx_u64(n); }
// a small choice 0..n-1, forked
static inline unsigned sx_choice(unsigned n, const char *name) { unsigned h = 0; if (n > 256) { uint8_t y = sx_u8(name); sx_assume(y <= (n - 1) / 256); h = 256 * (unsigned)sx_pick(y); } uint8_t x = sx_u8(name); sx_assume(h + x < n); return h + (unsigned)sx_pick(x); }
// a symbolic value 0..n-1, not forked
static inline unsigned sx_range(unsigned n, const char *name) { uint8_t x = sx_u8(name); sx_assume(x < n); return x; }
static inline int sx_and(int a, int b) { return (a != 0) & (b != 0); }
static inline int sx_or(int a, int b) { return (a != 0) | (b != 0); }
#ifdef __cplusplus
}
#endif
