// Interned strings and pool memory.
#include "sx.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <limits.h>
#include "core/mempool.h"
#include "core/strpool.h"
uint32_t sx_hash0(uint32_t h, const void *p, size_t n) { return 12345; }
uint32_t sx_hash1(uint32_t h, const void *p, size_t n) { return n ? ((const unsigned char *)p)[0] & 1 : 5; }
#if defined(POOL)
static const size_t SZ[] = {1, 8, 16, 17, 48, 1000, 1008, 1009, 1024, 1025, 3000};
void sx_harness(void) {
    uint64_t live = sx_live_objects();
    MemPool P = newMemPool(); unsigned char *p[NA]; size_t n[NA]; unsigned char tag[NA];
    for (int round = 0; round < 2; round++) {
        for (int i = 0; i < NA; i++) {
            n[i] = SZ[sx_choice(11, "size")]; tag[i] = sx_u8("tag"); p[i] = allocFromMemPool(&P, n[i]);
            sx_assert(p[i] != 0 && (uintptr_t)p[i] % 16 == 0, "pool memory is aligned for any object");
            memset(p[i], tag[i], n[i]);
        }
        for (int i = 0; i < NA; i++) { for (size_t j = 0; j < n[i]; j += j < 16 || j + 17 > n[i] ? 1 : 16) sx_assert(p[i][j] == tag[i], "an allocation overlaps another one"); for (int j = 0; j < i; j++) sx_assert(p[i] + n[i] <= p[j] || p[j] + n[j] <= p[i] || round, "allocations are disjoint"); }
        MemPoolStats st; getMemPoolStats(&P, &st); size_t sum = 0; for (int i = 0; i < NA; i++) sum += n[i]; sx_assert(st.totalUsed >= sum && st.totalAllocated >= st.totalUsed && st.numberOfBlocks >= 1, "pool statistics count the memory in use");
        if (round == 0) resetMemPool(&P);
    }
    freeMemPool(&P); sx_assert(sx_live_objects() == live, "freeing a pool frees all its memory"); getMemPoolStats(&P, &(MemPoolStats){0});
    unsigned char *q = allocFromMemPool(&P, 5); memset(q, 1, 5); freeMemPool(&P); sx_reach("end");
}
#elif defined(CACHE)
void sx_harness(void) {
    MemPool P = newMemPool(); enum { N = 4 }; unsigned char *p[N] = {0}; unsigned char tag[N]; uint64_t live = sx_live_objects();
    for (int i = 0; i < NA; i++) {
        unsigned k = sx_choice(N, "slot"); MemPoolCacheId c = k & 1 ? memType : memAstNode; size_t sz = c == memType ? 96 : 48;
        if (p[k]) { freeMemToPoolCache(&P, c, p[k], sz); p[k] = 0; sx_reach("returned"); }
        else { p[k] = allocFromCacheOrPool(&P, c, sz); sx_assert(p[k] != 0, "cache allocation"); tag[k] = sx_u8("tag"); memset(p[k], tag[k], sz); }
        for (int j = 0; j < N; j++) if (p[j]) { size_t s = j & 1 ? 96 : 48; for (size_t b = 0; b < s; b++) sx_assert(p[j][b] == tag[j], "a live cached object was handed out again or overwritten"); }
    }
    freeMemPool(&P); sx_assert(sx_live_objects() == live, "freeing a pool frees all its memory"); sx_reach("end");
}
#elif defined(TRACKED)
void sx_harness(void) {
    MemPool P = newMemPool(); enum { N = 3 }; unsigned char *p[N]; unsigned char tag[N]; size_t n[N]; uint64_t live = sx_live_objects();
    for (int i = 0; i < N; i++) { n[i] = 8 + 8 * i; tag[i] = sx_u8("tag"); p[i] = allocTrackedMem(&P, n[i]); memset(p[i], tag[i], n[i]); }
    for (int i = 0; i < NA; i++) {
        unsigned k = sx_choice(N, "which"); static const size_t S[] = {1, 24, 40, 200}; size_t z = S[sx_choice(4, "newsize")];
        p[k] = reallocTrackedMem(&P, p[k], z); size_t m = z < n[k] ? z : n[k];
        for (size_t b = 0; b < m; b++) sx_assert(p[k][b] == tag[k], "resizing keeps the contents"); n[k] = z; memset(p[k], tag[k], z);
        MemPoolStats st; getMemPoolStats(&P, &st); sx_assert(st.totalUsed == n[0] + n[1] + n[2], "pool statistics count tracked memory");
        for (int j = 0; j < N; j++) for (size_t b = 0; b < n[j]; b++) sx_assert(p[j][b] == tag[j], "tracked blocks keep their contents");
    }
    unsigned char *q = allocTrackedMem(&P, 4); q[3] = 1;
    freeMemPool(&P); sx_assert(sx_live_objects() == live, "freeing a pool frees all tracked memory"); sx_reach("end");
}
#elif defined(INTERN)
void sx_harness(void) {
    MemPool P = newMemPool(); StrPool S = newStrPool(&P); const char *r[3]; char ref[3][K + 1]; size_t len[3];
    for (int i = 0; i < 3; i++) {
        len[i] = sx_choice(K + 1, "len"); char *s = malloc(len[i] + 1); if (len[i]) sx_make_symbolic(s, len[i], "bytes"); s[len[i]] = 0;
        for (size_t j = 0; j < len[i]; j++) sx_assume(s[j] != 0);
        memcpy(ref[i], s, len[i] + 1);
        unsigned f = sx_choice(2, "form"); if (!f) r[i] = makeString(&S, s); else { char *t = malloc(len[i] ? len[i] : 1); memcpy(t, s, len[i]); r[i] = makeStringSized(&S, t, len[i]); memset(t, 1, len[i]); free(t); }
        memset(s, '#', len[i]); free(s);
    }
#if EXTRA
    for (int i = 0; i < EXTRA; i++) { char b[16]; sprintf(b, "%d!x", i); makeString(&S, b); }
#endif
    for (int i = 0; i < 3; i++) {
        sx_assert(strlen(r[i]) == len[i] && !memcmp(r[i], ref[i], len[i] + 1), "an interned string reads as what was interned");
        for (int j = 0; j < i; j++) { int same = len[i] == len[j] && !memcmp(ref[i], ref[j], len[i]); if (same) { sx_assert(r[i] == r[j], "equal strings are interned once"); sx_reach("same"); } else { sx_assert(r[i] != r[j], "different strings are kept apart"); sx_reach("diff"); } }
    }
    freeStrPool(&S); freeMemPool(&P); sx_reach("end");
}
#elif defined(FORM)
void sx_harness(void) {
    MemPool P = newMemPool(); StrPool S = newStrPool(&P);
    switch (sx_choice(5, "op")) {
    case 0: { char a[4] = {0}, b[4] = {0}, c[8]; size_t n = sx_choice(4, "n"), m = sx_choice(4, "m"); for (size_t i = 0; i < n; i++) { a[i] = sx_u8("a"); sx_assume(a[i] != 0); } for (size_t i = 0; i < m; i++) { b[i] = sx_u8("b"); sx_assume(b[i] != 0); }
        memcpy(c, a, n); memcpy(c + n, b, m); c[n + m] = 0; const char *r = makeStringConcat(&S, a, b); sx_assert(!strcmp(r, c), "concatenation"); sx_assert(makeString(&S, c) == r, "a concatenation is interned"); sx_reach("concat"); break; }
    case 1: { char a[4] = {0}, b[4] = {0}, c[10]; size_t n = sx_choice(4, "n"), m = sx_choice(4, "m"); for (size_t i = 0; i < n; i++) { a[i] = sx_u8("a"); sx_assume(a[i] != 0); } for (size_t i = 0; i < m; i++) { b[i] = sx_u8("b"); sx_assume(b[i] != 0); }
        size_t z = 0; memcpy(c, a, n); z = n; if (n && a[n - 1] != '/') c[z++] = '/'; memcpy(c + z, b, m); c[z + m] = 0; sx_assert(!strcmp(joinPath(&S, a, b), c), "path join"); sx_reach("join"); break; }
    case 2: { unsigned len = 200 + sx_choice(80, "len"); char *a = malloc(len + 1); memset(a, 'a', len); a[len] = 0; const char *r = makeStringConcat(&S, "x", a); sx_assert(strlen(r) == len + 1 && r[0] == 120 && !strcmp(r + 1, a), "long strings keep their length"); sx_reach("long"); break; }
    case 3: { int v = (int)sx_u8("v") - 128; char b[32]; sprintf(b, "n%d.%s", v, "q"); sx_assert(!strcmp(makeStringf(&S, "n%d.%s", v, "q"), b), "formatted strings"); sx_reach("fmt"); break; }
    case 4: { const char *r[6]; unsigned k = sx_choice(2, "null"); for (int i = 0; i < 6; i++) { r[i] = makeAnonymousVariable(&S, k ? 0 : i & 1 ? "b" : "a"); const char *pre = k ? "cxy_anonymous_var" : i & 1 ? "b" : "a"; size_t pl = strlen(pre); sx_assert(!strncmp(r[i], pre, pl) && strlen(r[i]) > pl, "an anonymous name starts with its prefix"); for (const char *s = r[i] + pl; *s; s++) sx_assert(*s >= '0' && *s <= '9', "an anonymous name ends in digits"); for (int j = 0; j < i; j++) sx_assert(r[i] != r[j], "anonymous names are unique"); } sx_reach("anon"); break; }
    }
}
#endif
