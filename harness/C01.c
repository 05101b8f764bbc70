// Totality of the lexer: every byte string of up to N bytes is tokenised without a memory error, without hanging.
#include "sx.h"
#include <string.h>
#include <stdlib.h>
#include "lang/frontend/lexer.h"
#ifndef N
#define N 3
#endif
// stands in for the byte-string hash: any function of the bytes is a correct hash
uint32_t sx_hash0(uint32_t h, const void *p, size_t n) { return 12345; }
void sx_harness(void) {
    unsigned n = N;
    char *src = malloc(n + 1);
    sx_make_symbolic(src, n, "src");
    src[n] = 0;
#ifdef ALPHA
    for (int i = 0; i < N; i++) { int ok = 0; for (const char *a = ALPHA; *a; a++) ok |= src[i] == *a; sx_assume(ok); }
#endif
    static Log L;
    L = newLog(NULL, NULL);
    Lexer lx = newLexer("t.cxy", src, n, &L);
    u32 toks = 0; size_t last = 0;
    for (;;) {
        Token t = advanceLexer(&lx);
        if (t.tag == tokEoF) break;
        toks++;
        sx_assert(toks <= n + 4, "more tokens than input bytes");
        sx_assert(t.fileLoc.begin.byteOffset >= last, "token begins before the end of the previous one");
        sx_assert(t.fileLoc.end.byteOffset >= t.fileLoc.begin.byteOffset, "token ends before it begins");
        sx_assert(t.fileLoc.end.byteOffset <= n, "token ends outside of the source");
        last = t.fileLoc.end.byteOffset;
    }
    sx_reach("eof");
}
