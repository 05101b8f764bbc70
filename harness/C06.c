// Text and array building blocks of the compiler.
#include "sx.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include "core/array.h"
#include "core/sb.h"
#include "core/format.h"
#include "core/utils.h"
typedef struct { uint32_t a, b, c; } Tri;
static size_t utf8(uint32_t c, unsigned char *o) {
    if (c < 0x80) { o[0] = c; return 1; } if (c < 0x800) { o[0] = 0xC0 | c >> 6; o[1] = 0x80 | (c & 63); return 2; }
    if (c < 0x10000) { o[0] = 0xE0 | c >> 12; o[1] = 0x80 | (c >> 6 & 63); o[2] = 0x80 | (c & 63); return 3; }
    o[0] = 0xF0 | c >> 18; o[1] = 0x80 | (c >> 12 & 63); o[2] = 0x80 | (c >> 6 & 63); o[3] = 0x80 | (c & 63); return 4; }
#if defined(ARRAY)
void sx_harness(void) {
    DynArray A; Tri m[64]; size_t n = 0; uint64_t live = sx_live_objects();
    switch (sx_choice(3, "make")) { case 0: A = newDynArray(sizeof(Tri)); break; case 1: A = newDynArrayWithSize(sizeof(Tri), 0); break; default: { Tri t[3]; sx_make_symbolic(t, sizeof t, "init"); A = newDynArrayFromDataExplicit(t, 3, sizeof(Tri)); memcpy(m, t, sizeof t); n = 3; memset(t, 0, sizeof t); } }
    DynArray B = newDynArray(sizeof(Tri));
    for (int i = 0; i < NO; i++) switch (sx_choice(4, "op")) {
        case 0: { Tri t; sx_make_symbolic(&t, sizeof t, "t"); m[n++] = t; Tri *p = pushOnDynArray(&A, &t); sx_assert(p == (Tri *)A.elems + n - 1, "push returns the pushed element"); break; }
        case 1: { Tri *p = popDynArray(&A); sx_assert((p != 0) == (n > 0), "pop yields nothing exactly when empty"); if (p) { n--; sx_assert((p->a == m[n].a) & (p->b == m[n].b) & (p->c == m[n].c), "pop yields the last element"); sx_reach("pop"); } break; }
        case 2: for (int j = 0; j < 5; j++) { Tri t = {j, i, sx_u8("x")}; m[n++] = t; pushOnDynArray(&A, &t); } break;
        case 3: { DynArray C = newDynArray(sizeof(Tri)); copyDynArray(&C, &A); sx_assert(C.size == n, "a copy has the size of its source"); for (size_t j = 0; j < n; j++) { Tri t = dynArrayAt(Tri *, &C, j); sx_assert((t.a == m[j].a) & (t.b == m[j].b) & (t.c == m[j].c), "a copy has the elements of its source"); } freeDynArray(&C); sx_reach("copy"); break; } }
    sx_assert(A.size == n && dynArrayEmpty(&A) == (n == 0), "size of an array"); size_t k = 0; dynArrayFor(e, Tri, &A) { sx_assert((e->a == m[k].a) & (e->b == m[k].b) & (e->c == m[k].c), "elements of an array in order"); k++; } sx_assert(k == n, "iteration visits every element");
    freeDynArray(&A); freeDynArray(&B); sx_assert(sx_live_objects() == live, "freeing an array frees its memory"); sx_reach("end");
}
#elif defined(SB)
void sx_harness(void) {
    StringBuilder *s = stringBuilderNew(); char m[512]; size_t n = 0;
    for (int i = 0; i < NO; i++) switch (sx_choice(5, "op")) {
        case 0: { size_t k = sx_choice(4, "len"); k = k == 3 ? 33 : k == 2 ? 31 : k; char b[40]; memset(b, 'a' + i, 40); if (k) b[k - 1] = sx_u8("c"); stringBuilderAppendCstr0(s, b, k); memcpy(m + n, b, k); n += k; break; }
        case 1: { uint32_t c = sx_u32("chr"); sx_assume(c < 0x110000); stringBuilderAppendChar(s, c); n += utf8(c, (unsigned char *)m + n); sx_reach("chr"); break; }
        case 2: { int64_t v = (int8_t)sx_u8("v"); static const int64_t base[] = {0, INT64_MIN + 128, INT64_MAX - 127}; v += base[sx_choice(3, "base")]; stringBuilderAppendInt(s, v); n += sprintf(m + n, "%lld", (long long)v); break; }
        case 3: { uint64_t v = sx_u8("u") + (sx_choice(2, "big") ? UINT64_MAX - 255 : 0); stringBuilderAppendUInt(s, v); n += sprintf(m + n, "%llu", (unsigned long long)v); break; }
        case 4: { int v = sx_choice(2, "bool"); stringBuilderAppendBool(s, v); strcpy(m + n, v ? "true" : "false"); n += v ? 4 : 5; break; } }
    sx_assert(s->size == n, "a builder's size is the number of bytes appended"); m[n] = 0;
    if (NO) { sx_assert(!memcmp(s->data, m, n) && s->data[n] == 0, "a builder holds what was appended, terminated"); char *r = stringBuilderRelease(s); sx_assert(!memcmp(r, m, n + 1), "releasing hands out the text"); sx_assert(s->size == 0 && s->data == 0, "a released builder is empty"); free(r); }
    stringBuilderAppendCstr1(s, "xy"); sx_assert(!strcmp(s->data, "xy"), "a released builder can be used again"); uint64_t live = sx_live_objects(); stringBuilderDelete(s); sx_assert(sx_live_objects() + 2 == live, "deleting a builder frees it and its text"); sx_reach("end");
}
#elif defined(FMT)
void sx_harness(void) {
    FormatState f = newFormatState("  ", true); char m[6000]; size_t n = 0; unsigned ind = 0;
    for (int i = 0; i < NO; i++) switch (sx_choice(OPS, "op")) {
        case 0: { static const size_t L[] = {0, 1, 959, 960, 1023, 1024, 1025}; size_t k = L[sx_choice(7, "len")]; char *b = malloc(k + 1); memset(b, 'a' + i, k); b[k] = 0; if (k) { b[0] = sx_u8("c"); sx_assume(b[0] != 0); b[k - 1] = b[0]; } format(&f, "<{s}>", (FormatArg[]){{.s = b}}); m[n++] = '<'; memcpy(m + n, b, k); n += k; m[n++] = '>'; free(b); sx_reach("str"); break; }
        case 1: { uint8_t v = sx_u8("v"); format(&f, "{u8},{i8},{u32}|{i64}{{", (FormatArg[]){{.u8 = v}, {.i8 = (int8_t)v}, {.u32 = 4294967040u + v}, {.i64 = -9223372036854775807ll - 1 + v}}); n += sprintf(m + n, "%u,%d,%u|%lld{", v, (int8_t)v, 4294967040u + v, -9223372036854775807ll - 1 + v); sx_reach("num"); break; }
        case 2: { uint32_t c = sx_u32("chr"); sx_assume(c < 0x110000 && c); format(&f, "{c}", (FormatArg[]){{.c = c}}); n += utf8(c, (unsigned char *)m + n); sx_reach("chr"); break; }
        case 3: { format(&f, "{>}\nq{<}\nr", 0); n += sprintf(m + n, "\n%*sq\n%*sr", 2 * (ind + 1), "", 2 * ind, ""); break; }
        case 4: { format(&f, "{>}\n", 0); ind++; n += sprintf(m + n, "\n%*s", 2 * ind, ""); break; }
        case 5: { unsigned b = sx_choice(2, "b"); format(&f, "{b}{$}{1:s}{0:b}{sl}", (FormatArg[]){{.b = b}, {.style = errorStyle}, {.s = "wxyz"}, {.len = 2}}); const char *t = b ? "true" : "false"; (void)t; n += 0; return; } }
    m[n] = 0; char *r = formatStateToString(&f); sx_assert(strlen(r) == n, "length of formatted text"); sx_assert(!memcmp(r, m, n), "formatted text"); free(r); freeFormatState(&f); sx_reach("end");
}
#elif defined(ESC)
#include "lang/frontend/lexer.h"
void sx_harness(void) { // an escaped character reads back as itself
    uint32_t c = sx_u32("c"); sx_assume(c < 0x110000); sx_assume(c != '\''); // within double quotes
    FormatState f = newFormatState("  ", true); format(&f, "'{cE}'", (FormatArg[]){{.c = c}}); char *r = formatStateToString(&f);
    static Log L; L = newLog(NULL, NULL); Lexer lx = newLexer("t.cxy", r, strlen(r), &L); Token t = advanceLexer(&lx);
    sx_assert(t.tag == tokCharLiteral && t.cVal == c, "an escaped character reads back as itself"); sx_assert(advanceLexer(&lx).tag == tokEoF, "an escaped character is one literal"); sx_reach("end");
}
#elif defined(BSEARCH)
static int cmp(const void *a, const void *b) { int x = *(const int *)a, y = *(const int *)b; return (x > y) - (x < y); }
void sx_harness(void) { unsigned n = sx_choice(8, "n"); int a[8]; for (unsigned i = 0; i < n; i++) { a[i] = sx_i32("a"); if (i) sx_assume(a[i - 1] < a[i]); } int x = sx_i32("x"), in = 0; for (unsigned i = 0; i < n; i++) in |= a[i] == x; int r = binarySearch(a, n, &x, sizeof(int), cmp); sx_assert((r >= 0) == in, "binary search finds exactly what is there"); if (r >= 0) { sx_assert(r < (int)n, "index of a found element"); sx_assert(a[r] == x, "binary search returns the element"); sx_reach("found"); } else sx_reach("absent"); }
#endif
