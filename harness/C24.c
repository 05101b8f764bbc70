// The parser is total: whatever follows whatever, it returns a tree or has reported errors; nothing escapes and nothing is left behind.
#include "cc.h"
#include "core/e4c.h"
#include "lang/frontend/defines.h"
static const char *CTX[][2] = {
 {"", ""}, {"func f() { ", " }"}, {"func f() => ", ";"}, {"var x = ", ";"}, {"var x: ", ";"}, {"class A { ", " }"}, {"struct A[T] { a: i32; ", " }"}, {"enum A { B, ", " }"}, {"interface A { ", " }"},
 {"func f(a: ", ") {}"}, {"func f(", "): i32 {}"}, {"macro m(a) = ", ";"}, {"@", " func f() {}"}, {"func f() { switch (a) { ", " } }"}, {"func f() { match (a) { ", " } }"}, {"type T = ", ";"},
 {"func f() { x = a ", " b }"}, {"func f() { if (", ") { } else 1 }"}, {"func f() { for (", ": a) {} }"}, {"var x = [", "]"}, {"var x = (", ")"}, {"var x = f\"a${", "}\";"}, {"#if (", ") { var x = 1 }"}, {"extern ", " f(): i32;"}, {"pub ", " x"}, {"func f() { asm(\"\" : ", ") }"}, {"func f() { return a", "; }"}, {"test \"t\" { ", " }"}, {"var x = A[", "](1)"}, {"func f() { var x = a{", "}; }"}, {"module ", " ; var x = 1"}, {"func f[T: ", "](a: T) {}"}, {"exception E", "=> \"a\""}, {"func f() { #for (const a: ", ") { } }"}, {"func f() { { if (a) {", " } b } c } var y = 1"},
};
#define NCTX (sizeof CTX / sizeof *CTX)
static const char *TOK[] = {"(", ")", "[", "]", "{", "}", "@", "#", "!", "~", ".", "..", "...", "?", ",", ":", ";", "=", "==", "!=", "=>", "->", "<", "<=", "<<", "<<=", ">", ">=", ">>", ">>=", "+", "-", "*", "/", "%", "&", "^", "|", "&&", "||", "++", "--", "+=", "&.", "`", "#{", ".[", "()", "[]", "[]=", "#.", "##", "!:",
 "virtual", "auto", "true", "null", "if", "else", "match", "for", "in", "is", "while", "break", "return", "yield", "continue", "func", "var", "const", "type", "native", "extern", "exception", "struct", "enum", "pub", "opaque", "catch", "raise", "async", "launch", "ptrof", "await", "delete", "discard", "switch", "case", "default", "defer", "macro", "void", "string", "range", "module", "cDefine", "cInclude", "cSources", "as", "asm", "from", "unsafe", "interface", "this", "This", "super", "class", "defined", "test", "__cc", "u8", "x", "7", "1.5", "'c'", "\"s\"", "sizeof!", "f\"a\"", "`(", ")`", "static", "a.b", "T[x]"};
#define NTOK (sizeof TOK / sizeof *TOK)
static char src[512]; static size_t len;
static void add(const char *s) { while (*s) src[len++] = *s++; }
static AstNode *tree; static bool escaped, returned;
static void go(void) {
    ccInitParser(); initCompilerPreprocessor(&cc); src[len] = 0;
    E4C_TRY_BLOCK({ tree = ccParse(src, len); returned = true; } E4C_CATCH(RuntimeException) { escaped = true; })
    sx_assert(!escaped, "no exception escapes the parser"); sx_assert(returned, "the parser returns");
    sx_assert(e4c.frames == 0, "the parser releases every exception frame");
    sx_assert(tree != NULL || ccLog.errorCount > 0, "a program without a tree has diagnostics");
    if (ccLog.errorCount) sx_reach("diagnosed"); else sx_reach("accepted");
    sx_reach("end");
}
#if defined(NEST)
static const char *OPEN[] = {"{ ", "if (a) { ", "while (a) { ", "for (const i: 0..3) { if (i) {", "x = (1 + ", "x = [2, ", "x = f(3, ", "x = () => { ", "switch (a) { case 1 => { ", "x = -", "x = a ? b : ", "{ { { "}, *CLOSE[] = {"} ", "} ", "} ", "} } ", ")", "]", ")", "}", "} } ", "", "", "} } } "};
static const int INNER[] = {0, 0, 0, 0, 1, 1, 1, 0, 0, 1, 1, 0};
void sx_harness(void) {
    int k = sx_choice(12, "kind"), d = sx_choice(DEPTH, "depth"); static char big[8192]; size_t n = 0;
#define ADD(s) do { const char *q = s; while (*q) big[n++] = *q++; } while (0)
    ADD("func f() { "); for (int i = 0; i < d; i++) { const char *o = OPEN[k]; if (INNER[k] && i) o += 4; ADD(o); } ADD(INNER[k] ? (d ? "5" : "x = 5") : "x = 5;"); for (int i = 0; i < d; i++) ADD(CLOSE[k]); ADD(" }\nvar y = 1;\n");
    ccInitParser(); AstNode *p = 0;
    E4C_TRY_BLOCK({ p = ccParse(big, n); } E4C_CATCH(RuntimeException) { escaped = true; })
    sx_assert(!escaped, "no exception escapes the parser"); sx_assert(e4c.frames == 0, "the parser releases every exception frame");
    sx_assert(ccLog.errorCount == 0, "nesting is no error"); sx_assert(p && p->program.decls && p->program.decls->next && !p->program.decls->next->next, "a nested program keeps its declarations"); sx_reach("end");
}
#elif defined(RECOVER)
// errors in some functions do not hide the ones in others
static const char *BAD[] = {"func f() { var 5 }\n", "func f() { if ( }\n", "var = 3;\n", "func f() { x = }\n", "class A { 7 }\n", "func f() { { { var } } }\n"}, *GOOD = "func g() { return 1 }\n";
void sx_harness(void) {
    static const int NS[] = {0, 1, 2, 3, 17, 40}; int n = NS[sx_choice(6, "n")]; static char big[4096]; size_t l = 0; int bad = 0;
    for (int i = 0; i < n; i++) { int k = sx_choice(i < 3 ? 7 : 1, "part"); const char *s = k < 6 ? BAD[k] : GOOD; bad += k < 6; while (*s) big[l++] = *s++; }
    ccInitParser(); AstNode *p = 0;
    E4C_TRY_BLOCK({ p = ccParse(big, l); } E4C_CATCH(RuntimeException) { escaped = true; })
    sx_assert(!escaped, "no exception escapes the parser"); sx_assert(e4c.frames == 0, "the parser releases every exception frame");
    sx_assert((ccLog.errorCount > 0) == (bad > 0), "a program has diagnostics exactly when it has errors"); sx_reach("end");
}
#elif defined(BYTES)
void sx_harness(void) {
    int c = sx_choice(NCTX, "context"); add(CTX[c][0]); for (int i = 0; i < BYTES; i++) src[len++] = sx_u8("byte"); add(CTX[c][1]); go();
}
#else
void sx_harness(void) {
    int c = sx_choice(NCTX, "context"); add(CTX[c][0]);
    for (int i = 0; i < TOKENS; i++) { add(TOK[i % STRIDE0 ? sx_choice((NTOK + STRIDE - 1) / STRIDE, "token") * STRIDE : sx_choice(NTOK, "token")]); add(" "); }
    add(CTX[c][1]); go();
}
#endif
