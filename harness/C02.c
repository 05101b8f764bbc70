// Token stream = maximal munch of the source, with exact extents, rows and columns: lexer of the tree against an
// independent reference tokenizer, on the same symbolic bytes.
#include "sx.h"
#include <string.h>
#include <stdlib.h>
#include "lang/frontend/lexer.h"
#ifndef N
#define N 3
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
uint32_t sx_hash0(uint32_t h, const void *p, size_t n) { return 12345; }
typedef struct { const char *s; int tag; } Spell;
static const Spell OPS[] = {
    {"<<=", tokShlEqual}, {">>=", tokShrEqual}, {"...", tokElipsis},
    {"..", tokDotDot}, {"==", tokEqual}, {"!=", tokNotEqual}, {"=>", tokFatArrow}, {"->", tokThinArrow}, {"<=", tokLessEqual},
    {"<<", tokShl}, {">=", tokGreaterEqual}, {">>", tokShr}, {"&&", tokLAnd}, {"||", tokLOr}, {"++", tokPlusPlus}, {"--", tokMinusMinus},
    {"+=", tokPlusEqual}, {"-=", tokMinusEqual}, {"*=", tokMultEqual}, {"/=", tokDivEqual}, {"%=", tokModEqual}, {"&=", tokBAndEqual},
    {"&.", tokBAndDot}, {"^=", tokBXorEqual}, {"|=", tokBOrEqual}, {"#{", tokSubstitutue}, {".[", tokIndexExpr}, {"#.", tokAstMacroAccess},
    {"##", tokDefine}, {"!:", tokBangColon},
    {"(", tokLParen}, {")", tokRParen}, {"[", tokLBracket}, {"]", tokRBracket}, {"{", tokLBrace}, {"}", tokRBrace}, {"@", tokAt}, {"#", tokHash},
    {"!", tokLNot}, {"~", tokBNot}, {".", tokDot}, {"?", tokQuestion}, {",", tokComma}, {":", tokColon}, {";", tokSemicolon}, {"=", tokAssign},
    {"<", tokLess}, {">", tokGreater}, {"+", tokPlus}, {"-", tokMinus}, {"*", tokMult}, {"/", tokDiv}, {"%", tokMod}, {"&", tokBAnd},
    {"^", tokBXor}, {"|", tokBOr}, {"`", tokQuote}};
static const Spell KW[] = {
    {"virtual", tokVirtual}, {"auto", tokAuto}, {"true", tokTrue}, {"false", tokFalse}, {"null", tokNull}, {"if", tokIf}, {"else", tokElse},
    {"match", tokMatch}, {"for", tokFor}, {"in", tokIn}, {"is", tokIs}, {"while", tokWhile}, {"break", tokBreak}, {"return", tokReturn},
    {"yield", tokYield}, {"continue", tokContinue}, {"func", tokFunc}, {"var", tokVar}, {"const", tokConst}, {"type", tokType}, {"native", tokNative},
    {"extern", tokExtern}, {"exception", tokException}, {"struct", tokStruct}, {"enum", tokEnum}, {"pub", tokPub}, {"opaque", tokOpaque},
    {"catch", tokCatch}, {"raise", tokRaise}, {"async", tokAsync}, {"launch", tokLaunch}, {"ptrof", tokPtrof}, {"await", tokAwait},
    {"delete", tokDelete}, {"discard", tokDiscard}, {"switch", tokSwitch}, {"case", tokCase}, {"default", tokDefault}, {"defer", tokDefer},
    {"macro", tokMacro}, {"void", tokVoid}, {"string", tokString}, {"range", tokRange}, {"module", tokModule}, {"import", tokImport},
    {"include", tokInclude}, {"cDefine", tokCDefine}, {"cInclude", tokCInclude}, {"cSources", tokCSources}, {"as", tokAs}, {"asm", tokAsm},
    {"from", tokFrom}, {"unsafe", tokUnsafe}, {"interface", tokInterface}, {"this", tokThis}, {"This", tokThisClass}, {"super", tokSuper},
    {"class", tokClass}, {"defined", tokDefined}, {"test", tokTest}, {"__cc", tokCBuild},
    {"bool", tokBool}, {"char", tokCChar}, {"wchar", tokChar}, {"i8", tokI8}, {"i16", tokI16}, {"i32", tokI32}, {"i64", tokI64},
    {"u8", tokU8}, {"u16", tokU16}, {"u32", tokU32}, {"u64", tokU64}, {"f32", tokF32}, {"f64", tokF64}};
static int isid0(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
static int isdig(unsigned char c) { return c >= '0' && c <= '9'; }
static int issp(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
static const unsigned char *S; static size_t LEN;
static int at(size_t i) { return i < LEN ? S[i] : -1; }
// returns 0 when the reference makes no claim from here on; otherwise tag (EoF included) and extent
static int ref(size_t *pos, size_t *b, size_t *e, int *tag) {
    size_t i = *pos;
    for (;;) {
        while (i < LEN && issp(S[i])) i++;
        if (at(i) == '/' && at(i + 1) == '/') { while (i < LEN && S[i] != '\n') i++; continue; }
        if (at(i) == '/' && at(i + 1) == '*') {
            int nest = 1; i += 2;
            while (nest && i < LEN) {
                if (S[i] == '/' ) { i++; if (at(i) == '*') { i++; nest++; } }
                else if (S[i] == '*') { i++; if (at(i) == '/') { i++; nest--; } }
                else i++;
            }
            if (nest) return 0;
            continue;
        }
        break;
    }
    *b = i;
    if (i >= LEN) { *tag = tokEoF; *e = i; *pos = i; return 1; }
    unsigned char c = S[i];
    if (c == 'f' && at(i + 1) == '"') return 0;
    if (isid0(c)) {
        size_t j = i + 1; while (j < LEN && (isid0(S[j]) || isdig(S[j]))) j++;
        *tag = tokIdent;
        for (size_t k = 0; k < sizeof KW / sizeof *KW; k++) if (strlen(KW[k].s) == j - i && memcmp(KW[k].s, S + i, j - i) == 0) { *tag = KW[k].tag; break; }
        *e = *pos = j; return 1;
    }
    if (isdig(c)) {
        size_t j = i + 1; int base = 10;
        if (c == '0' && (at(j) == 'x' || at(j) == 'b' || at(j) == 'o')) return 0; // C03
        while (j < LEN && isdig(S[j])) j++;
        if (at(j) == '.') return 0; // float or member access: not modelled
        *tag = tokIntLiteral; *e = *pos = j; return 1;
    }
    if (c == '"') {
        if (at(i + 1) == '"' && at(i + 2) == '"') return 0;
        size_t j = i + 1;
        while (j < LEN && S[j] != '"') { if (S[j] == '\n') return 0; if (S[j] == '\\') j++; j++; }
        if (j >= LEN) return 0;
        *tag = tokStringLiteral; *e = *pos = j + 1; return 1;
    }
    if (c == '\'') return 0; // C03
    for (size_t k = 0; k < sizeof OPS / sizeof *OPS; k++) {
        size_t n = strlen(OPS[k].s);
        if (i + n <= LEN && memcmp(OPS[k].s, S + i, n) == 0) { *tag = OPS[k].tag; *e = *pos = i + n; return 1; }
    }
    return 0;
}
static void posOf(size_t off, u32 *row, u32 *col) { u32 r = 1, c = 1; for (size_t i = 0; i < off; i++) { if (S[i] == '\n') { r++; c = 1; } else c++; } *row = r; *col = c; }
#ifdef KWREAL
void sx_harness(void) {
    unsigned k = sx_choice(sizeof KW / sizeof *KW, "kw");
    char *src = malloc(32); strcpy(src, KW[k].s); size_t n = strlen(src); Log L = newLog(NULL, NULL);
    { Lexer lx = newLexer("t.cxy", src, n, &L); Token t = advanceLexer(&lx); sx_assert((int)t.tag == KW[k].tag, "keyword not recognised"); sx_assert(advanceLexer(&lx).tag == tokEoF, "keyword is followed by another token"); sx_reach("keyword"); }
    unsigned c = sx_choice(27, "ext"); src[n] = c < 26 ? 'a' + c : '_'; src[++n] = 0;
    int want = tokIdent; for (size_t q = 0; q < sizeof KW / sizeof *KW; q++) if (!strcmp(KW[q].s, src)) want = KW[q].tag;
    Lexer lx = newLexer("t.cxy", src, n, &L); sx_assert((int)advanceLexer(&lx).tag == want, "identifier that extends a keyword");
}
#elif defined(INCLUDES)
// sources pushed on top of the current one (include): the tokens of the included text come first, then the rest
static char *F[3]; static size_t FN[3];
static const char *NAME[3] = {"t.cxy", "one.cxy", "two.cxy"};
char *sx_readFile(const char *name, size_t *size) { int k = name[0] == 'o' ? 1 : 2; *size = FN[k]; return F[k]; }
#if __has_feature(address_sanitizer)
char *readFile(const char *name, size_t *size) { return sx_readFile(name, size); }
#endif
void sx_harness(void) {
    static const int MAX[3] = {INCLUDES};
    for (int k = 0; k < 3; k++) {
        FN[k] = k ? sx_choice(MAX[k] + 1, NAME[k]) : MAX[k] + 1;
        F[k] = malloc(FN[k] + 1); sx_make_symbolic(F[k], FN[k], NAME[k]); F[k][FN[k]] = 0;
        if (!k) F[k][0] = 'x';
#ifdef ALPHA
        for (size_t i = !k; i < FN[k]; i++) { int ok = 0; for (const char *a = ALPHA; *a; a++) ok |= F[k][i] == *a; sx_assume(ok); }
#endif
    }
    // the outer source starts with an identifier, after which both sources are included
    sx_assume(!(isid0(F[0][1]) | isdig(F[0][1])));
    Log L = newLog(NULL, NULL);
    Lexer lx = newLexer(NAME[0], F[0], FN[0], &L);
    Token t = advanceLexer(&lx);
    sx_assert(t.tag == tokIdent, "the token before an include");
    lexerPush(&lx, NAME[1]); lexerPush(&lx, NAME[2]);
    for (int k = 2; k >= 0; k--) {
        size_t pos = k ? 0 : 1, b = 0, e = 0; int tag = 0; u32 r, c;
        S = (unsigned char *)F[k]; LEN = FN[k];
        for (;;) {
            if (!ref(&pos, &b, &e, &tag)) { sx_reach("unmodelled"); return; }
            if (tag == tokEoF && k) break;
            t = advanceLexer(&lx);
            sx_assert((int)t.tag == tag, "token kind around an included source");
            posOf(b, &r, &c);
            sx_assert(t.fileLoc.begin.byteOffset == b && t.fileLoc.begin.row == r && t.fileLoc.begin.col == c, "token around an included source begins at the wrong place");
            if (tag == tokEoF) break;
            posOf(e, &r, &c);
            sx_assert(t.fileLoc.end.byteOffset == e && t.fileLoc.end.row == r && t.fileLoc.end.col == c, "token around an included source ends at the wrong place");
            sx_assert(strcmp(t.fileLoc.fileName, NAME[k]) == 0, "token is attributed to the wrong source");
            sx_assert(t.buffer->fileData == F[k], "token refers to the text of the wrong source");
            sx_reach(k ? "included" : "outer");
        }
    }
    sx_reach("eof");
    freeLexer(&lx);
}
#else
void sx_harness(void) {
    size_t np = strlen(PRE), nq = strlen(POST), n = np + N + nq;
    char *src = malloc(n + 1);
    memcpy(src, PRE, np); sx_make_symbolic(src + np, N, "src"); memcpy(src + np + N, POST, nq); src[n] = 0;
#ifdef ALPHA
    for (int i = 0; i < N; i++) { int ok = 0; for (const char *a = ALPHA; *a; a++) ok |= src[np + i] == *a; sx_assume(ok); }
#endif
#ifdef IDENT
    for (int i = 0; i < N; i++) { unsigned char c = src[np + i]; if (!i) sx_assume((c < 48) | (c > 57)); sx_assume(((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '_')); }
#endif
    Log L = newLog(NULL, NULL);
    Lexer lx = newLexer("t.cxy", src, n, &L);
    S = (unsigned char *)src; LEN = n;
    size_t pos = 0, b = 0, e = 0; int tag = 0;
    for (int k = 0; k <= (int)n; k++) {
        Token t = advanceLexer(&lx);
        if (!ref(&pos, &b, &e, &tag)) { sx_reach("unmodelled"); return; }
        sx_assert((int)t.tag == tag, "token kind differs from the longest match");
        u32 r, c;
        posOf(b, &r, &c);
        sx_assert(t.fileLoc.begin.byteOffset == b, "token begins at the wrong byte");
        sx_assert(t.fileLoc.begin.row == r && t.fileLoc.begin.col == c, "wrong row or column at the beginning of a token");
        if (tag == tokEoF) { sx_reach("eof"); break; }
        posOf(e, &r, &c);
        sx_assert(t.fileLoc.end.byteOffset == e, "token ends at the wrong byte");
        sx_assert(t.fileLoc.end.row == r && t.fileLoc.end.col == c, "wrong row or column at the end of a token");
        if (tag >= tokVirtual && tag < tokIdent) sx_reach("keyword");
    }
}
#endif
