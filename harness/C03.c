// The value of a literal token / node is the value its spelling denotes.
#include "cc.h"
static unsigned dig(int c) { unsigned d = 99; d = (unsigned)sx_ite((unsigned)c - '0' < 10, (unsigned)c - '0', d); d = (unsigned)sx_ite(((unsigned)c | 32) - 'a' < 26, ((unsigned)c | 32) - 'a' + 10, d); return d; }
static Token lex1(const char *s, size_t n, Token *next) {
    static Log L; L = newLog(NULL, NULL); Lexer lx = newLexer("t.cxy", s, n, &L); Token t = advanceLexer(&lx); *next = advanceLexer(&lx); return t; }
#if defined(INT) // base BASE, K digits, then a terminator
void sx_harness(void) {
    const char *pre = BASE == 16 ? "0x" : BASE == 8 ? "0o" : BASE == 2 ? "0b" : ""; size_t np = strlen(pre);
    char *s = malloc(np + K + 2); memcpy(s, pre, np); 
    // long spellings: the leading digits are fixed, the last SYM are arbitrary
    const char *lead = K > SYM ? BASE == 10 ? K == 20 ? "184467440737" : "98765432109876543" : BASE == 2 ? "1011001110001111000011111000001111110000001111111000000011111111" : BASE == 8 ? "1234567012345670123456" : "fEdCbA9876543210" : "";
    unsigned nl = K > SYM ? K - SYM : 0; memcpy(s + np, lead, nl); sx_make_symbolic(s + np + nl, K - nl, "digits");
    uint64_t v = 0; int ok = 1;
    for (int i = 0; i < K; i++) { unsigned c = (unsigned char)s[np + i]; unsigned d = dig(c); ok &= d < BASE; v = v * BASE + d; }
    if (BASE == 10 && K == 20) ok &= v >= 18446744073700000000ull; // within 64 bits
    sx_assume(ok);
    unsigned t = sx_choice(4, "end"); size_t n = np + K; if (t < 3) s[n++] = " ;,"[t]; s[n] = 0;
    Token nx; Token k = lex1(s, n, &nx);
    sx_assert(k.tag == tokIntLiteral, "an integer spelling is one integer token");
    sx_assert(k.fileLoc.begin.byteOffset == 0 && k.fileLoc.end.byteOffset == np + K, "extent of an integer token");
    sx_assert(k.iVal == v, "value of an integer token");
    sx_assert((int)nx.tag == (t == 3 || t == 0 ? tokEoF : t == 1 ? tokSemicolon : tokComma), "token after an integer");
    sx_reach("int");
}
#elif defined(CHR)
static const char ESC[] = "ntvrab$\"'\\", ESV[] = "\n\t\v\r\a\b$\"'\\";
void sx_harness(void) {
    char s[16]; size_t n = 0; uint32_t want = 0; int ok = 1; s[n++] = '\'';
    switch (sx_choice(7, "form")) {
    case 0: { unsigned char c = sx_u8("c"); sx_assume(c < 0x80 && c != '\'' && c != '\\' && c != '\n'); s[n++] = c; want = c; break; }
    case 1: { unsigned char c = sx_u8("esc"); sx_assume(c != '\n'); s[n++] = '\\'; s[n++] = c; ok = 0; for (int i = 0; ESC[i]; i++) if (c == (unsigned char)ESC[i]) { ok = 1; want = (unsigned char)ESV[i]; } if (c >= '0' && c <= '7') { ok = 1; want = c - '0'; } break; }
    case 2: { unsigned k = 1 + sx_choice(2, "hexdigits"); s[n++] = '\\'; s[n++] = 'x'; for (unsigned i = 0; i < k; i++) { unsigned char c = sx_u8("h"); unsigned d = dig(c); sx_assume(d < 16); s[n++] = c; want = want * 16 + d; } break; }
    case 3: { s[n++] = '\\'; for (unsigned i = 0; i < 3; i++) { unsigned char c = sx_u8("o"); sx_assume((c >= '0') & (c <= '7')); s[n++] = c; want = want * 8 + (c - '0'); } ok = want <= 255; break; }
    case 4: case 5: case 6: { // UTF-8 sequences of 2..4 bytes, well formed or not
        unsigned k = 2 + sx_choice(3, "len"); unsigned char b[4]; for (unsigned i = 0; i < k; i++) { b[i] = sx_u8("b"); if (!i) sx_assume(b[i] >= 0x80); else sx_assume((b[i] != '\'') & (b[i] != '\n') & (b[i] != '\\')); s[n++] = b[i]; }
        ok = k == 2 ? (b[0] & 0xE0) == 0xC0 : k == 3 ? (b[0] & 0xF0) == 0xE0 : (b[0] & 0xF8) == 0xF0;
        for (unsigned i = 1; i < k; i++) ok &= (b[i] & 0xC0) == 0x80;
        want = b[0] & (0x7F >> k); for (unsigned i = 1; i < k; i++) want = want << 6 | (b[i] & 0x3F); sx_reach("utf8"); break; }
    }
    s[n++] = '\''; s[n] = 0; unsigned tail = sx_choice(2, "tail"); if (tail) { s[n++] = ';'; s[n] = 0; }
    char *h = malloc(n + 1); memcpy(h, s, n + 1);
    Token nx; Token k = lex1(h, n, &nx);
    if (ok) { sx_assert(k.tag == tokCharLiteral, "a valid character literal is rejected"); sx_assert(k.cVal == want, "value of a character literal"); sx_assert((int)nx.tag == (tail ? tokSemicolon : tokEoF), "token after a character literal"); sx_reach("char"); }
    else { sx_assert(k.tag == tokError, "an invalid character literal is accepted"); sx_reach("bad"); }
}
#elif defined(STR) // string literal node: K raw source bytes
void sx_harness(void) {
    unsigned char *s = malloc(K + 3), want[K + 1]; s[0] = '"'; sx_make_symbolic(s + 1, K, "text"); s[K + 1] = '"'; s[K + 2] = 0;
    for (int i = 1; i <= K; i++) sx_assume((s[i] != '\n') & (s[i] != '"' || i > 1 && s[i - 1] == '\\'));
#ifdef FULL
#else
    for (int i = 1; i <= K; i++) { int in = 0; for (const char *a = "\\n\"x041a'\xc3"; *a; a++) in |= s[i] == (unsigned char)*a; sx_assume(in); }
#endif
    size_t n = 0; int nul = 0;
    for (int i = 1; i <= K; i++) {
        if (s[i] == '"') return; // closes the literal early
        if (s[i] != '\\') { want[n++] = s[i]; nul |= !s[i]; continue; }
        if (++i > K) { sx_reach("unclosed"); return; } // the backslash escapes the closing quote
        unsigned c = s[i]; int j;
        static const char E[] = "ntvrab$\"'\\", V[] = "\n\t\v\r\a\b$\"'\\";
        for (j = 0; E[j]; j++) if (c == (unsigned char)E[j]) break;
        if (E[j]) { want[n++] = V[j]; continue; }
        if (c == 'x' && i < K && dig(s[i + 1]) < 16) { unsigned v = 0, k = 0; while (k < 2 && i < K && dig(s[i + 1]) < 16) { v = v * 16 + dig(s[++i]); k++; } want[n++] = v; nul |= !v; sx_reach("hex"); continue; }
        if (c >= '0' && c <= '7') { unsigned v = c - '0', k = 1; while (k < 3 && i < K && s[i + 1] >= '0' && s[i + 1] <= '7') { v = v * 8 + s[++i] - '0'; k++; } want[n++] = v; nul |= !(v & 255); sx_reach("octal"); continue; }
        want[n++] = '\\'; i--; if (i + 1 <= K) { want[n++] = s[++i]; nul |= !s[i]; } // an unknown escape keeps its backslash
    }
    want[n] = 0;
    if (K >= 1 && s[1] == '"') return;
    if (nul) { sx_reach("nul"); return; }
    ccInitParser();
    AstNode *e = ccParseExpr((char *)s, K + 2);
    sx_assert(e && e->tag == astStringLit, "a string literal is a string node");
    for (size_t i = 0; i <= n; i++) sx_assert((unsigned char)e->stringLiteral.value[i] == want[i], "content of a string literal");
    sx_reach("string");
}
#endif
