// Sets up a compiler driver of the tree, as driver/main.c does.
#include "sx.h"
#include <string.h>
#include <stdlib.h>
#include "driver/driver.h"
#include "lang/frontend/lexer.h"
#include "lang/frontend/parser.h"
#include "lang/frontend/ast.h"
#include "lang/frontend/ttable.h"
#include "lang/frontend/strings.h"
static CompilerDriver cc; static Log ccLog; static MemPool ccPool; static StrPool ccStrings;
uint32_t sx_hash0(uint32_t h, const void *p, size_t n) { return 12345; }
static inline void ccInit(bool builtins) {
    static char *av[2] = {(char *)"cxy", 0};
    ccLog = newLog(NULL, NULL); ccPool = newMemPool(); ccStrings = newStrPool(&ccPool);
    cc.options.cmd = builtins ? cmdBuild : cmdDev; cc.options.withoutBuiltins = !builtins;
    initCompilerDriver(&cc, &ccPool, &ccStrings, &ccLog, 1, av);
}
// the least a parser needs: no builtins, no backend
static inline void ccInitParser(void) {
    ccLog = newLog(NULL, NULL); ccPool = newMemPool(); ccStrings = newStrPool(&ccPool);
    cc.options.cmd = cmdDev; cc.options.withoutBuiltins = true;
    cc.pool = &ccPool; cc.strings = &ccStrings; cc.L = &ccLog;
    cc.types = newTypeTable(cc.pool, cc.strings);
    internCommonStrings(cc.strings);
}
static inline AstNode *ccParse(const char *src, size_t n) {
    Lexer lx = newLexer("t.cxy", src, n, &ccLog);
    Parser P = makeParser(&lx, &cc, false);
    return parseProgram(&P);
}
static inline AstNode *ccParseExpr(const char *src, size_t n) {
    Lexer lx = newLexer("t.cxy", src, n, &ccLog);
    Parser P = makeParser(&lx, &cc, false);
    return parseExpression(&P);
}
