// Expression trees have the shape the precedence table says: all sequences of binary operators, unary and postfix operators.
#include "cc.h"
typedef struct { const char *s; int prec; Operator op; } Op;
// loosest binding last; equal numbers associate to the left
static const Op OPS[] = {{"*", 1, opMul}, {"/", 1, opDiv}, {"%", 1, opMod}, {"+", 2, opAdd}, {"-", 2, opSub}, {"<<", 3, opShl}, {">>", 3, opShr}, {"<", 4, opLt}, {">", 4, opGt}, {"<=", 4, opLeq}, {">=", 4, opGeq}, {"==", 5, opEq}, {"!=", 5, opNe}, {"&", 6, opBAnd}, {"^", 7, opBXor}, {"|", 8, opBOr}, {"&&", 10, opLAnd}, {"||", 11, opLOr}, {"..", 12, opRange}};
#define NOPS (sizeof OPS / sizeof *OPS)
typedef struct R { int leaf, op; struct R *l, *r; } R;
static R nodes[32]; static int nn; static int ops[8], nops, pos;
static R *leaf(int i) { R *r = &nodes[nn++]; r->leaf = i; r->op = -1; return r; }
static R *climb(int limit) { R *l = leaf(pos); while (pos < nops && OPS[ops[pos]].prec <= limit) { int o = ops[pos++]; R *r = climb(OPS[o].prec - 1); R *n = &nodes[nn++]; n->op = o; n->l = l; n->r = r; l = n; } return l; }
static const char *name(AstNode *e) { return e->tag == astPath ? e->path.elements->pathElement.name : e->tag == astIdentifier ? e->ident.value : "?"; }
static void same(R *r, AstNode *e) {
    sx_assert(e != 0, "an expression has all its operands");
    if (r->op < 0) { const char *n = name(e); sx_assert(n[0] == 'a' + r->leaf && n[1] == 0, "operands keep their order"); return; }
    sx_assert(e->tag == astBinaryExpr, "an operator that should bind here does not"); sx_assert(e->binaryExpr.op == OPS[r->op].op, "the operator that binds last is the one of lowest precedence");
    same(r->l, e->binaryExpr.lhs); same(r->r, e->binaryExpr.rhs); }
#if defined(BIN)
void sx_harness(void) {
    char src[64]; size_t n = 0; nops = NB; src[n++] = 'a';
    for (int i = 0; i < NB; i++) { ops[i] = sx_choice(NOPS, "op"); src[n++] = ' '; for (const char *s = OPS[ops[i]].s; *s; s++) src[n++] = *s; src[n++] = ' '; src[n++] = 'b' + i; }
    src[n] = 0; ccInitParser(); R *r = climb(99); AstNode *e = ccParseExpr(src, n);
    sx_assert(pos == nops, "reference"); same(r, e); sx_assert(ccLog.errorCount == 0, "a well-formed expression has no diagnostics"); sx_reach("end");
}
#elif defined(MIX)
static Operator UN[] = {opMinus, opPlus, opNot, opCompl, opDeref, opPreInc, opPreDec}; static const char *UNS[] = {"-", "+", "!", "~", "*", "++", "--"};
static const struct { const char *s; Operator op; } AS[] = {{"=", opAssign}, {"+=", opAdd}, {"-=", opSub}, {"*=", opMul}, {"/=", opDiv}, {"%=", opMod}, {"&=", opBAnd}, {"|=", opBOr}, {"^=", opBXor}, {"<<=", opShl}, {">>=", opShr}};
static int is(AstNode *e, char c) { const char *n = name(e); return n[0] == c && !n[1]; }
void sx_harness(void) {
    char s[96]; ccInitParser(); AstNode *e; int o = sx_choice(NOPS - 1, "op"), u = sx_choice(7, "un"), k = sx_choice(11, "assign"); Operator B = OPS[o].op;
    switch (sx_choice(11, "form")) {
    case 0: sprintf(s, "%s a %s b", UNS[u], OPS[o].s); e = ccParseExpr(s, strlen(s)); sx_assert(e->tag == astBinaryExpr && e->binaryExpr.op == B && e->binaryExpr.lhs->tag == astUnaryExpr && e->binaryExpr.lhs->unaryExpr.op == UN[u] && is(e->binaryExpr.lhs->unaryExpr.operand, 'a') && is(e->binaryExpr.rhs, 'b'), "a prefix operator binds tighter than a binary one"); break;
    case 1: sprintf(s, "a %s %s b", OPS[o].s, UNS[u]); e = ccParseExpr(s, strlen(s)); sx_assert(e->tag == astBinaryExpr && e->binaryExpr.op == B && is(e->binaryExpr.lhs, 'a') && e->binaryExpr.rhs->tag == astUnaryExpr && e->binaryExpr.rhs->unaryExpr.op == UN[u], "a prefix operator after a binary one"); break;
    case 2: sprintf(s, "%s a++ %s b.c", UNS[u], OPS[o].s); e = ccParseExpr(s, strlen(s)); sx_assert(e->tag == astBinaryExpr && e->binaryExpr.lhs->tag == astUnaryExpr && e->binaryExpr.lhs->unaryExpr.op == UN[u] && e->binaryExpr.lhs->unaryExpr.operand->tag == astUnaryExpr && e->binaryExpr.lhs->unaryExpr.operand->unaryExpr.op == opPostInc && !e->binaryExpr.lhs->unaryExpr.operand->unaryExpr.isPrefix, "a postfix operator binds tighter than a prefix one"); break;
    case 3: sprintf(s, "a %s b %s c", AS[k].s, OPS[o].s); e = ccParseExpr(s, strlen(s)); sx_assert(e->tag == astAssignExpr && e->assignExpr.op == AS[k].op && is(e->assignExpr.lhs, 'a') && e->assignExpr.rhs->tag == astBinaryExpr && e->assignExpr.rhs->binaryExpr.op == B, "assignment binds looser than any binary operator"); break;
    case 4: sprintf(s, "a = b %s c", AS[k].s); e = ccParseExpr(s, strlen(s)); sx_assert(e->tag == astAssignExpr && e->assignExpr.op == opAssign && e->assignExpr.rhs->tag == astAssignExpr && e->assignExpr.rhs->assignExpr.op == AS[k].op, "assignments associate to the right"); break;
    case 5: sprintf(s, "a %s b ? c : d %s e", OPS[o].s, OPS[o].s); e = ccParseExpr(s, strlen(s)); sx_assert(e->tag == astTernaryExpr && e->ternaryExpr.cond->tag == astBinaryExpr && is(e->ternaryExpr.body, 'c') && e->ternaryExpr.otherwise->tag == astBinaryExpr, "the conditional operator binds looser than any binary operator"); break;
    case 6: sprintf(s, "a ? b : c ? d : e"); e = ccParseExpr(s, strlen(s)); sx_assert(e->tag == astTernaryExpr && is(e->ternaryExpr.cond, 'a') && is(e->ternaryExpr.body, 'b') && e->ternaryExpr.otherwise->tag == astTernaryExpr && is(e->ternaryExpr.otherwise->ternaryExpr.cond, 'c'), "the conditional operator associates to the right"); break;
    case 7: sprintf(s, "a %s b ? c : d", AS[k].s); e = ccParseExpr(s, strlen(s)); sx_assert(e->tag == astAssignExpr && e->assignExpr.op == AS[k].op && e->assignExpr.rhs->tag == astTernaryExpr && is(e->assignExpr.rhs->ternaryExpr.cond, 'b'), "assignment binds looser than the conditional operator"); break;
    case 8: sprintf(s, "a %s b as i32", OPS[o].s); e = ccParseExpr(s, strlen(s)); sx_assert(e->tag == astBinaryExpr && e->binaryExpr.op == B && e->binaryExpr.rhs->tag == astCastExpr && is(e->binaryExpr.rhs->castExpr.expr, 'b'), "a postfix cast binds tighter than a binary operator"); break;
    case 9: sprintf(s, "a %s (b %s c)", OPS[o].s, OPS[o].s); e = ccParseExpr(s, strlen(s)); sx_assert(e->tag == astBinaryExpr && is(e->binaryExpr.lhs, 'a') && (e->binaryExpr.rhs->tag == astGroupExpr ? e->binaryExpr.rhs->groupExpr.expr->tag == astBinaryExpr : e->binaryExpr.rhs->tag == astBinaryExpr), "parentheses group"); break;
    case 10: sprintf(s, "a.f(b).[c] %s d", OPS[o].s); e = ccParseExpr(s, strlen(s)); sx_assert(e->tag == astBinaryExpr && e->binaryExpr.lhs->tag == astIndexExpr && e->binaryExpr.lhs->indexExpr.target->tag == astCallExpr && is(e->binaryExpr.rhs, 'd'), "member, call and index bind tightest, left to right"); break;
    }
    sx_assert(ccLog.errorCount == 0, "a well-formed expression has no diagnostics"); sx_reach("end");
}
#endif
