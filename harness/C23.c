// A constant expression of literals is folded to the exact value, by the preprocessor (ordinary code) and by the compile-time evaluator.
#include "cc.h"
#include "lang/middle/eval/eval.h"
#include "lang/middle/preprocess/preprocessor.h"
#include "lang/frontend/visitor.h"
typedef __int128 I;
static I operand(AstNode *n, int kind, uint64_t v) {
    memset(n, 0, sizeof *n); n->loc = *builtinLoc();
    switch (kind) {
    case 0: n->tag = astIntegerLit; n->intLiteral.uValue = v; return (I)v;
    case 1: n->tag = astIntegerLit; n->intLiteral.value = (int64_t)v; n->intLiteral.isNegative = true; return (I)(int64_t)v;
    case 2: n->tag = astCharLit; n->charLiteral.value = v; return (I)v;
    default: n->tag = astBoolLit; n->boolLiteral.value = v; return (I)v;
    }
}
static uint64_t value(int kind, const char *name) {
    switch (kind) {
    case 0: return sx_u64(name);
    case 1: { uint64_t v = sx_u64(name); sx_assume(v >> 63); return v; }
    case 2: { uint64_t v = sx_u32(name); sx_assume(v < 0x110000); return v; }
    default: return sx_choice(2, name);
    }
}
static const uint64_t CONST[] = {0, 1, 2, 3, 7, 10, 63, 64, 255, 65537, 1u << 31, 1ull << 32, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 10000000000000000000ull};
#define NC (sizeof CONST / sizeof *CONST)
// the tree converts the operands of logical operators to floating point: one of a list of values each
static uint64_t listed(int kind, const char *name) { uint64_t v = CONST[sx_choice(kind == 3 ? 2 : kind == 2 ? 10 : NC, name)]; if (kind == 1) { if (v - 1 >= 1ull << 63) v = 1; v = -v; } return v; }
static EvalContext ec; static AstVisitor ev, ty; static PreprocessorContext pp;
static void evalBin(AstNode *n, int which) { if (which) evalBinaryExpr(&ev, n); else preprocessorEvalBinaryExpr(&pp, n); }
static void evalUn(AstNode *n, int which) { if (which) evalUnaryExpr(&ev, n); else preprocessorEvalUnaryExpr(&pp, n); }
static void skip(AstVisitor *v, AstNode *n) {}
static void setup(void) {
    ccInitParser(); pp.L = &ccLog; pp.pool = cc.pool; pp.strings = cc.strings; ec.L = &ccLog; ec.pool = cc.pool; ec.strings = cc.strings; ec.types = cc.types;
    ty = (AstVisitor){.context = &ec, .fallback = astVisitSkip}; ec.typer = &ty; initEvalVisitor(&ev, &ec);
}
// the value of an integral result, or fails
static void exactly(AstNode *n, I want, const char *what) {
    if (n->tag == astIntegerLit) {
        if (want < -((I)1 << 63) || want >= ((I)1 << 64)) return; // no literal has this value
        if (want < 0) { sx_assert(n->intLiteral.isNegative, what); sx_assert((I)n->intLiteral.value == want, what); }
        else { sx_assert(!n->intLiteral.isNegative, what); sx_assert((I)n->intLiteral.uValue == want, what); }
        sx_reach("integer");
    } else if (n->tag == astCharLit) { sx_assert((uint32_t)n->charLiteral.value == (uint32_t)want, what); sx_reach("char"); }
    else sx_assert(0, "a constant integer expression folds to a literal");
}
static void truth(AstNode *n, int want, const char *what) { sx_assert(n->tag == astBoolLit, what); sx_assert(!n->boolLiteral.value == !want, what); sx_reach("bool"); }
void sx_harness(void) {
    setup(); AstNode *n = makeAstNode(cc.pool, builtinLoc(), &(AstNode){.tag = astBinaryExpr}), *l = makeAstNode(cc.pool, builtinLoc(), &(AstNode){.tag = astIntegerLit}), *r = makeAstNode(cc.pool, builtinLoc(), &(AstNode){.tag = astIntegerLit});
    int which = sx_choice(2, "evaluator"), lk = sx_choice(4, "left"), rk = sx_choice(4, "right"); size_t errs = 0;
#if defined(SIMPLE)
    static const Operator OPS[] = {opAdd, opSub, opBAnd, opBOr, opBXor, opLAnd, opLOr, opEq, opNe, opLt, opGt, opLeq, opGeq};
    Operator op = OPS[sx_choice(sizeof OPS / sizeof *OPS, "op")]; bool log = op == opLAnd || op == opLOr; I a = operand(l, lk, log ? listed(lk, "a") : value(lk, "a")), b = operand(r, rk, log ? listed(rk, "b") : value(rk, "b"));
    if (lk == 3 && rk == 3 && op == opAdd) return; // diagnosed as meaningless
    n->binaryExpr.op = op; n->binaryExpr.lhs = l; n->binaryExpr.rhs = r; evalBin(n, which);
    sx_assert(ccLog.errorCount == 0, "a constant expression has no diagnostics");
    switch (op) {
    case opAdd: exactly(n, a + b, "a folded sum"); break;
    case opSub: if (n->tag == astBoolLit) truth(n, a - b != 0, "a folded difference of booleans"); else exactly(n, a - b, "a folded difference"); break;
    case opBAnd: if (n->tag == astBoolLit) truth(n, (a & b) != 0, "and of booleans"); else exactly(n, a & b, "a folded bitwise and"); break;
    case opBOr: if (n->tag == astBoolLit) truth(n, (a | b) != 0, "or of booleans"); else exactly(n, a | b, "a folded bitwise or"); break;
    case opBXor: if (n->tag == astBoolLit) truth(n, (a ^ b) != 0, "exclusive or of booleans"); else exactly(n, a ^ b, "a folded exclusive or"); break;
    case opLAnd: truth(n, sx_and(a != 0, b != 0), "a folded logical and"); break;
    case opLOr: truth(n, sx_or(a != 0, b != 0), "a folded logical or"); break;
    case opEq: truth(n, a == b, "a folded =="); break;
    case opNe: truth(n, a != b, "a folded !="); break;
    case opLt: truth(n, a < b, "a folded <"); break;
    case opGt: truth(n, a > b, "a folded >"); break;
    case opLeq: truth(n, a <= b, "a folded <="); break;
    default: truth(n, a >= b, "a folded >="); break;
    }
#elif defined(MULDIV)
    static const Operator OPS[] = {opMul, opDiv, opMod, opShl, opShr};
    Operator op = OPS[sx_choice(5, "op")]; sx_assume(rk < 2); if (lk == 3) return;
    uint64_t c = CONST[sx_choice(NC, "constant")]; if (rk == 1) { if (c > 1ull << 63 || c == 0) return; c = -c; }
    // products and quotients: windows of 256 values around each listed one
    uint64_t v; if (op == opShl || op == opShr) v = value(lk, "a"); else { v = listed(lk, "base") + sx_u8("delta"); if (lk == 1) sx_assume(v >> 63); if (lk == 2) sx_assume(v < 0x110000); }
    I a = operand(l, lk, v), b = operand(r, rk, c);
    n->binaryExpr.op = op; n->binaryExpr.lhs = l; n->binaryExpr.rhs = r; evalBin(n, which);
    int bad = (op == opDiv || op == opMod) ? b == 0 : op == opMul ? 0 : b < 0 || b > 63;
    if (bad) { sx_assert(ccLog.errorCount == 1, "a constant division by zero or shift out of range is diagnosed"); sx_assert(n->tag == astError, "no value comes of it"); sx_reach("bad"); return; }
    sx_assert(ccLog.errorCount == 0, "a constant expression has no diagnostics");
    switch (op) {
    case opMul: { uint64_t x = a < 0 ? -(uint64_t)a : (uint64_t)a, y = b < 0 ? -(uint64_t)b : (uint64_t)b; if (y && x > 0xffffffffffffffffull / y) return; I p = (I)(x * y); exactly(n, (a < 0) != (b < 0) ? -p : p, "a folded product"); break; }
    case opDiv: { uint64_t x = a < 0 ? -(uint64_t)a : (uint64_t)a, y = b < 0 ? -(uint64_t)b : (uint64_t)b; I q = (I)(x / y); exactly(n, (a < 0) != (b < 0) ? -q : q, "a folded quotient"); break; }
    case opMod: { uint64_t x = a < 0 ? -(uint64_t)a : (uint64_t)a, y = b < 0 ? -(uint64_t)b : (uint64_t)b; I q = (I)(x % y); exactly(n, a < 0 ? -q : q, "a folded remainder"); break; }
    case opShl: exactly(n, (I)((unsigned __int128)a << (int)b), "a folded left shift"); break;
    default: exactly(n, a >> (int)b, "a folded right shift"); break;
    }
#elif defined(UNARY)
    static const Operator OPS[] = {opPlus, opMinus, opNot, opCompl};
    Operator op = OPS[sx_choice(4, "op")]; n->tag = astUnaryExpr; n->unaryExpr.op = op; n->unaryExpr.isPrefix = true; n->unaryExpr.operand = l;
    I a = operand(l, lk, op == opNot ? listed(lk, "a") : value(lk, "a")); if (op != opNot && (lk == 3 || (which && lk == 2 && op != opCompl))) return;
    evalUn(n, which); sx_assert(ccLog.errorCount == 0, "a constant expression has no diagnostics");
    switch (op) {
    case opPlus: exactly(n, a, "a folded unary plus"); break;
    case opMinus: exactly(n, -a, "a folded negation"); break;
    case opNot: truth(n, a == 0, "a folded not"); break;
    default: exactly(n, ~a, "a folded complement"); break;
    }
#elif defined(TRUTH)
    I a = operand(l, lk, value(lk, "a"));
    if (which) { bool ok = evalBooleanCast(&ec, l); sx_assert(ok, "a literal is a condition"); } else { bool ok = preprocessorAsBoolean(&pp, l); sx_assert(ok, "a literal is a condition"); }
    truth(l, a != 0, "a literal is true unless it is zero");
#endif
    sx_reach("end");
}
