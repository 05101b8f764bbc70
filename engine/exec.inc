// ---------------------------------------------------------------- execution
static Val* RF; static u64 nextCheck = 0; static Val retv[64];
static void enter(Func* f, CallSite* cs, Val* args, unsigned nargs) {
  if (!f->translated) translate(f);
  if (f->id < SH_MAXF) SH->fcov[f->id].store(1, std::memory_order_relaxed);
  if (frames.size() >= optDepth) fault("stack-overflow", "recursion deeper than " + std::to_string(optDepth) + " calls");
  Frame fr{}; fr.f = f; fr.pc = 0; fr.base = regTop; fr.spSave = stackTop; fr.cs = cs; fr.va = 0;
  regTop += f->nslots + 4; if (regTop > (64u << 20)) fault("stack-overflow", "register file");
  Val* R = RF + fr.base; memset(R, 0, sizeof(Val) * f->nslots);
  // fixed parameters, byval copies, varargs
  unsigned np = f->nparams; 
  if (!cs) { for (unsigned i = 0; i < np && i < nargs; i++) R[i] = args[i]; }
  else { unsigned k = 0; unsigned i = 0; std::vector<std::pair<ArgD*, unsigned>> va;
    for (auto& d : cs->args) { bool fixed = k < np; if (fixed) { for (unsigned j = 0; j < d.n && k + j < np; j++) R[k + j] = args[i + j];
        if (d.byval) { u64 src = concV(R[k], "byval"); u64 dst = (stackTop + 32 + 15) & ~15ull; stackTop = dst + ((d.byval + 15) & ~15ull); memset(FL(dst), FG_OK, d.byval); memCopy(dst, src, d.byval); R[k] = Val{dst, 0}; } }
      else va.push_back({&d, i}); k += d.n; i += d.n; }
    if (f->vararg) { u64 base = (stackTop + 32 + 15) & ~15ull, p = base; u64 sz = 0; for (auto& x : va) sz += x.first->byval ? ((x.first->byval + 15) & ~7ull) + 16 : 16; memset(FL(base), FG_OK, sz + 16);
      for (auto& x : va) { if (x.first->byval) { if (x.first->align > 8) p = (p + 15) & ~15ull; memCopy(p, args[x.second].c, x.first->byval); p += (x.first->byval + 7) & ~7ull; } else for (unsigned j = 0; j < x.first->n; j++) { Val v = args[x.second + j]; if (v.e && v.e->w < 64) v.e = mkZext(v.e, 64); storeConcAddr(p, v, 8, 64); p += 8; } }
      stackTop = base + ((sz + 31) & ~15ull); fr.va = base; }
  }
  if (f->frameSize) { u64 b = (stackTop + 63) & ~63ull; for (auto& al : f->allocas) { memset(FL(b + al.first), FG_OK, al.second); memset((void*)(b + al.first), 0xA5, al.second); } stackTop = b + ((f->frameSize + 47) & ~15ull); for (u32 q = 0; q < 0; q++) {} 
    frames.push_back(fr); frames.back().va = fr.va; R[f->nslots] = Val{b, 0}; }
  else frames.push_back(fr);
  if (stackTop > stackLim) fault("stack-overflow", "stack memory");
}
static void leave() { Frame& fr = frames.back(); if (stackTop > fr.spSave) memset(FL(fr.spSave), 0, stackTop - fr.spSave); stackTop = fr.spSave; regTop = fr.base; frames.pop_back(); }
static void pushCall(Func* f, CallSite& cs, Val* a, unsigned na) { // redirect: synthesize argument passing
  enter(f, nullptr, a, na); frames.back().cs = &cs; }
static bool m_longjmp(CallSite& cs, Val* a, Val* r) { u64 p = concV(a[0], "jmp_buf"); u64 v = concV(a[1], "longjmp value"); auto it = jbs.find(p); if (it == jbs.end() || frames.size() < it->second.depth || frames[it->second.depth - 1].f != it->second.f || frames[it->second.depth - 1].base != it->second.base) fault("bad-longjmp", "longjmp to a dead frame");
  while (frames.size() > it->second.depth) leave(); Frame& fr = frames.back(); fr.pc = it->second.pc; if (it->second.ret >= 0) RF[fr.base + it->second.ret] = Val{v ? v & maskw(32) : 1, 0}; return false; }
// coroutine switches written as inline assembly: a context saves the whole call chain, setsp starts a new stack
struct Cont { std::vector<Frame> fr; std::vector<Val> rg; u64 st, lim; u32 pc; i32 ret; }; static std::unordered_map<u64, Cont> conts; static std::unordered_map<u64, u64> costk;
static bool m_cosetjmp(CallSite& cs, Val* a, Val* r) { u64 p = concV(a[0], "context"); Cont& c = conts[p]; c.fr = frames; c.rg.assign(RF, RF + regTop); c.st = stackTop; c.lim = stackLim; c.pc = frames.back().pc; c.ret = cs.ret; *r = Val{0, 0}; return true; }
static bool m_colongjmp(CallSite& cs, Val* a, Val* r) { u64 p = concV(a[0], "context"); auto it = conts.find(p); if (it == conts.end()) fault("bad-longjmp", "switch to a context that was never saved"); Cont& c = it->second;
  frames = c.fr; std::copy(c.rg.begin(), c.rg.end(), RF); regTop = c.rg.size(); stackTop = c.st; stackLim = c.lim; frames.back().pc = c.pc; if (c.ret >= 0) RF[frames.back().base + c.ret] = Val{1, 0}; return false; }
static bool m_cosetsp(CallSite& cs, Val* a, Val* r) { u64 p = concV(a[0], "stack pointer"); auto it = costk.find(p); u64 b; if (it == costk.end()) { b = STACK0 + STACKMAX + costk.size() * (1ull << 20); if (b + (1u << 20) >= ARENA + ASIZE - 64) fault("stack-overflow", "too many stacks"); costk[p] = b; } else { b = it->second; memset(FL(b), 0, 1u << 20); }
  stackTop = b; stackLim = b + (1u << 20) - 4096; return true; }
static Func* coFunc(const std::string& a) { ModelFn m = a.find("LJMPRET") != a.npos ? m_cosetjmp : a.find("jmp    *") != a.npos ? m_colongjmp : a.find("leaq (%rax), %rsp") != a.npos ? m_cosetsp : nullptr; if (!m) return nullptr; static std::map<ModelFn, Func*> fs; Func*& f = fs[m]; if (!f) { f = new Func; f->name = "asm.coroutine"; f->ext = new Ext{f->name, m, nullptr, false}; } return f; }
// division by a constant (of time units and the like): when the path condition bounds the dividend, divide in fewer bits
static bool always(Expr* c) { if (isC(c)) return c->k; int k = knownVal(c); if (k >= 0) return k; if (!ev(c)) return false; Model m2; if (checkSat(mkNot(c), &m2) != 0) return false; learn(c, true); return true; }
static Expr* divNarrow(EOp op, Expr* a, u64 k, unsigned w) {
  if (w < 32 || k < 100 || k > 60000) return nullptr; 
  if (a->op == E_MUL && isC(a->b) && a->b->k == k && always(mk(E_ULT, a->a, mkC(32768, w)))) return op == E_UDIV || op == E_SDIV ? a->a : mkC(0, w); // 32768 * k fits 31 bits
  if (always(mk(E_ULT, a, mkC(k, w)))) return op == E_UDIV || op == E_SDIV ? mkC(0, w) : a;
  if (always(mk(E_ULT, a, mkC(65536, w)))) return mkZext(mk(op == E_UDIV || op == E_SDIV ? E_UDIV : E_UREM, mkExtract(a, 0, 16), mkC(k, 16)), w);
  return nullptr; }
static Val symBin(EOp op, Val x, Val y, unsigned w) { Expr *a = asE(x, w), *b = asE(y, w); if ((op == E_UDIV || op == E_SDIV || op == E_UREM || op == E_SREM) && isC(b) && !isC(a)) if (Expr* n = divNarrow(op, a, b->k, w)) return fromE(n); if ((op == E_SHL || op == E_LSHR || op == E_ASHR) && !(w & (w - 1))) b = mk(E_AND, b, mkC(w - 1, w)); return fromE(mk(op, a, b)); }
static double toD(u64 v, unsigned w) { if (w == 32) { float f; u32 u = v; memcpy(&f, &u, 4); return f; } return u2d(v); }
static u64 fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 u; memcpy(&u, &f, 4); return u; } return d2u(d); }
static void tick() { if (steps - symStepsBase > optPathSteps && symRecs.size()) fault("hang", "no termination within the step bound"); if (!symRecs.size() && steps > optPathSteps * 20) { incomplete("prefix too long"); endPath("deadline"); } if (SH->stop) endPath("stopped"); if (now() > deadline) { incomplete("time budget exhausted"); SH->stop = 1; endPath("deadline"); } flushSteps(); nextCheck = std::min(steps + 2000000, symRecs.size() ? symStepsBase + optPathSteps + 1 : steps + 2000000); }
static void takeEdge(Frame& fr, int e) { Func* f = fr.f; Edge& ed = f->edges[e]; Val* R = RF + fr.base; if (ed.ncopy) { std::pair<i32, i32>* c = &f->copies[ed.off]; if (ed.ncopy == 1) { R[c->first] = c->second >= 0 ? R[c->second] : cpool[~c->second]; } else { Val tmp[256]; std::vector<Val> big; Val* t = tmp; if (ed.ncopy > 256) { big.resize(ed.ncopy); t = big.data(); } for (u32 i = 0; i < ed.ncopy; i++) t[i] = c[i].second >= 0 ? R[c[i].second] : cpool[~c[i].second]; for (u32 i = 0; i < ed.ncopy; i++) R[c[i].first] = t[i]; } } fr.pc = ed.pc; if (steps > nextCheck) tick(); }
static void run(size_t stopDepth) {
  while (frames.size() > stopDepth) {
    Frame* fr = &frames.back(); Func* f = fr->f; Val* R = RF + fr->base; Inst* code = f->code.data();
    #define V(i) ((i) >= 0 ? R[i] : cpool[~(i)])
    for (;;) {
      Inst& in = code[fr->pc]; steps++;
      unsigned w = in.w;
      switch (in.op) {
        #define BIN(OP, EOP, EX) case OP: { const Val &x = V(in.a), &y = V(in.b); if (__builtin_expect(!x.e && !y.e, 1)) { u64 p = x.c, q = y.c; (void)p; (void)q; R[in.d] = Val{(EX) & maskw(w), nullptr}; } else R[in.d] = symBin(EOP, x, y, w); fr->pc++; break; }
        BIN(O_ADD, E_ADD, p + q) BIN(O_SUB, E_SUB, p - q) BIN(O_MUL, E_MUL, p* q) BIN(O_AND, E_AND, p& q) BIN(O_OR, E_OR, p | q) BIN(O_XOR, E_XOR, p ^ q)
        #define SHM(q) (w & (w - 1) ? q : q & (w - 1))
        BIN(O_SHL, E_SHL, SHM(q) < w ? p << SHM(q) : 0) BIN(O_LSHR, E_LSHR, SHM(q) < w ? p >> SHM(q) : 0) BIN(O_ASHR, E_ASHR, (u64)(sxt(p, w) >> (SHM(q) < w ? SHM(q) : w - 1)))
        case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: { Val x = V(in.a), y = V(in.b); EOp eo = in.op == O_UDIV ? E_UDIV : in.op == O_SDIV ? E_SDIV : in.op == O_UREM ? E_UREM : E_SREM;
          if (!y.e) { if (!y.c) fault("div-zero", "division by zero"); } else require(mkNot(mk(E_EQ, y.e, mkC(0, w))), "div-zero", "division by zero");
          if ((eo == E_SDIV || eo == E_SREM) && w >= 32) { u64 mn = 1ull << (w - 1); if (!x.e && !y.e) { if (x.c == mn && y.c == maskw(w)) fault("div-overflow", "signed division overflow"); } else require(mkNot(mk(E_AND, mk(E_EQ, asE(x, w), mkC(mn, w)), mk(E_EQ, asE(y, w), mkC(~0ull, w)))), "div-overflow", "signed division overflow"); }
          if (!x.e && !y.e) R[in.d] = Val{foldBin(eo, x.c, y.c, w), nullptr}; else R[in.d] = symBin(eo, x, y, w); fr->pc++; break; }
        #define CMP(OP, EX, SE) case OP: { const Val &x = V(in.a), &y = V(in.b); if (__builtin_expect(!x.e && !y.e, 1)) { u64 p = x.c, q = y.c; R[in.d] = Val{(u64)(EX), nullptr}; } else { Expr *p = asE(x, w), *q = asE(y, w); R[in.d] = fromE(SE); } fr->pc++; break; }
        CMP(O_EQ, p == q, mk(E_EQ, p, q)) CMP(O_NE, p != q, mkNot(mk(E_EQ, p, q))) CMP(O_ULT, p < q, mk(E_ULT, p, q)) CMP(O_ULE, p <= q, mk(E_ULE, p, q)) CMP(O_UGT, p > q, mk(E_ULT, q, p)) CMP(O_UGE, p >= q, mk(E_ULE, q, p))
        CMP(O_SLT, sxt(p, w) < sxt(q, w), mk(E_SLT, p, q)) CMP(O_SLE, sxt(p, w) <= sxt(q, w), mk(E_SLE, p, q)) CMP(O_SGT, sxt(p, w) > sxt(q, w), mk(E_SLT, q, p)) CMP(O_SGE, sxt(p, w) >= sxt(q, w), mk(E_SLE, q, p))
        case O_SELECT: { const Val& c = V(in.a); if (!c.e) R[in.d] = c.c ? V(in.b) : V(in.c); else { int k = knownVal(c.e); if (k >= 0) R[in.d] = k ? V(in.b) : V(in.c); else R[in.d] = fromE(mkIte(c.e, asE(V(in.b), w), asE(V(in.c), w))); } fr->pc++; break; }
        case O_MOV: { Val x = V(in.a); if (x.e && (in.imm & 256)) x = fromE(mkZext(x.e, w)); R[in.d] = x; fr->pc++; break; }
        case O_TRNC: { const Val& x = V(in.a); if (!x.e) R[in.d] = Val{x.c & maskw(w), nullptr}; else R[in.d] = fromE(mkExtract(x.e, 0, w)); fr->pc++; break; }
        case O_SEXT: { const Val& x = V(in.a); if (!x.e) R[in.d] = Val{(u64)sxt(x.c, in.imm) & maskw(w), nullptr}; else R[in.d] = fromE(mkSext(x.e, w)); fr->pc++; break; }
        case O_LOAD: { const Val& p = V(in.a); if (__builtin_expect(p.e != nullptr, 0)) { Val v = loadSym(p.e, in.n, w); R[in.d] = v; fr->pc++; break; }
          u64 a = p.c; if (__builtin_expect(inArena(a) && a - ARENA < ASIZE - 8, 1)) { u64 fl = 0, v = 0; switch (in.n) { case 1: fl = *FL(a); if ((fl & 3) == 1) { R[in.d] = Val{*(u8*)a & maskw(w), nullptr}; goto ldone; } break; case 4: fl = *(u32*)FL(a); if ((fl & 0x03030303u) == 0x01010101u) { R[in.d] = Val{*(u32*)a & maskw(w), nullptr}; goto ldone; } break; case 8: fl = *(u64*)FL(a); if ((fl & 0x0303030303030303ull) == 0x0101010101010101ull) { v = *(u64*)a; R[in.d] = Val{v, nullptr}; goto ldone; } break; default: break; } }
          R[in.d] = loadConcAddr(a, in.n, w); ldone: fr->pc++; break; }
        case O_STORE: { const Val& p = V(in.a); const Val& v = V(in.b); if (__builtin_expect(p.e != nullptr, 0)) { storeSym(p.e, v, in.n, w); fr->pc++; break; }
          u64 a = p.c; if (__builtin_expect(!v.e && inArena(a) && a - ARENA < ASIZE - 8, 1)) { switch (in.n) { case 1: if ((*FL(a) & 7) == 1) { *(u8*)a = (u8)v.c; goto sdone; } break; case 4: if ((*(u32*)FL(a) & 0x07070707u) == 0x01010101u) { *(u32*)a = (u32)v.c; goto sdone; } break; case 8: if ((*(u64*)FL(a) & 0x0707070707070707ull) == 0x0101010101010101ull) { *(u64*)a = v.c; goto sdone; } break; default: break; } }
          storeConcAddr(a, v, in.n, w); sdone: fr->pc++; break; }
        case O_GEPI: { const Val& x = V(in.a); if (!x.e) R[in.d] = Val{x.c + in.imm, nullptr}; else R[in.d] = fromE(mk(E_ADD, x.e, mkC(in.imm, 64))); fr->pc++; break; }
        case O_GEPV: { const Val &x = V(in.a), &y = V(in.b); if (!x.e && !y.e) R[in.d] = Val{x.c + (u64)sxt(y.c, w) * in.imm, nullptr}; else { Expr* i = mkSext(asE(y, w), 64); R[in.d] = fromE(mk(E_ADD, asE(x, 64), mk(E_MUL, i, mkC(in.imm, 64)))); } fr->pc++; break; }
        case O_BR: takeEdge(*fr, in.d); break;
        case O_CBR: { const Val& c = V(in.a); bool t = c.e ? decide(c.e) : c.c; takeEdge(*fr, t ? in.d : in.b); break; }
        case O_SWITCH: { SwitchT& s = f->switches[in.d]; Val v = V(s.v); if (!v.e) { int e = s.def; for (auto& c : s.cases) if (c.first == v.c) { e = c.second; break; } takeEdge(*fr, e); break; }
          // group the cases by destination block, then follow the model
          std::map<int, Expr*> g; std::map<int, int> ge; Expr* any = mkC(0, 1);
          for (auto& c : s.cases) { Edge& ed = f->edges[c.second]; int key = ed.ncopy ? -1 - c.second : ed.pc; Expr* q = mk(E_EQ, v.e, mkC(c.first, s.w)); g[key] = g.count(key) ? mk(E_OR, g[key], q) : q; ge[key] = c.second; any = mk(E_OR, any, q); }
          { Edge& ed = f->edges[s.def]; int key = ed.ncopy ? -1000000 : ed.pc; Expr* q = mkNot(any); g[key] = g.count(key) ? mk(E_OR, g[key], q) : q; ge[key] = s.def; }
          int chosen = -1; while (chosen < 0) { for (auto& kv : g) if (isC(kv.second) ? kv.second->k : ev(kv.second)) { Expr* c = kv.second; if (decide(c)) chosen = ge[kv.first]; else { kv.second = mkC(0, 1); } break; } }
          takeEdge(*fr, chosen); break; }
        case O_CALL: { CallSite& cs = f->calls[in.d]; Func* t = cs.direct; 
          if (!t) { u64 p = cs.callee >= 0 ? concV(R[cs.callee], "call target") : cpool[~cs.callee].c; auto it = faddr.find(p); if (it == faddr.end()) fault(p < 0x10000 ? "null-deref" : "bad-call", "call through an invalid function pointer"); t = it->second; }
          Val args[128]; unsigned n = 0; for (auto& d : cs.args) { for (unsigned k = 0; k < d.n; k++) { if (n >= 128) fault("unsupported", "too many arguments"); i32 s = d.slot >= 0 ? d.slot + (int)k : d.slot - (int)k; args[n++] = V(s); } }
          fr->pc++;
          if (!t->ext) { enter(t, &cs, args, n); goto reframe; }
          Ext* x = t->ext; size_t depth = frames.size();
          if (x->fn) { Val rv[64]; rv[0] = Val{0, nullptr}; fr->pc--; /* keep pc on the call for locations */ 
            bool isjmp = x->fn == m_setjmp || x->fn == m_longjmp || x->fn == m_cosetjmp || x->fn == m_colongjmp; if (isjmp) fr->pc++;
            size_t ff = frames.size(); bool done; if (x->fn == m_strlen || x->fn == m_memcmp || x->fn == m_strcmp || x->fn == m_strncmp) { done = x->fn(cs, args, rv); fr = &frames[ff - 1]; fr->pc++; } else { done = x->fn(cs, args, rv); if (!isjmp) { fr = &frames[ff - 1]; fr->pc++; } }
            if (!done) goto reframe; for (unsigned k = 0; k < cs.nret; k++) R[cs.ret + k] = rv[k]; break; }
          if (!x->allowed) { incomplete("unmodelled external function " + x->name + " at " + backtrace()); endPath("unmodelled"); }
          { u64 rr = callNative(x->nat, cs, args); (void)depth; if (cs.nret) R[cs.ret] = Val{rr & maskw(cs.retW), nullptr}; } break; }
        case O_RET: { unsigned n = in.b; CallSite* cs = fr->cs; for (unsigned k = 0; k < n && k < 64; k++) { i32 s = in.a >= 0 ? in.a + (int)k : in.a - (int)k; retv[k] = V(s); } leave(); if (frames.size() > stopDepth && cs) { Val* P = RF + frames.back().base; for (unsigned k = 0; k < cs->nret && k < n; k++) { Val v = retv[k]; P[cs->ret + k] = v; } } goto reframe; }
        case O_ALLOCA: { if (in.n) R[in.d] = Val{R[f->nslots].c + in.imm, nullptr}; else { u64 cnt = in.a >= 0 ? concV(R[in.a], "alloca size") : cpool[~in.a].c; u64 al = in.c; u64 b = (stackTop + 32 + al - 1) & ~(al - 1); u64 sz = cnt * (u64)in.b; if (sz > (64u << 20)) fault("stack-overflow", "alloca"); memset(FL(b), FG_OK, sz); stackTop = b + ((sz + 31) & ~15ull); if (stackTop > stackLim) fault("stack-overflow", "stack memory"); R[in.d] = Val{b, nullptr}; } fr->pc++; break; }
        case O_VASTART: { u64 p = in.a >= 0 ? concV(R[in.a], "va_list") : cpool[~in.a].c; storeConcAddr(p, Val{48, 0}, 4, 32); storeConcAddr(p + 4, Val{304, 0}, 4, 32); storeConcAddr(p + 8, Val{fr->va, 0}, 8, 64); storeConcAddr(p + 16, Val{0, 0}, 8, 64); fr->pc++; break; }
        case O_NOP: fr->pc++; break;
        case O_FBIN: { u64 x = concV(*(in.a >= 0 ? &R[in.a] : &cpool[~in.a]), "floating-point operand"), y = concV(*(in.b >= 0 ? &R[in.b] : &cpool[~in.b]), "floating-point operand"); double p = toD(x, w), q = toD(y, w), z = 0; if (w == 32) { float a = p, b = q, c = 0; switch (in.imm) { case Instruction::FAdd: c = a + b; break; case Instruction::FSub: c = a - b; break; case Instruction::FMul: c = a * b; break; case Instruction::FDiv: c = a / b; break; default: c = fmodf(a, b); } z = c; } else switch (in.imm) { case Instruction::FAdd: z = p + q; break; case Instruction::FSub: z = p - q; break; case Instruction::FMul: z = p * q; break; case Instruction::FDiv: z = p / q; break; default: z = fmod(p, q); } R[in.d] = Val{fromD(z, w), nullptr}; fr->pc++; break; }
        case O_FNEG: { u64 sb = 1ull << (w - 1); const Val& x = V(in.a); if (x.e) R[in.d] = fromE(mk(E_XOR, x.e, mkC(sb, w))); else R[in.d] = Val{x.c ^ sb, nullptr}; fr->pc++; break; }
        case O_FCMP: { double p = toD(concV(*(in.a >= 0 ? &R[in.a] : &cpool[~in.a]), "floating-point operand"), w), q = toD(concV(*(in.b >= 0 ? &R[in.b] : &cpool[~in.b]), "floating-point operand"), w); bool un = p != p || q != q, rr = false; switch (in.imm) { case 0: rr = false; break; case 1: rr = !un && p == q; break; case 2: rr = !un && p > q; break; case 3: rr = !un && p >= q; break; case 4: rr = !un && p < q; break; case 5: rr = !un && p <= q; break; case 6: rr = !un && p != q; break; case 7: rr = !un; break; case 8: rr = un; break; case 9: rr = un || p == q; break; case 10: rr = un || p > q; break; case 11: rr = un || p >= q; break; case 12: rr = un || p < q; break; case 13: rr = un || p <= q; break; case 14: rr = un || p != q; break; default: rr = true; } R[in.d] = Val{rr, nullptr}; fr->pc++; break; }
        case O_FPTOSI: { double p = toD(concV(*(in.a >= 0 ? &R[in.a] : &cpool[~in.a]), "floating-point operand"), in.imm); R[in.d] = Val{(u64)(i64)p & maskw(w), nullptr}; fr->pc++; break; }
        case O_FPTOUI: { double p = toD(concV(*(in.a >= 0 ? &R[in.a] : &cpool[~in.a]), "floating-point operand"), in.imm); R[in.d] = Val{(u64)p & maskw(w), nullptr}; fr->pc++; break; }
        case O_SITOFP: { u64 x = concV(*(in.a >= 0 ? &R[in.a] : &cpool[~in.a]), "integer converted to floating point"); i64 s = sxt(x, in.imm); R[in.d] = Val{w == 32 ? fromD((double)(float)s, 32) : d2u((double)s), nullptr}; fr->pc++; break; }
        case O_UITOFP: { u64 x = concV(*(in.a >= 0 ? &R[in.a] : &cpool[~in.a]), "integer converted to floating point"); R[in.d] = Val{w == 32 ? fromD((double)(float)x, 32) : d2u((double)x), nullptr}; fr->pc++; break; }
        case O_FPTRUNC: case O_FPEXT: { u64 x = concV(*(in.a >= 0 ? &R[in.a] : &cpool[~in.a]), "floating-point operand"); R[in.d] = Val{fromD(toD(x, in.imm), w), nullptr}; fr->pc++; break; }
        case O_UNREACH: fault("unreachable", "reached unreachable code");
        case O_UNSUP: incomplete("unsupported instruction" + *(std::string*)in.imm + " at " + backtrace()); endPath("unsupported");
        default: fprintf(stderr, "symx: bad op %d\n", in.op); _exit(97);
      }
    }
    reframe:;
  }
}
