static Func* coFunc(const std::string& asmText); // exec.inc
// ---------------------------------------------------------------- LLVM -> bytecode
static int cidx(u64 v, int w = 64) { auto k = std::make_pair(v, 0); auto it = cpoolIdx.find(k); if (it != cpoolIdx.end()) return it->second; int i = ~(int)cpool.size(); cpool.push_back(Val{v, nullptr}); cpoolIdx[k] = i; return i; }
static unsigned nslots(Type* t) { if (t->isVoidTy() || t->isMetadataTy()) return 0; if (auto* s = dyn_cast<StructType>(t)) { unsigned n = 0; for (Type* e : s->elements()) n += nslots(e); return n; } if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements() * nslots(a->getElementType()); if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements() * nslots(v->getElementType()); return 1; }
static unsigned widthOf(Type* t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; return 0; }
static bool okScalar(Type* t) { unsigned w = widthOf(t); return w >= 1 && w <= 64; }
static void leaves(Type* t, u64 off, std::vector<std::pair<Type*, u64>>& out) {
  if (auto* s = dyn_cast<StructType>(t)) { const StructLayout* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) leaves(s->getElementType(i), off + L->getElementOffset(i), out); }
  else if (auto* a = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) leaves(a->getElementType(), off + i * es, out); }
  else if (auto* v = dyn_cast<FixedVectorType>(t)) { u64 es = DL->getTypeAllocSize(v->getElementType()); for (u64 i = 0; i < v->getNumElements(); i++) leaves(v->getElementType(), off + i * es, out); }
  else out.push_back({t, off});
}
static u64 funcAddr(Func* f) { return f->addr; }
static u64 globalAddr(const GlobalVariable* g);
static void constLeaves(const Constant* c, std::vector<u64>& out);
static u64 constVal(const Constant* c) {
  if (auto* i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) return i->getValue().trunc(64).getZExtValue(); return i->getZExtValue(); }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
  if (auto* f = dyn_cast<ConstantFP>(c)) { APInt b = f->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() > 64) return 0; return b.getZExtValue(); }
  if (auto* f = dyn_cast<Function>(c)) return funcAddr(fmap.at(f));
  if (auto* g = dyn_cast<GlobalVariable>(c)) return globalAddr(g);
  if (auto* a = dyn_cast<GlobalAlias>(c)) return constVal(a->getAliasee());
  if (isa<ConstantAggregateZero>(c)) return 0;
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    unsigned w = widthOf(e->getType());
    switch (e->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); u64 b = constVal(cast<Constant>(e->getOperand(0))); if (!cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) { errs() << "symx: gep const\n"; exit(3); } return b + off.getSExtValue(); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: case Instruction::AddrSpaceCast: return constVal(e->getOperand(0)) & maskw(w);
      case Instruction::SExt: return (u64)sxt(constVal(e->getOperand(0)), widthOf(e->getOperand(0)->getType())) & maskw(w);
      case Instruction::Add: return foldBin(E_ADD, constVal(e->getOperand(0)), constVal(e->getOperand(1)), w);
      case Instruction::Sub: return foldBin(E_SUB, constVal(e->getOperand(0)), constVal(e->getOperand(1)), w);
      case Instruction::Mul: return foldBin(E_MUL, constVal(e->getOperand(0)), constVal(e->getOperand(1)), w);
      case Instruction::And: return constVal(e->getOperand(0)) & constVal(e->getOperand(1));
      case Instruction::Or: return constVal(e->getOperand(0)) | constVal(e->getOperand(1));
      case Instruction::Xor: return constVal(e->getOperand(0)) ^ constVal(e->getOperand(1));
      case Instruction::Shl: return foldBin(E_SHL, constVal(e->getOperand(0)), constVal(e->getOperand(1)), w);
      case Instruction::ICmp: { u64 a = constVal(e->getOperand(0)), b = constVal(e->getOperand(1)); switch (e->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_ULE: return a <= b; case CmpInst::ICMP_UGE: return a >= b; default: break; } break; }
      case Instruction::Select: return constVal(e->getOperand(0)) ? constVal(e->getOperand(1)) : constVal(e->getOperand(2));
      default: break;
    }
    errs() << "symx: const expr " << *e << "\n"; exit(3);
  }
  if (isa<BlockAddress>(c)) return 0;
  errs() << "symx: constant " << *c << "\n"; exit(3);
}
static void constLeaves(const Constant* c, std::vector<u64>& out) {
  Type* t = c->getType();
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) { unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(); for (unsigned i = 0; i < n; i++) constLeaves(c->getAggregateElement(i), out); }
  else out.push_back(constVal(c));
}
static void initMem(const Constant* c, u64 a) {
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
  Type* t = c->getType();
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) { StringRef r = d->getRawDataValues(); memcpy((void*)a, r.data(), r.size()); return; }
  if (auto* s = dyn_cast<StructType>(t)) { const StructLayout* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) initMem(c->getAggregateElement(i), a + L->getElementOffset(i)); return; }
  if (auto* s = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(s->getElementType()); for (u64 i = 0; i < s->getNumElements(); i++) initMem(c->getAggregateElement(i), a + i * es); return; }
  if (auto* s = dyn_cast<FixedVectorType>(t)) { u64 es = DL->getTypeAllocSize(s->getElementType()); for (u64 i = 0; i < s->getNumElements(); i++) initMem(c->getAggregateElement(i), a + i * es); return; }
  if (auto* ci = dyn_cast<ConstantInt>(c)) if (ci->getBitWidth() > 64) { memcpy((void*)a, ci->getValue().getRawData(), DL->getTypeStoreSize(t)); return; }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt b = cf->getValueAPF().bitcastToAPInt(); memcpy((void*)a, b.getRawData(), std::min<u64>(DL->getTypeStoreSize(t), 16)); return; }
  u64 v = constVal(c); memcpy((void*)a, &v, DL->getTypeStoreSize(t));
}
static u64 globalAddr(const GlobalVariable* g) { auto it = gaddr.find(g); if (it != gaddr.end()) return it->second; errs() << "symx: global " << g->getName() << " has no address\n"; exit(3); }

struct Tr {
  Func* f; std::unordered_map<const Value*, int> slot; std::unordered_map<const BasicBlock*, int> bbpc; std::vector<std::tuple<int, const BasicBlock*, const BasicBlock*>> fix; u32 curDbg = 0;
  int ns(unsigned n) { int s = f->nslots; f->nslots += n; return s; }
  int S(const Value* v) { // first slot of v (scalars may be constants)
    if (auto* c = dyn_cast<Constant>(v)) { std::vector<u64> l; constLeaves(c, l); if (l.size() == 1) return cidx(l[0]); 
      // aggregate constant: materialise consecutive pool entries
      int first = ~(int)cpool.size(); for (size_t i = 0; i < l.size(); i++) cpool.push_back(Val{l[i], nullptr}); return first; }
    auto it = slot.find(v); if (it != slot.end()) return it->second;
    int s = ns(nslots(v->getType())); slot[v] = s; return s;
  }
  int SI(int s, int i) { return s >= 0 ? s + i : s - i; }
  Inst& E(Op op, unsigned w, int d, int a = 0, int b = 0, int c = 0, u64 imm = 0, unsigned n = 0) { Inst i{}; i.op = op; i.w = w; i.n = n; i.d = d; i.a = a; i.b = b; i.c = c; i.imm = imm; i.dbg = curDbg; f->code.push_back(i); return f->code.back(); }
  void unsup(const Instruction& I) { std::string s; raw_string_ostream o(s); I.print(o); f->dbg.size(); Inst& i = E(O_UNSUP, 0, 0); i.imm = (u64) new std::string(s); }
  int edge(const BasicBlock* from, const BasicBlock* to) { Edge e{}; e.off = f->copies.size(); 
    for (const PHINode& p : to->phis()) { const Value* v = p.getIncomingValueForBlock(from); if (isa<UndefValue>(v) && nslots(p.getType()) != 1) continue; int d = S(&p), s = S(v); for (unsigned i = 0; i < nslots(p.getType()); i++) f->copies.push_back({d + (int)i, SI(s, i)}); }
    e.ncopy = f->copies.size() - e.off; if ((int)e.ncopy > f->maxCopy) f->maxCopy = e.ncopy; e.pc = -1; f->edges.push_back(e); fix.push_back({(int)f->edges.size() - 1, from, to}); return f->edges.size() - 1; }
  static u64 aggOff(Type* t, ArrayRef<unsigned> idx, Type** res) { u64 o = 0; for (unsigned i : idx) { if (auto* s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) o += nslots(s->getElementType(k)); t = s->getElementType(i); } else { auto* a = cast<ArrayType>(t); o += i * nslots(a->getElementType()); t = a->getElementType(); } } *res = t; return o; }
  void gep(const GetElementPtrInst* g) {
    int cur = S(g->getPointerOperand()); u64 off = 0; std::vector<std::pair<const Value*, u64>> var;
    for (auto it = gep_type_begin(g), en = gep_type_end(g); it != en; ++it) { const Value* ix = it.getOperand();
      if (StructType* st = it.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
      else { u64 sz = DL->getTypeAllocSize(it.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(ix)) off += sz * (u64)ci->getSExtValue(); else var.push_back({ix, sz}); } }
    int d = S(g); 
    if (var.empty()) { E(O_GEPI, 64, d, cur, 0, 0, off); return; }
    for (size_t i = 0; i < var.size(); i++) { int t = (i + 1 == var.size() && !off) ? d : ns(1); E(O_GEPV, widthOf(var[i].first->getType()), t, cur, S(var[i].first), 0, var[i].second); cur = t; }
    if (off) E(O_GEPI, 64, d, cur, 0, 0, off);
  }
  bool intrinsic(const CallInst* c, Function* fn) {
    StringRef n = fn->getName(); if (!n.starts_with("llvm.")) return false;
    auto st = [&](const char* p) { return n.starts_with(p); };
    if (st("llvm.dbg") || st("llvm.lifetime") || st("llvm.assume") || st("llvm.experimental.noalias") || st("llvm.invariant") || st("llvm.prefetch") || st("llvm.va_end") || st("llvm.donothing")) return true;
    unsigned w = widthOf(c->getType());
    if (st("llvm.expect") || st("llvm.annotation") || st("llvm.launder") || st("llvm.strip") || st("llvm.threadlocal.address") || st("llvm.ssa.copy")) { E(O_MOV, w, S(c), S(c->getArgOperand(0))); return true; }
    if (st("llvm.ptrmask")) { E(O_AND, 64, S(c), S(c->getArgOperand(0)), S(c->getArgOperand(1))); return true; }
    if (st("llvm.is.constant")) { E(O_MOV, w, S(c), cidx(0)); return true; }
    if (st("llvm.objectsize")) { E(O_MOV, w, S(c), cidx(cast<ConstantInt>(c->getArgOperand(1))->isOne() ? 0 : ~0ull & maskw(w))); return true; }
    if (st("llvm.umax") || st("llvm.umin") || st("llvm.smax") || st("llvm.smin")) { if (!w) return false; int a = S(c->getArgOperand(0)), b = S(c->getArgOperand(1)), t = ns(1); Op o = st("llvm.umax") ? O_UGT : st("llvm.umin") ? O_ULT : st("llvm.smax") ? O_SGT : O_SLT; E(o, w, t, a, b); E(O_SELECT, w, S(c), t, a, b); return true; }
    if (st("llvm.abs.")) { int a = S(c->getArgOperand(0)), t = ns(1), u = ns(1); E(O_SUB, w, t, cidx(0), a); E(O_SLT, w, u, a, cidx(0)); E(O_SELECT, w, S(c), u, t, a); return true; }
    if (st("llvm.usub.sat")) { int a = S(c->getArgOperand(0)), b = S(c->getArgOperand(1)), t = ns(1), u = ns(1); E(O_SUB, w, t, a, b); E(O_ULT, w, u, a, b); E(O_SELECT, w, S(c), u, cidx(0), t); return true; }
    if (st("llvm.uadd.sat")) { int a = S(c->getArgOperand(0)), b = S(c->getArgOperand(1)), t = ns(1), u = ns(1); E(O_ADD, w, t, a, b); E(O_ULT, w, u, t, a); E(O_SELECT, w, S(c), u, cidx(maskw(w)), t); return true; }
    if (n.contains(".with.overflow.")) { w = widthOf(c->getArgOperand(0)->getType()); int a = S(c->getArgOperand(0)), b = S(c->getArgOperand(1)), d = S(c), t = ns(1), u = ns(1), x = ns(1);
      if (st("llvm.uadd")) { E(O_ADD, w, x, a, b); E(O_ULT, w, d + 1, x, a); E(O_MOV, w, d, x); return true; }
      if (st("llvm.usub")) { E(O_SUB, w, x, a, b); E(O_ULT, w, d + 1, a, b); E(O_MOV, w, d, x); return true; }
      if (st("llvm.sadd")) { E(O_ADD, w, x, a, b); E(O_XOR, w, t, a, x); E(O_XOR, w, u, b, x); E(O_AND, w, t, t, u); E(O_SLT, w, d + 1, t, cidx(0)); E(O_MOV, w, d, x); return true; }
      if (st("llvm.ssub")) { E(O_SUB, w, x, a, b); E(O_XOR, w, t, a, b); E(O_XOR, w, u, a, x); E(O_AND, w, t, t, u); E(O_SLT, w, d + 1, t, cidx(0)); E(O_MOV, w, d, x); return true; }
      if (w <= 32) { bool sg = st("llvm.smul"); int ea = a, eb = b; if (sg) { ea = ns(1); eb = ns(1); E(O_SEXT, 64, ea, a, 0, 0, w); E(O_SEXT, 64, eb, b, 0, 0, w); } E(O_MUL, 64, t, ea, eb); E(O_TRNC, w, x, t, 0, 0, 64); if (sg) E(O_SEXT, 64, u, x, 0, 0, w); else E(O_MOV, 64, u, x, 0, 0, w | 256); E(O_NE, 64, d + 1, u, t); E(O_MOV, w, d, x); return true; }
      return false; }
    return false;
  }
  void call(const CallBase* c) {
    CallSite cs{}; const Value* cv = c->getCalledOperand()->stripPointerCasts(); Function* fn = const_cast<Function*>(dyn_cast<Function>(cv));
    if (auto* al = dyn_cast<GlobalAlias>(cv)) fn = const_cast<Function*>(dyn_cast<Function>(al->getAliaseeObject()));
    if (c->isInlineAsm()) { auto* ia = cast<InlineAsm>(c->getCalledOperand()); if (ia->getAsmString().empty()) { if (!c->getType()->isVoidTy()) { if (c->arg_size() >= 1 && nslots(c->getType()) == 1) E(O_MOV, widthOf(c->getType()), S(c), S(c->getArgOperand(0))); else unsup(*c); } return; } cs.direct = coFunc(std::string(ia->getAsmString())); if (!cs.direct) { unsup(*c); return; } fn = nullptr; }
    if (fn) { if (auto* ci = dyn_cast<CallInst>(c)) if (intrinsic(ci, fn)) return; cs.direct = fmap.at(fn); }
    if (fn && fn->getName().starts_with("llvm.va_start")) { E(O_VASTART, 0, 0, S(c->getArgOperand(0))); return; }
    cs.callee = fn || cs.direct ? 0 : S(c->getCalledOperand());
    for (unsigned i = 0; i < c->arg_size(); i++) { const Value* a = c->getArgOperand(i); Type* t = a->getType(); if (t->isMetadataTy()) continue; ArgD d{}; d.n = nslots(t); d.w = widthOf(t); d.kind = t->isDoubleTy() ? 1 : t->isFloatTy() ? 2 : 0; if (d.n > 0) d.slot = S(a); if (c->isByValArgument(i)) { d.byval = DL->getTypeAllocSize(c->getParamByValType(i)); d.align = c->getParamAlign(i).valueOrOne().value(); } cs.args.push_back(d); }
    cs.fixed = c->getFunctionType()->getNumParams(); cs.isVarFn = c->getFunctionType()->isVarArg();
    cs.nret = nslots(c->getType()); cs.retW = widthOf(c->getType()); cs.retKind = c->getType()->isDoubleTy() ? 1 : c->getType()->isFloatTy() ? 2 : 0; cs.ret = cs.nret ? S(c) : -1;
    f->calls.push_back(cs); E(O_CALL, 0, f->calls.size() - 1);
    if (auto* iv = dyn_cast<InvokeInst>(c)) E(O_BR, 0, edge(iv->getParent(), iv->getNormalDest()));
  }
  void inst(const Instruction& I) {
    if (I.getDebugLoc()) { if (f->dbg.empty() || f->dbg.back() != I.getDebugLoc()) f->dbg.push_back(I.getDebugLoc()); curDbg = f->dbg.size() - 1; }
    Type* t = I.getType(); unsigned w = widthOf(t);
    auto bad = [&](Type* x) { std::vector<std::pair<Type*, u64>> l; leaves(x, 0, l); for (auto& p : l) if (!okScalar(p.first)) return true; return false; };
    if (!t->isVoidTy() && !isa<CallBase>(I) && bad(t)) { unsup(I); return; }
    for (const Use& u : I.operands()) { Type* ot = u->getType(); if (ot->isLabelTy() || ot->isMetadataTy() || ot->isFunctionTy()) continue; if (isa<CallBase>(I)) continue; if (!ot->isVoidTy() && bad(ot)) { unsup(I); return; } }
    auto op = [&](int i) { return S(I.getOperand(i)); };
    if (isa<PHINode>(I)) { S(&I); return; }
    if (auto* b = dyn_cast<BinaryOperator>(&I)) {
      if (t->isVectorTy()) { unsup(I); return; }
      if (t->isFloatingPointTy()) { E(O_FBIN, w, S(&I), op(0), op(1), 0, b->getOpcode()); return; }
      Op o; switch (b->getOpcode()) { case Instruction::Add: o = O_ADD; break; case Instruction::Sub: o = O_SUB; break; case Instruction::Mul: o = O_MUL; break; case Instruction::UDiv: o = O_UDIV; break; case Instruction::SDiv: o = O_SDIV; break; case Instruction::URem: o = O_UREM; break; case Instruction::SRem: o = O_SREM; break; case Instruction::And: o = O_AND; break; case Instruction::Or: o = O_OR; break; case Instruction::Xor: o = O_XOR; break; case Instruction::Shl: o = O_SHL; break; case Instruction::LShr: o = O_LSHR; break; case Instruction::AShr: o = O_ASHR; break; default: unsup(I); return; }
      E(o, w, S(&I), op(0), op(1)); return; }
    if (auto* c = dyn_cast<ICmpInst>(&I)) { if (t->isVectorTy()) { unsup(I); return; } Op o; switch (c->getPredicate()) { case CmpInst::ICMP_EQ: o = O_EQ; break; case CmpInst::ICMP_NE: o = O_NE; break; case CmpInst::ICMP_ULT: o = O_ULT; break; case CmpInst::ICMP_ULE: o = O_ULE; break; case CmpInst::ICMP_UGT: o = O_UGT; break; case CmpInst::ICMP_UGE: o = O_UGE; break; case CmpInst::ICMP_SLT: o = O_SLT; break; case CmpInst::ICMP_SLE: o = O_SLE; break; case CmpInst::ICMP_SGT: o = O_SGT; break; default: o = O_SGE; }
      E(o, widthOf(c->getOperand(0)->getType()), S(&I), op(0), op(1)); return; }
    if (auto* c = dyn_cast<FCmpInst>(&I)) { E(O_FCMP, widthOf(c->getOperand(0)->getType()), S(&I), op(0), op(1), 0, c->getPredicate()); return; }
    if (isa<SelectInst>(I)) { if (I.getOperand(0)->getType()->isVectorTy()) { unsup(I); return; } int d = S(&I), a = op(1), b = op(2); std::vector<std::pair<Type*, u64>> l; leaves(t, 0, l); for (unsigned i = 0; i < l.size(); i++) E(O_SELECT, widthOf(l[i].first), d + i, op(0), SI(a, i), SI(b, i)); return; }
    if (isa<UnaryOperator>(I)) { E(O_FNEG, w, S(&I), op(0)); return; }
    if (isa<FreezeInst>(I)) { int d = S(&I), a = op(0); for (unsigned i = 0; i < nslots(t); i++) E(O_MOV, 64, d + i, SI(a, i)); return; }
    if (auto* c = dyn_cast<CastInst>(&I)) { if (t->isVectorTy() || c->getSrcTy()->isVectorTy()) { unsup(I); return; } unsigned sw = widthOf(c->getSrcTy()); switch (c->getOpcode()) {
        case Instruction::ZExt: E(O_MOV, w, S(&I), op(0), 0, 0, sw | 256); return;
        case Instruction::SExt: E(O_SEXT, w, S(&I), op(0), 0, 0, sw); return;
        case Instruction::Trunc: E(O_TRNC, w, S(&I), op(0), 0, 0, sw); return;
        case Instruction::PtrToInt: case Instruction::IntToPtr: if (w < sw) E(O_TRNC, w, S(&I), op(0), 0, 0, sw); else E(O_MOV, w, S(&I), op(0), 0, 0, sw | 256); return;
        case Instruction::BitCast: E(O_MOV, w, S(&I), op(0)); return;
        case Instruction::FPToSI: E(O_FPTOSI, w, S(&I), op(0), 0, 0, sw); return;
        case Instruction::FPToUI: E(O_FPTOUI, w, S(&I), op(0), 0, 0, sw); return;
        case Instruction::SIToFP: E(O_SITOFP, w, S(&I), op(0), 0, 0, sw); return;
        case Instruction::UIToFP: E(O_UITOFP, w, S(&I), op(0), 0, 0, sw); return;
        case Instruction::FPTrunc: E(O_FPTRUNC, w, S(&I), op(0), 0, 0, sw); return;
        case Instruction::FPExt: E(O_FPEXT, w, S(&I), op(0), 0, 0, sw); return;
        default: unsup(I); return; } }
    if (auto* l = dyn_cast<LoadInst>(&I)) { std::vector<std::pair<Type*, u64>> lv; leaves(t, 0, lv); int d = S(&I), p = op(0); if (lv.size() == 1 && lv[0].second == 0) { E(O_LOAD, w ? w : widthOf(lv[0].first), d, p, 0, 0, 0, DL->getTypeStoreSize(lv[0].first)); return; }
      for (unsigned i = 0; i < lv.size(); i++) { int q = ns(1); E(O_GEPI, 64, q, p, 0, 0, lv[i].second); E(O_LOAD, widthOf(lv[i].first), d + i, q, 0, 0, 0, DL->getTypeStoreSize(lv[i].first)); } (void)l; return; }
    if (auto* s = dyn_cast<StoreInst>(&I)) { Type* vt = s->getValueOperand()->getType(); std::vector<std::pair<Type*, u64>> lv; leaves(vt, 0, lv); int v = op(0), p = op(1); if (isa<UndefValue>(s->getValueOperand())) { E(O_NOP, 0, 0); return; }
      for (unsigned i = 0; i < lv.size(); i++) { int q = p; if (lv[i].second) { q = ns(1); E(O_GEPI, 64, q, p, 0, 0, lv[i].second); } E(O_STORE, widthOf(lv[i].first), 0, q, SI(v, i), 0, 0, DL->getTypeStoreSize(lv[i].first)); } return; }
    if (auto* g = dyn_cast<GetElementPtrInst>(&I)) { gep(g); return; }
    if (auto* a = dyn_cast<AllocaInst>(&I)) { u64 es = DL->getTypeAllocSize(a->getAllocatedType()); u64 al = std::max<u64>(a->getAlign().value(), 16);
      if (a->isStaticAlloca()) { u64 cnt = cast<ConstantInt>(a->getArraySize())->getZExtValue(); u64 off = (f->frameSize + 32 + al - 1) & ~(al - 1); f->frameSize = off + es * cnt; f->allocas.push_back({off, es * cnt}); E(O_ALLOCA, 0, S(&I), 0, 0, 0, off, 1); }
      else E(O_ALLOCA, 0, S(&I), S(a->getArraySize()), (int)es, (int)al, 0, 0); return; }
    if (auto* b = dyn_cast<BranchInst>(&I)) { if (b->isUnconditional()) E(O_BR, 0, edge(I.getParent(), b->getSuccessor(0))); else { int a = edge(I.getParent(), b->getSuccessor(0)), c = edge(I.getParent(), b->getSuccessor(1)); E(O_CBR, 0, a, S(b->getCondition()), c); } return; }
    if (auto* s = dyn_cast<SwitchInst>(&I)) { SwitchT st; st.v = S(s->getCondition()); st.w = widthOf(s->getCondition()->getType()); for (auto& c : s->cases()) st.cases.push_back({c.getCaseValue()->getZExtValue(), edge(I.getParent(), c.getCaseSuccessor())}); st.def = edge(I.getParent(), s->getDefaultDest()); f->switches.push_back(st); E(O_SWITCH, 0, f->switches.size() - 1); return; }
    if (auto* r = dyn_cast<ReturnInst>(&I)) { E(O_RET, 0, 0, r->getReturnValue() ? S(r->getReturnValue()) : 0, r->getReturnValue() ? nslots(r->getReturnValue()->getType()) : 0); return; }
    if (isa<UnreachableInst>(I)) { E(O_UNREACH, 0, 0); return; }
    if (auto* e = dyn_cast<ExtractValueInst>(&I)) { Type* rt; u64 o = aggOff(e->getAggregateOperand()->getType(), e->getIndices(), &rt); int d = S(&I), a = op(0); for (unsigned i = 0; i < nslots(rt); i++) E(O_MOV, 64, d + i, SI(a, o + i)); return; }
    if (auto* e = dyn_cast<InsertValueInst>(&I)) { Type* rt; u64 o = aggOff(t, e->getIndices(), &rt); int d = S(&I); unsigned n = nslots(t); if (!isa<UndefValue>(e->getAggregateOperand())) { int a = op(0); for (unsigned i = 0; i < n; i++) E(O_MOV, 64, d + i, SI(a, i)); } int v = op(1); for (unsigned i = 0; i < nslots(rt); i++) E(O_MOV, 64, d + o + i, SI(v, i)); return; }
    if (auto* e = dyn_cast<ExtractElementInst>(&I)) { if (auto* ci = dyn_cast<ConstantInt>(e->getIndexOperand())) { E(O_MOV, 64, S(&I), SI(op(0), ci->getZExtValue())); return; } unsup(I); return; }
    if (auto* e = dyn_cast<InsertElementInst>(&I)) { if (auto* ci = dyn_cast<ConstantInt>(e->getOperand(2))) { int d = S(&I); unsigned n = nslots(t); if (!isa<UndefValue>(e->getOperand(0))) { int a = op(0); for (unsigned i = 0; i < n; i++) E(O_MOV, 64, d + i, SI(a, i)); } E(O_MOV, 64, d + (int)ci->getZExtValue(), op(1)); return; } unsup(I); return; }
    if (auto* s = dyn_cast<ShuffleVectorInst>(&I)) { int d = S(&I), a = op(0), b = op(1); int n0 = nslots(s->getOperand(0)->getType()); int k = 0; for (int m : s->getShuffleMask()) { if (m < 0) E(O_MOV, 64, d + k, cidx(0)); else if (m < n0) E(O_MOV, 64, d + k, SI(a, m)); else E(O_MOV, 64, d + k, SI(b, m - n0)); k++; } return; }
    if (auto* c = dyn_cast<CallBase>(&I)) { call(c); return; }
    if (auto* r = dyn_cast<AtomicRMWInst>(&I)) { int d = S(&I), p = op(0), v = op(1), n = DL->getTypeStoreSize(t), x = ns(1), y = ns(1); E(O_LOAD, w, x, p, 0, 0, 0, n); switch (r->getOperation()) { case AtomicRMWInst::Add: E(O_ADD, w, y, x, v); break; case AtomicRMWInst::Sub: E(O_SUB, w, y, x, v); break; case AtomicRMWInst::And: E(O_AND, w, y, x, v); break; case AtomicRMWInst::Or: E(O_OR, w, y, x, v); break; case AtomicRMWInst::Xor: E(O_XOR, w, y, x, v); break; case AtomicRMWInst::Xchg: E(O_MOV, w, y, v); break; default: unsup(I); return; } E(O_STORE, w, 0, p, y, 0, 0, n); E(O_MOV, w, d, x); return; }
    if (auto* r = dyn_cast<AtomicCmpXchgInst>(&I)) { Type* vt = r->getCompareOperand()->getType(); w = widthOf(vt); int d = S(&I), p = op(0), c = op(1), v = op(2), n = DL->getTypeStoreSize(vt), x = ns(1), y = ns(1), q = ns(1); E(O_LOAD, w, x, p, 0, 0, 0, n); E(O_EQ, w, q, x, c); E(O_SELECT, w, y, q, v, x); E(O_STORE, w, 0, p, y, 0, 0, n); E(O_MOV, w, d, x); E(O_MOV, 1, d + 1, q); return; }
    if (isa<FenceInst>(I)) return;
    unsup(I);
  }
  void run() {
    Function* F = f->F; f->vararg = F->isVarArg(); for (Argument& a : F->args()) { S(&a); } f->nparams = f->nslots; f->dbg.push_back(DebugLoc()); f->retSlots = nslots(F->getReturnType());
    for (BasicBlock& b : *F) { bbpc[&b] = f->code.size(); for (Instruction& I : b) inst(I); }
    for (auto& x : fix) f->edges[std::get<0>(x)].pc = bbpc.at(std::get<2>(x));
    f->translated = true;
  }
};
static void translate(Func* f) { Tr t; t.f = f; t.run(); }
