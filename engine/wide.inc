// 128-bit integers become pairs of 64-bit ones: what is simple inline, the rest through the functions __sx_*128{lo,hi} of rt/sxlibc.c.
typedef std::pair<Value*, Value*> Wide;
static bool isWide(Type* t) { return t->isIntegerTy(128); }
static bool lowerWide(Function& F) {
  bool any = false; for (auto& I : instructions(F)) { any |= isWide(I.getType()); for (auto& o : I.operands()) any |= isWide(o->getType()); }
  if (!any) return true;
  LLVMContext& C = F.getContext(); Type* T = Type::getInt64Ty(C); std::map<Value*, Wide> w; std::vector<Instruction*> dead; std::vector<std::pair<PHINode*, Wide>> phis;
  auto get = [&](Value* v) -> Wide { auto it = w.find(v); if (it != w.end()) return it->second; if (auto* c = dyn_cast<ConstantInt>(v)) { APInt a = c->getValue(); return {ConstantInt::get(T, a.extractBitsAsZExtValue(64, 0)), ConstantInt::get(T, a.extractBitsAsZExtValue(64, 64))}; } if (isa<UndefValue>(v)) return {UndefValue::get(T), UndefValue::get(T)}; return {nullptr, nullptr}; };
  auto fn = [&](const std::string& n) { return F.getParent()->getOrInsertFunction(n, FunctionType::get(T, {T, T, T, T}, false)); };
  ReversePostOrderTraversal<Function*> rpo(&F);
  for (BasicBlock* bb : rpo) for (auto it = bb->begin(); it != bb->end();) { Instruction* I = &*it++; bool wr = isWide(I->getType()), wo = false; for (auto& o : I->operands()) wo |= isWide(o->getType()); if (!wr && !wo) continue;
    IRBuilder<> B(I); Value *one = ConstantInt::get(T, 1), *z = ConstantInt::get(T, 0), *six = ConstantInt::get(T, 63); (void)one;
    if (auto* p = dyn_cast<PHINode>(I)) { Wide r = {B.CreatePHI(T, p->getNumIncomingValues()), B.CreatePHI(T, p->getNumIncomingValues())}; w[I] = r; phis.push_back({p, r}); dead.push_back(I); continue; }
    if (isa<ZExtInst>(I) || isa<SExtInst>(I)) { Value* s = I->getOperand(0); Value* lo = isa<ZExtInst>(I) ? B.CreateZExt(s, T) : B.CreateSExt(s, T); w[I] = {lo, isa<ZExtInst>(I) ? z : B.CreateAShr(lo, six)}; dead.push_back(I); continue; }
    if (auto* l = dyn_cast<LoadInst>(I)) { Value* p = l->getPointerOperand(); w[I] = {B.CreateAlignedLoad(T, p, Align(1)), B.CreateAlignedLoad(T, B.CreateConstGEP1_64(T, p, 1), Align(1))}; dead.push_back(I); continue; }
    if (auto* s = dyn_cast<StoreInst>(I)) { Wide v = get(s->getValueOperand()); if (!v.first) return false; Value* p = s->getPointerOperand(); B.CreateAlignedStore(v.first, p, Align(1)); B.CreateAlignedStore(v.second, B.CreateConstGEP1_64(T, p, 1), Align(1)); dead.push_back(I); continue; }
    if (isa<TruncInst>(I)) { Wide v = get(I->getOperand(0)); if (!v.first || I->getType()->getIntegerBitWidth() > 64) return false; I->replaceAllUsesWith(B.CreateZExtOrTrunc(v.first, I->getType())); dead.push_back(I); continue; }
    if (isa<FreezeInst>(I)) { Wide v = get(I->getOperand(0)); if (!v.first) return false; w[I] = {B.CreateFreeze(v.first), B.CreateFreeze(v.second)}; dead.push_back(I); continue; }
    if (auto* s = dyn_cast<SelectInst>(I)) { Wide a = get(s->getTrueValue()), b = get(s->getFalseValue()); if (!a.first || !b.first) return false; w[I] = {B.CreateSelect(s->getCondition(), a.first, b.first), B.CreateSelect(s->getCondition(), a.second, b.second)}; dead.push_back(I); continue; }
    if (auto* c = dyn_cast<ICmpInst>(I)) { Wide a = get(c->getOperand(0)), b = get(c->getOperand(1)); if (!a.first || !b.first) return false; Value *eq = B.CreateICmpEQ(a.second, b.second), *r; auto P = c->getPredicate();
      if (P == CmpInst::ICMP_EQ || P == CmpInst::ICMP_NE) { r = B.CreateAnd(eq, B.CreateICmpEQ(a.first, b.first)); if (P == CmpInst::ICMP_NE) r = B.CreateNot(r); }
      else r = B.CreateSelect(eq, B.CreateICmp(ICmpInst::getUnsignedPredicate(P), a.first, b.first), B.CreateICmp(P, a.second, b.second));
      I->replaceAllUsesWith(r); dead.push_back(I); continue; }
    if (auto* o = dyn_cast<BinaryOperator>(I)) { Wide a = get(o->getOperand(0)), b = get(o->getOperand(1)); if (!a.first || !b.first) return false; const char* n = nullptr;
      switch (o->getOpcode()) {
      case Instruction::Add: { Value* lo = B.CreateAdd(a.first, b.first); w[I] = {lo, B.CreateAdd(B.CreateAdd(a.second, b.second), B.CreateZExt(B.CreateICmpULT(lo, a.first), T))}; break; }
      case Instruction::Sub: w[I] = {B.CreateSub(a.first, b.first), B.CreateSub(B.CreateSub(a.second, b.second), B.CreateZExt(B.CreateICmpULT(a.first, b.first), T))}; break;
      case Instruction::And: case Instruction::Or: case Instruction::Xor: w[I] = {B.CreateBinOp(o->getOpcode(), a.first, b.first), B.CreateBinOp(o->getOpcode(), a.second, b.second)}; break;
      case Instruction::Mul: n = "mul"; break; case Instruction::Shl: n = "shl"; break; case Instruction::LShr: n = "lshr"; break; case Instruction::AShr: n = "ashr"; break;
      case Instruction::SDiv: n = "sdiv"; break; case Instruction::SRem: n = "srem"; break; case Instruction::UDiv: n = "udiv"; break; case Instruction::URem: n = "urem"; break;
      default: return false; }
      if (n) { Value* as[4] = {a.first, a.second, b.first, b.second}; w[I] = {B.CreateCall(fn(std::string("__sx_") + n + "128lo"), as), B.CreateCall(fn(std::string("__sx_") + n + "128hi"), as)}; }
      dead.push_back(I); continue; }
    return false; }
  for (auto& p : phis) for (unsigned i = 0; i < p.first->getNumIncomingValues(); i++) { Wide v = get(p.first->getIncomingValue(i)); if (!v.first) v = {UndefValue::get(T), UndefValue::get(T)}; ((PHINode*)p.second.first)->addIncoming(v.first, p.first->getIncomingBlock(i)); ((PHINode*)p.second.second)->addIncoming(v.second, p.first->getIncomingBlock(i)); }
  for (auto* I : dead) { I->replaceAllUsesWith(UndefValue::get(I->getType())); }
  for (auto* I : dead) I->eraseFromParent();
  return true;
}
