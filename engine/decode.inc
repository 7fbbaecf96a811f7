// ------------------------------------------------------------------ decoding
enum BI { B_none = -1, B_new, B_delete, B_malloc, B_calloc, B_realloc, B_free, B_memcpy, B_memset, B_memcmp, B_bcmp, B_memchr, B_strlen, B_strnlen, B_strcmp, B_strncmp,
  B_abort, B_assert, B_throw, B_cxa_alloc_exc, B_cxa_throw, B_begin_catch, B_end_catch, B_free_exc, B_pure,
  B_sym, B_assume, B_check, B_fail, B_reach, B_concretize, B_observe, B_nop, B_ret0, B_ret1, B_guard_acq, B_guard_rel, B_mathd, B_mathf, B_mathdd, B_strtod, B_steps, B_issym, B_assumeb, B_clock, B_terminate, B_eqmem, B_param };
static std::map<std::string, int> bis = {
  {"_Znwm", B_new}, {"_Znam", B_new}, {"_ZnwmRKSt9nothrow_t", B_new}, {"_ZnamRKSt9nothrow_t", B_new}, {"_ZnwmSt11align_val_t", B_new}, {"_ZdlPv", B_delete}, {"_ZdlPvm", B_delete}, {"_ZdaPv", B_delete}, {"_ZdaPvm", B_delete}, {"_ZdlPvSt11align_val_t", B_delete}, {"_ZdlPvmSt11align_val_t", B_delete},
  {"malloc", B_malloc}, {"calloc", B_calloc}, {"realloc", B_realloc}, {"free", B_free}, {"memcpy", B_memcpy}, {"memmove", B_memcpy}, {"memset", B_memset}, {"memcmp", B_memcmp}, {"bcmp", B_bcmp}, {"memchr", B_memchr}, {"strlen", B_strlen}, {"strnlen", B_strnlen}, {"strcmp", B_strcmp}, {"strncmp", B_strncmp},
  {"abort", B_abort}, {"__assert_fail", B_assert}, {"_ZSt9terminatev", B_terminate}, {"__clang_call_terminate", B_terminate}, {"__cxa_pure_virtual", B_pure}, {"__cxa_allocate_exception", B_cxa_alloc_exc}, {"__cxa_throw", B_cxa_throw}, {"__cxa_rethrow", B_throw}, {"__cxa_begin_catch", B_begin_catch}, {"__cxa_end_catch", B_end_catch}, {"__cxa_free_exception", B_free_exc},
  {"vf_symbolic", B_sym}, {"vf_assume", B_assume}, {"vf_check", B_check}, {"vf_fail", B_fail}, {"vf_reach", B_reach}, {"vf_concretize", B_concretize}, {"vf_observe", B_observe}, {"vf_is_symbolic", B_issym}, {"vf_eqmem", B_eqmem}, {"vf_p", B_param},
  {"__cxa_guard_acquire", B_guard_acq}, {"__cxa_guard_release", B_guard_rel}, {"__cxa_atexit", B_ret0}, {"atexit", B_ret0}, {"pthread_mutex_lock", B_ret0}, {"pthread_mutex_unlock", B_ret0}, {"__errno_location", B_none},
  {"floor", B_mathd}, {"ceil", B_mathd}, {"trunc", B_mathd}, {"log10", B_mathd}, {"log2", B_mathd}, {"log", B_mathd}, {"exp", B_mathd}, {"sqrt", B_mathd}, {"round", B_mathd}, {"rint", B_mathd},
  {"pow", B_mathdd}, {"fmod", B_mathdd}, {"floorf", B_mathf}, {"ceilf", B_mathf}, {"roundf", B_mathf}, {"log10f", B_mathf},
  {"fprintf", B_ret0}, {"printf", B_ret0}, {"fputs", B_ret0}, {"fputc", B_ret0}, {"putc", B_ret0}, {"fwrite", B_ret0}, {"fflush", B_ret0}, {"puts", B_ret0}, {"putchar", B_ret0},
};
struct Decoder {
  Function &F; FnInfo *fi; std::unordered_map<const Value *, int> slot; std::unordered_map<const Constant *, int> cs; std::unordered_map<const BasicBlock *, uint32_t> bbpc;
  std::vector<std::pair<Edge *, const BasicBlock *>> fix;
  Decoder(Function &f, FnInfo *i) : F(f), fi(i) {}
  int op(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) {
      auto it = cs.find(c); if (it != cs.end()) return it->second;
      Layout *l = layout(c->getType()); int idx = (int)fi->consts.size(); fi->consts.resize(idx + std::max<size_t>(1, l->size())); fi->consts[idx] = cv(0);
      if (!l->empty()) evalConst(c, l, &fi->consts[idx]);
      return cs[c] = ~idx;
    }
    auto it = slot.find(v); if (it == slot.end()) { return ~0; }
    return it->second;
  }
  int newSlot(const Value *v) { int s = (int)fi->nslots; fi->nslots += (uint32_t)std::max<size_t>(1, layout(v->getType())->size()); slot[v] = s; return s; }
  Edge *edge(const BasicBlock *from, const BasicBlock *to) {
    Edge *e = new Edge; fix.push_back({e, to});
    for (auto &phi : to->phis()) { int s = op(phi.getIncomingValueForBlock(from)); int d = slot[&phi]; size_t n = layout(phi.getType())->size(); for (size_t i = 0; i < n; i++) e->copies.push_back({s >= 0 ? s + (int)i : ~(~s + (int)i), (uint32_t)(d + i)}); }
    return e;
  }
  static uint32_t leafIndex(Type *t, ArrayRef<unsigned> idx) {
    uint32_t k = 0;
    for (unsigned i : idx) {
      if (auto *st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) k += (uint32_t)layout(st->getElementType(j))->size(); t = st->getElementType(i); }
      else { auto *at = cast<ArrayType>(t); k += i * (uint32_t)layout(at->getElementType())->size(); t = at->getElementType(); }
    }
    return k;
  }
  void run() {
    for (auto &a : F.args()) { fi->params.push_back(newSlot(&a)); fi->paramL.push_back(layout(a.getType())); }
    for (auto &bb : F) for (auto &i : bb) if (!i.getType()->isVoidTy()) newSlot(&i);
    for (auto &bb : F) {
      bbpc[&bb] = (uint32_t)fi->code.size();
      for (auto &i : bb) { if (isa<PHINode>(i) || i.isDebugOrPseudoInst()) continue; Ins in; in.op = O_Unsup; in.I = &i; one(i, bb, in); fi->code.push_back(std::move(in)); }
    }
    for (auto &p : fix) p.first->target = bbpc[p.second];
  }
  void one(Instruction &i, BasicBlock &bb, Ins &in) {
    auto it = slot.find(&i); in.dst = it == slot.end() ? -1 : it->second;
    in.lay = layout(i.getType()); in.n = (uint32_t)in.lay->size(); if (in.n) in.w = (*in.lay)[0].w;
    if (auto *bo = dyn_cast<BinaryOperator>(&i)) {
      in.op = O_Bin; in.a = op(bo->getOperand(0)); in.b = op(bo->getOperand(1));
      switch (bo->getOpcode()) {
      case Instruction::Add: in.k = K_Add; break; case Instruction::Sub: in.k = K_Sub; break; case Instruction::Mul: in.k = K_Mul; break;
      case Instruction::UDiv: in.k = K_UDiv; break; case Instruction::SDiv: in.k = K_SDiv; break; case Instruction::URem: in.k = K_URem; break; case Instruction::SRem: in.k = K_SRem; break;
      case Instruction::And: in.k = K_And; break; case Instruction::Or: in.k = K_Or; break; case Instruction::Xor: in.k = K_Xor; break;
      case Instruction::Shl: in.k = K_Shl; break; case Instruction::LShr: in.k = K_LShr; break; case Instruction::AShr: in.k = K_AShr; break;
      case Instruction::FAdd: in.k = K_FAdd; break; case Instruction::FSub: in.k = K_FSub; break; case Instruction::FMul: in.k = K_FMul; break; case Instruction::FDiv: in.k = K_FDiv; break; case Instruction::FRem: in.k = K_FRem; break;
      default: in.op = O_Unsup;
      }
      if (in.n && (*in.lay)[0].fp && in.w != 64 && in.w != 32) in.op = O_Unsup;
      return;
    }
    if (auto *c = dyn_cast<ICmpInst>(&i)) {
      in.op = O_ICmp; in.a = op(c->getOperand(0)); in.b = op(c->getOperand(1)); in.w = (*layout(c->getOperand(0)->getType()))[0].w;
      bool sw = false, neg = false;
      switch (c->getPredicate()) {
      case CmpInst::ICMP_EQ: in.k = K_Eq; break; case CmpInst::ICMP_NE: in.k = K_Eq; neg = true; break;
      case CmpInst::ICMP_ULT: in.k = K_Ult; break; case CmpInst::ICMP_ULE: in.k = K_Ule; break; case CmpInst::ICMP_UGT: in.k = K_Ult; sw = true; break; case CmpInst::ICMP_UGE: in.k = K_Ule; sw = true; break;
      case CmpInst::ICMP_SLT: in.k = K_Slt; break; case CmpInst::ICMP_SLE: in.k = K_Sle; break; case CmpInst::ICMP_SGT: in.k = K_Slt; sw = true; break; default: in.k = K_Sle; sw = true; break;
      }
      if (sw) std::swap(in.a, in.b);
      in.flag = neg; return;
    }
    if (auto *c = dyn_cast<FCmpInst>(&i)) { in.op = O_FCmp; in.a = op(c->getOperand(0)); in.b = op(c->getOperand(1)); in.w = (*layout(c->getOperand(0)->getType()))[0].w; in.imm = (u64)c->getPredicate() & 15; if (in.w != 64 && in.w != 32) in.op = O_Unsup; return; }
    if (isa<FreezeInst>(i)) { in.op = O_Copy; in.a = op(i.getOperand(0)); return; }
    if (auto *u = dyn_cast<UnaryOperator>(&i)) { in.op = O_FNeg; in.a = op(u->getOperand(0)); return; }
    if (auto *c = dyn_cast<CastInst>(&i)) {
      in.a = op(c->getOperand(0)); in.lay2 = layout(c->getSrcTy()); in.w2 = (*in.lay2)[0].w; in.op = O_Cast;
      switch (c->getOpcode()) {
      case Instruction::ZExt: in.k = K_ZExt; break; case Instruction::SExt: in.k = K_SExt; break; case Instruction::Trunc: in.k = K_Extract; break;
      case Instruction::PtrToInt: case Instruction::IntToPtr: in.k = in.w < in.w2 ? K_Extract : K_ZExt; break;
      case Instruction::FPToSI: in.k = K_FToSI; break; case Instruction::FPToUI: in.k = K_FToUI; break; case Instruction::SIToFP: in.k = K_SIToF; break; case Instruction::UIToFP: in.k = K_UIToF; break;
      case Instruction::FPExt: case Instruction::FPTrunc: in.k = K_FConv; break;
      default: in.op = O_BitCast;
      }
      if (in.k >= K_FToSI && (in.w == 80 || in.w2 == 80)) in.op = O_Unsup;
      return;
    }
    if (auto *l = dyn_cast<LoadInst>(&i)) { in.op = O_Load; in.a = op(l->getPointerOperand()); in.imm = DL->getTypeStoreSize(l->getType()); if (auto *vt = dyn_cast<FixedVectorType>(l->getType())) if (DL->getTypeSizeInBits(vt->getElementType()) % 8) in.op = O_Unsup; return; }
    if (auto *s = dyn_cast<StoreInst>(&i)) { in.op = O_Store; in.a = op(s->getPointerOperand()); in.b = op(s->getValueOperand()); in.lay = layout(s->getValueOperand()->getType()); in.imm = DL->getTypeStoreSize(s->getValueOperand()->getType()); if (auto *vt = dyn_cast<FixedVectorType>(s->getValueOperand()->getType())) if (DL->getTypeSizeInBits(vt->getElementType()) % 8) in.op = O_Unsup; return; }
    if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
      in.op = O_GEP; in.a = op(g->getPointerOperand()); if (in.n != 1) { in.op = O_Unsup; return; }
      for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
        Value *ix = gti.getOperand();
        if (auto *st = gti.getStructTypeOrNull()) { in.imm += DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue()); continue; }
        u64 sz = DL->getTypeAllocSize(gti.getIndexedType());
        if (auto *ci = dyn_cast<ConstantInt>(ix)) { in.imm += (u64)(ci->getSExtValue() * (i64)sz); continue; }
        in.gep.push_back({op(ix), sz}); in.gepw.push_back((int)ix->getType()->getIntegerBitWidth());
      }
      return;
    }
    if (auto *a = dyn_cast<AllocaInst>(&i)) { in.op = O_Alloca; in.imm = DL->getTypeAllocSize(a->getAllocatedType()); in.a = op(a->getArraySize()); in.w2 = (uint16_t)a->getArraySize()->getType()->getIntegerBitWidth(); return; }
    if (auto *b = dyn_cast<BranchInst>(&i)) {
      if (b->isUnconditional()) { in.op = O_Br; in.e1 = edge(&bb, b->getSuccessor(0)); }
      else { in.op = O_CondBr; in.a = op(b->getCondition()); in.e1 = edge(&bb, b->getSuccessor(0)); in.e2 = edge(&bb, b->getSuccessor(1)); }
      return;
    }
    if (auto *s = dyn_cast<SwitchInst>(&i)) { in.op = O_Switch; in.a = op(s->getCondition()); in.w = (uint16_t)s->getCondition()->getType()->getIntegerBitWidth(); if (in.w > 64) { in.op = O_Unsup; return; } in.e1 = edge(&bb, s->getDefaultDest()); for (auto &c : s->cases()) in.cases.push_back({c.getCaseValue()->getZExtValue(), edge(&bb, c.getCaseSuccessor())}); return; }
    if (auto *r = dyn_cast<ReturnInst>(&i)) { in.op = O_Ret; if (r->getReturnValue()) { in.a = op(r->getReturnValue()); in.lay = layout(r->getReturnValue()->getType()); in.n = (uint32_t)in.lay->size(); } else in.n = 0; return; }
    if (isa<UnreachableInst>(i)) { in.op = O_Unreach; return; }
    if (auto *s = dyn_cast<SelectInst>(&i)) { in.op = O_Select; in.c = op(s->getCondition()); in.a = op(s->getTrueValue()); in.b = op(s->getFalseValue()); in.flag = s->getCondition()->getType()->isVectorTy(); return; }
    if (auto *e = dyn_cast<ExtractValueInst>(&i)) { in.op = O_ExtractV; in.a = op(e->getAggregateOperand()); in.imm = leafIndex(e->getAggregateOperand()->getType(), e->getIndices()); return; }
    if (auto *e = dyn_cast<InsertValueInst>(&i)) { in.op = O_InsertV; in.a = op(e->getAggregateOperand()); in.b = op(e->getInsertedValueOperand()); in.lay2 = layout(e->getInsertedValueOperand()->getType()); in.imm = leafIndex(e->getAggregateOperand()->getType(), e->getIndices()); return; }
    if (auto *e = dyn_cast<ExtractElementInst>(&i)) { in.op = O_ExtractE; in.a = op(e->getVectorOperand()); in.b = op(e->getIndexOperand()); in.w2 = (uint16_t)e->getIndexOperand()->getType()->getIntegerBitWidth(); in.imm = layout(e->getVectorOperand()->getType())->size(); return; }
    if (auto *e = dyn_cast<InsertElementInst>(&i)) { in.op = O_InsertE; in.a = op(e->getOperand(0)); in.b = op(e->getOperand(1)); in.c = op(e->getOperand(2)); in.w2 = (uint16_t)e->getOperand(2)->getType()->getIntegerBitWidth(); return; }
    if (auto *s = dyn_cast<ShuffleVectorInst>(&i)) { in.op = O_Shuffle; in.a = op(s->getOperand(0)); in.b = op(s->getOperand(1)); in.imm = layout(s->getOperand(0)->getType())->size(); for (int m : s->getShuffleMask()) in.mask.push_back(m); return; }
    if (auto *ar = dyn_cast<AtomicRMWInst>(&i)) { in.op = O_AtomicRMW; in.a = op(ar->getPointerOperand()); in.b = op(ar->getValOperand()); in.imm = DL->getTypeStoreSize(ar->getType()); switch (ar->getOperation()) { case AtomicRMWInst::Add: in.k = K_Add; break; case AtomicRMWInst::Sub: in.k = K_Sub; break; case AtomicRMWInst::And: in.k = K_And; break; case AtomicRMWInst::Or: in.k = K_Or; break; default: in.op = O_Unsup; } return; }
    if (isa<FenceInst>(i)) { in.op = O_Copy; in.n = 0; in.a = ~0; if (fi->consts.empty()) fi->consts.push_back(cv(0)); return; }
    if (isa<LandingPadInst>(i)) { in.op = O_LandingPad; return; }
    if (isa<ResumeInst>(i)) { in.op = O_Resume; in.a = op(i.getOperand(0)); return; }
    if (auto *cb = dyn_cast<CallBase>(&i)) {
      in.op = O_Call; if (auto *iv = dyn_cast<InvokeInst>(&i)) { in.op = O_Invoke; in.e1 = edge(&bb, iv->getNormalDest()); in.e2 = edge(&bb, iv->getUnwindDest()); }
      if (cb->isInlineAsm()) { in.op = O_Unsup; return; }
      for (unsigned k = 0; k < cb->arg_size(); k++) { Value *v = cb->getArgOperand(k); if (v->getType()->isMetadataTy()) { in.args.push_back(0); in.argl.push_back(layout(Type::getVoidTy(M->getContext()))); in.byval.push_back(0); continue; } in.args.push_back(op(v)); in.argl.push_back(layout(v->getType())); in.byval.push_back(cb->isByValArgument(k) ? (u64)DL->getTypeAllocSize(cb->getParamByValType(k)) : 0); }
      Value *cv_ = cb->getCalledOperand()->stripPointerCasts();
      if (auto *ga = dyn_cast<GlobalAlias>(cv_)) cv_ = ga->getAliaseeObject();
      in.callee = dyn_cast<Function>(cv_);
      if (!in.callee) in.c = op(cb->getCalledOperand());
      else in.builtin = builtinOf(in.callee);
      return;
    }
  }
  static int builtinOf(Function *f) {
    if (f->isIntrinsic()) return 100000 + (int)f->getIntrinsicID();
    std::string n = f->getName().str();
    auto it = bis.find(n); if (it != bis.end() && it->second != B_none) return it->second;
    if (!f->isDeclaration()) return -1;
    if (n.compare(0, 10, "_ZSt19__th") == 0 || n.find("__throw_") != std::string::npos) return B_throw;
    return -2;
  }
};
static FnInfo *getFn(Function *f) {
  auto &p = fnInfo[f]; if (p) return p;
  FnInfo *fi = new FnInfo; fi->F = f; p = fi; if (!f->isDeclaration()) { Decoder d(*f, fi); d.run(); } return fi;
}
