  // ------------------------------------------------ IR -> compact code (members of Exec)
  void leaves(Type* t, uint64_t off, std::vector<TyI>& out) {
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) leaves(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
    if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); ++i) leaves(at->getElementType(), off + i * es, out); return; }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeAllocSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); ++i) leaves(vt->getElementType(), off + i * es, out); return; }
    if (t->isVoidTy()) return;
    TyI x = tyi(t); x.off = off; out.push_back(x);
  }
  std::vector<TyI> leaves(Type* t) { std::vector<TyI> v; leaves(t, 0, v); return v; }
  uint32_t externFn(const S& n) { auto it = extFn.find(n); if (it != extFn.end()) return it->second; return 0; }
  uint64_t constInt(Constant* c, std::vector<Val>& out) { (void)c; (void)out; return 0; }
  uint64_t gaddr(GlobalValue* g) { if (auto* a = dyn_cast<GlobalAlias>(g)) { if (auto* go = dyn_cast<GlobalValue>(a->getAliasee()->stripPointerCasts())) return gaddr(go); } auto it = gid.find(g); if (it == gid.end()) { fprintf(stderr, "no gid for %s\n", g->getName().str().c_str()); abort(); } return (uint64_t)it->second << 32; }
  void constVals(Constant* c, std::vector<Val>& out) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) { Val v; if (ci->getBitWidth() <= 64) v.c = ci->getZExtValue(); else { i128 x = (i128)(((u128)ci->getValue().getRawData()[1] << 64) | ci->getValue().getRawData()[0]); v.e = mkC(x, 128); } out.push_back(v); return; }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { Val v; if (cf->getType()->isDoubleTy()) { double d = cf->getValueAPF().convertToDouble(); memcpy(&v.c, &d, 8); } else if (cf->getType()->isFloatTy()) { float f = cf->getValueAPF().convertToFloat(); uint32_t u; memcpy(&u, &f, 4); v.c = u; } out.push_back(v); return; }
    if (auto* g = dyn_cast<GlobalValue>(c)) { out.push_back(Val{gaddr(g), nullptr}); return; }
    if (isa<ConstantPointerNull>(c)) { out.push_back(Val{}); return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { auto l = leaves(c->getType()); for (size_t i = 0; i < l.size(); ++i) out.push_back(Val{}); return; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); ++i) constVals(cd->getElementAsConstant(i), out); return; }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); ++i) constVals(ca->getOperand(i), out); return; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      std::vector<Val> a; 
      switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); auto* gep = cast<GEPOperator>(ce); std::vector<Val> b; constVals(cast<Constant>(gep->getPointerOperand()), b); if (!gep->accumulateConstantOffset(*DL, off)) abort(); out.push_back(Val{addOff(b[0].c, off.getSExtValue()), nullptr}); return; }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: constVals(ce->getOperand(0), a); out.push_back(a[0]); return;
        case Instruction::Sub: { std::vector<Val> b; constVals(ce->getOperand(0), a); constVals(ce->getOperand(1), b); out.push_back(Val{a[0].c - b[0].c, nullptr}); return; }
        case Instruction::Add: { std::vector<Val> b; constVals(ce->getOperand(0), a); constVals(ce->getOperand(1), b); out.push_back(Val{a[0].c + b[0].c, nullptr}); return; }
        case Instruction::Trunc: { constVals(ce->getOperand(0), a); out.push_back(Val{maskw(a[0].c, ce->getType()->getIntegerBitWidth()), nullptr}); return; }
        default: break;
      }
    }
    S s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "unsupported constant %s\n", os.str().c_str()); auto l = leaves(c->getType()); for (size_t i = 0; i < l.size(); ++i) out.push_back(Val{});
  }
  static uint64_t addOff(uint64_t p, int64_t o) { // offsets stay within the low 32 bits so that object ids are preserved
    if ((p >> 32) == 0) return p + o; return (p & 0xffffffff00000000ull) | (uint32_t)((uint32_t)p + (uint32_t)o);
  }
  void initGlobal(State& s, uint64_t addr, Constant* c) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    std::vector<Val> v; constVals(c, v); auto l = leaves(c->getType()); for (size_t i = 0; i < l.size(); ++i) if (v[i].c) { Obj* o = s.mem.wr(addr >> 32); memcpy(&o->data[l[i].off], &v[i].c, (l[i].w + 7) / 8); }
  }
  static Builtin findBuiltin(const S& n);
  void setup(State& s) {
    gid.clear();
    for (auto& g : M->globals()) { uint64_t sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()) : 64; if (g.isDeclaration()) sz = std::max<uint64_t>(sz, 256); uint64_t a = newObj(s, sz, 0, false); gid[&g] = a >> 32; idGV[a >> 32] = &g; }
    for (auto& f : M->functions()) { uint64_t a = newObj(s, 16, 3, false); gid[&f] = a >> 32; Func* fn = new Func(); fn->F = &f; fn->name = f.getName().str(); fn->id = a >> 32; funcs[&f] = fn; idFunc[a >> 32] = fn; }
    for (auto& g : M->globals()) if (g.hasInitializer()) initGlobal(s, gaddr(&g), g.getInitializer());
    for (auto& g : M->globals()) if (g.isConstant() && g.hasInitializer()) s.mem.wr(gid[&g])->ro = true;
  }
  int opnd(Func* f, Value* v, std::unordered_map<Value*, int>& rm) {
    auto it = rm.find(v); if (it != rm.end()) return it->second;
    if (auto* c = dyn_cast<Constant>(v)) { int base = f->consts.size(); constVals(c, f->consts); int r = -(base + 1); rm[v] = r; return r; }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return 0;
    fprintf(stderr, "operand not found\n"); abort();
  }
  // lanes of a constant operand: -(base+1) - lane ; of a register: r + lane
  static int lane(int op, int l) { return op >= 0 ? op + l : op - l; }

  void compile(Func* f) {
    if (f->compiled) return; f->compiled = true; Function* F = f->F; std::unordered_map<Value*, int> rm; uint32_t nr = 0;
    for (auto& a : F->args()) { auto l = leaves(a.getType()); rm[&a] = nr; nr += l.size(); for (auto& t : l) f->argTy.push_back(t); }
    for (auto& bb : *F) for (auto& I : bb) if (!I.getType()->isVoidTy()) { rm[&I] = nr; nr += std::max<size_t>(1, leaves(I.getType()).size()); }
    std::unordered_map<BasicBlock*, uint32_t> start; uint32_t pc = 0;
    for (auto& bb : *F) { start[&bb] = pc; for (auto& I : bb) { if (isa<PHINode>(I)) continue; ++pc; } }
    f->nreg = nr;
    auto edge = [&](BasicBlock* from, BasicBlock* to) { Edge e; e.pc = start[to]; std::set<int> dsts; for (auto& I : *to) { auto* p = dyn_cast<PHINode>(&I); if (!p) break; Value* v = p->getIncomingValueForBlock(from); size_t n = leaves(p->getType()).size(); int d = rm[p]; if (isa<UndefValue>(v)) { continue; } int so = opnd(f, v, rm); for (size_t i = 0; i < n; ++i) { e.cp.emplace_back(d + i, lane(so, i)); } }
      for (auto& c : e.cp) { for (auto& k : e.cp) if (&k != &c && k.second == c.first) e.par = true; } return e; };
    auto addEdge = [&](BasicBlock* a, BasicBlock* b) { f->edges.push_back(edge(a, b)); return (uint32_t)f->edges.size() - 1; };
    for (auto& bb : *F) for (auto& I : bb) {
      if (isa<PHINode>(I)) continue;
      Inst x; memset(&x, 0, sizeof x); x.op = I_UNSUP; x.lanes = 1; if (!I.getType()->isVoidTy()) x.dst = rm[&I];
      auto op = [&](unsigned i) { return opnd(f, I.getOperand(i), rm); };
      auto addTy = [&](Type* t) { f->tys.push_back(leaves(t)); return (uint32_t)f->tys.size() - 1; };
      if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
        auto l = leaves(I.getType()); x.lanes = l.size(); x.w = l[0].w; x.a = op(0); x.b = op(1); x.fl = l[0].f32; x.op = I_BIN;
        switch (bo->getOpcode()) { case Instruction::Add: x.sub = ADD; break; case Instruction::Sub: x.sub = SUB; break; case Instruction::Mul: x.sub = MUL; break; case Instruction::UDiv: x.sub = UDIV; break; case Instruction::SDiv: x.sub = SDIV; break; case Instruction::URem: x.sub = UREM; break; case Instruction::SRem: x.sub = SREM; break; case Instruction::And: x.sub = AND; break; case Instruction::Or: x.sub = OR; if (auto* pd = dyn_cast<PossiblyDisjointInst>(&I)) if (pd->isDisjoint()) x.sub = ADD; break; case Instruction::Xor: x.sub = XOR; break; case Instruction::Shl: x.sub = SHL; break; case Instruction::LShr: x.sub = LSHR; break; case Instruction::AShr: x.sub = ASHR; break;
          case Instruction::FAdd: x.op = I_FBIN; x.sub = FADD; break; case Instruction::FSub: x.op = I_FBIN; x.sub = FSUB; break; case Instruction::FMul: x.op = I_FBIN; x.sub = FMUL; break; case Instruction::FDiv: x.op = I_FBIN; x.sub = FDIV; break; default: x.op = I_UNSUP; }
        if (l[0].w > 64 && l[0].fp) x.op = I_UNSUP;
      } else if (auto* c = dyn_cast<ICmpInst>(&I)) { auto l = leaves(I.getOperand(0)->getType()); x.op = I_ICMP; x.sub = c->getPredicate(); x.w = l[0].w; x.lanes = l.size(); x.a = op(0); x.b = op(1);
      } else if (auto* c = dyn_cast<FCmpInst>(&I)) { auto l = leaves(I.getOperand(0)->getType()); x.op = l[0].w > 64 ? I_UNSUP : I_FCMP; x.sub = c->getPredicate(); x.fl = l[0].f32; x.lanes = l.size(); x.a = op(0); x.b = op(1);
      } else if (auto* c = dyn_cast<CastInst>(&I)) { auto a = leaves(I.getOperand(0)->getType()), b = leaves(I.getType()); x.op = I_CAST; x.sub = c->getOpcode(); x.w = b[0].w; x.w2 = a[0].w; x.fl = (a[0].f32 ? 1 : 0) | (b[0].f32 ? 2 : 0) | (a[0].fp ? 4 : 0) | (b[0].fp ? 8 : 0); x.lanes = b.size(); x.a = op(0); if (a.size() != b.size() || (a[0].fp && a[0].w > 64) || (b[0].fp && b[0].w > 64)) x.op = I_UNSUP;
      } else if (isa<SelectInst>(I)) { auto l = leaves(I.getType()); x.op = I_SELECT; x.lanes = l.size(); x.a = op(0); x.b = op(1); x.c = op(2); x.aux = addTy(I.getType()); x.fl = I.getOperand(0)->getType()->isVectorTy();
      } else if (auto* ld = dyn_cast<LoadInst>(&I)) { x.op = I_LOAD; x.a = op(0); x.aux = addTy(I.getType()); x.lanes = f->tys[x.aux].size(); (void)ld;
      } else if (isa<StoreInst>(I)) { x.op = I_STORE; x.a = op(0); x.b = op(1); x.aux = addTy(I.getOperand(0)->getType()); x.lanes = f->tys[x.aux].size();
      } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        Gep G; G.base = op(0); G.off = 0; bool bad = I.getType()->isVectorTy();
        for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e && !bad; ++gti) { Value* ix = gti.getOperand(); if (StructType* st = gti.getStructTypeOrNull()) { G.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; } int64_t sc = DL->getTypeAllocSize(gti.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(ix)) G.off += ci->getSExtValue() * sc; else G.idx.emplace_back(opnd(f, ix, rm), ix->getType()->getIntegerBitWidth(), sc); }
        if (!bad) { x.op = I_GEP; f->geps.push_back(G); x.aux = f->geps.size() - 1; }
      } else if (auto* al = dyn_cast<AllocaInst>(&I)) { x.op = I_ALLOCA; x.aux = DL->getTypeAllocSize(al->getAllocatedType()); x.a = op(0); x.w = al->getArraySize()->getType()->getIntegerBitWidth();
      } else if (auto* br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) { x.op = I_CBR; x.a = op(0); x.b = addEdge(&bb, br->getSuccessor(0)); x.c = addEdge(&bb, br->getSuccessor(1)); } else { x.op = I_BR; x.b = addEdge(&bb, br->getSuccessor(0)); }
      } else if (auto* sw = dyn_cast<SwitchInst>(&I)) { Func::Sw S; S.v = op(0); S.w = sw->getCondition()->getType()->getIntegerBitWidth(); for (auto c : sw->cases()) S.cs.emplace_back(c.getCaseValue()->getZExtValue(), addEdge(&bb, c.getCaseSuccessor())); S.def = addEdge(&bb, sw->getDefaultDest()); f->sws.push_back(S); x.op = I_SWITCH; x.aux = f->sws.size() - 1;
      } else if (isa<ReturnInst>(I)) { x.op = I_RET; if (I.getNumOperands()) { x.a = op(0); x.lanes = leaves(I.getOperand(0)->getType()).size(); } else x.lanes = 0;
      } else if (isa<UnreachableInst>(I)) { x.op = I_UNREACH;
      } else if (auto* cb = dyn_cast<CallBase>(&I)) {
        CallInfo* ci = new CallInfo(); if (!I.getType()->isVoidTy()) ci->ret = leaves(I.getType());
        Value* cv = cb->getCalledOperand()->stripPointerCasts(); Function* cf = dyn_cast<Function>(cv); if (auto* ga = dyn_cast<GlobalAlias>(cv)) cf = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
        if (cf) { ci->name = cf->getName().str(); ci->intr = cf->getIntrinsicID(); if (cf->isDeclaration()) ci->b = findBuiltin(ci->name); else ci->f = funcs[cf]; } else if (isa<InlineAsm>(cv)) { ci->name = "asm"; } else ci->callee = opnd(f, cv, rm);
        unsigned ai = 0; for (auto& a : cb->args()) { Value* v = a.get(); if (v->getType()->isMetadataTy()) { ++ai; continue; } auto l = leaves(v->getType()); if (cb->isByValArgument(ai)) ci->byval.emplace_back((int)ci->args.size(), (uint32_t)DL->getTypeAllocSize(cb->getParamByValType(ai))); ci->args.push_back({opnd(f, v, rm), (uint16_t)l.size()}); for (auto& t : l) ci->argTy.push_back(t); ++ai; }
        if (auto* iv = dyn_cast<InvokeInst>(&I)) { ci->invoke = true; ci->normal = edge(&bb, iv->getNormalDest()); ci->unwind = edge(&bb, iv->getUnwindDest()); auto* lp = iv->getLandingPadInst(); Lpad L; L.cleanup = lp->isCleanup(); for (unsigned i = 0; i < lp->getNumClauses(); ++i) { LpClause c; Constant* k = lp->getClause(i); if (lp->isCatch(i)) { c.kind = 0; auto* g = dyn_cast<GlobalValue>(k->stripPointerCasts()); c.ti = g ? gaddr(g) >> 32 : 0; } else { c.kind = 1; c.ti = 0; if (auto* ca = dyn_cast<ConstantArray>(k)) for (unsigned j = 0; j < ca->getNumOperands(); ++j) { auto* g = dyn_cast<GlobalValue>(ca->getOperand(j)->stripPointerCasts()); c.filt.push_back(g ? gaddr(g) >> 32 : 0); } } L.cl.push_back(c); } f->lpads.push_back(L); ci->lpad = f->lpads.size() - 1; }
        f->calls.push_back(ci); x.op = I_CALL; x.aux = f->calls.size() - 1;
        if (isa<DbgInfoIntrinsic>(I)) { x.op = I_MOVE; x.lanes = 0; }
      } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { x.op = I_EXTRACT; x.a = lane(op(0), aggIndex(ev->getAggregateOperand()->getType(), ev->getIndices())); x.lanes = leaves(I.getType()).size();
      } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) { x.op = I_INSERT; x.a = op(0); x.b = op(1); x.c = aggIndex(I.getType(), iv->getIndices()); x.lanes = leaves(I.getType()).size(); x.w = leaves(I.getOperand(1)->getType()).size();
      } else if (isa<LandingPadInst>(I)) { x.op = I_LPAD;
      } else if (isa<ResumeInst>(I)) { x.op = I_RESUME; x.a = op(0);
      } else if (I.getOpcode() == Instruction::FNeg) { x.op = I_FNEG; x.a = op(0); x.lanes = leaves(I.getType()).size(); x.fl = leaves(I.getType())[0].f32;
      } else if (isa<FreezeInst>(I)) { x.op = I_MOVE; x.a = op(0); x.lanes = leaves(I.getType()).size();
      } else if (isa<ExtractElementInst>(I)) { if (auto* c = dyn_cast<ConstantInt>(I.getOperand(1))) { x.op = I_MOVE; x.a = lane(op(0), c->getZExtValue()); } 
      } else if (isa<InsertElementInst>(I)) { if (auto* c = dyn_cast<ConstantInt>(I.getOperand(2))) { x.op = I_INSERT; x.a = op(0); x.b = op(1); x.c = c->getZExtValue(); x.lanes = leaves(I.getType()).size(); x.w = 1; }
      } else if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) { std::vector<int> l; int n0 = leaves(sv->getOperand(0)->getType()).size(); int a = op(0), b = op(1); for (int m : sv->getShuffleMask()) l.push_back(m < 0 ? lane(a, 0) : m < n0 ? lane(a, m) : lane(b, m - n0)); f->lists.push_back(l); x.op = I_SHUFFLE; x.aux = f->lists.size() - 1; x.lanes = l.size();
      } else if (auto* rmw = dyn_cast<AtomicRMWInst>(&I)) { x.op = I_ATOMIC; x.sub = rmw->getOperation(); x.a = op(0); x.b = op(1); x.w = I.getType()->getIntegerBitWidth();
      } else if (isa<AtomicCmpXchgInst>(I)) { x.op = I_CMPXCHG; x.a = op(0); x.b = op(1); x.c = op(2); x.w = I.getOperand(1)->getType()->isPointerTy() ? 64 : I.getOperand(1)->getType()->getIntegerBitWidth();
      } else if (isa<FenceInst>(I)) { x.op = I_MOVE; x.lanes = 0; }
      f->code.push_back(x); f->src.push_back(&I);
    }
    f->cov.assign(f->code.size(), false);
  }
  int aggIndex(Type* t, ArrayRef<unsigned> ix) { int r = 0; for (unsigned i : ix) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; ++k) r += leaves(st->getElementType(k)).size(); t = st->getElementType(i); } else { Type* et = cast<ArrayType>(t)->getElementType(); r += i * leaves(et).size(); t = et; } } return r; }
