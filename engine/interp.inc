  // ------------------------------------------------ interpreter (members of Exec)
  static uint64_t sx(uint64_t v, int w) { if (w >= 64) return v; uint64_t m = 1ull << (w - 1); v = maskw(v, w); return (v ^ m) - m; }
  Val& R(Frame& f, int op) { return op >= 0 ? f.r[op] : f.f->consts[-op - 1]; }
  void takeEdge(Frame& f, const Edge& e) {
    if (!e.par) { for (auto& c : e.cp) f.r[c.first] = R(f, c.second); }
    else { std::vector<Val> t; t.reserve(e.cp.size()); for (auto& c : e.cp) t.push_back(R(f, c.second)); for (size_t i = 0; i < t.size(); ++i) f.r[e.cp[i].first] = t[i]; }
    f.pc = e.pc;
  }
  static double D(uint64_t c) { double d; memcpy(&d, &c, 8); return d; } static uint64_t U(double d) { uint64_t c; memcpy(&c, &d, 8); return c; }
  static float Fl(uint64_t c) { float d; uint32_t u = (uint32_t)c; memcpy(&d, &u, 4); return d; } static uint64_t UF32(float d) { uint32_t c; memcpy(&c, &d, 4); return c; }
  Val fbin(int op, const Val& a, const Val& b, bool f32) {
    Val r;
    if (!a.e && !b.e) {
      if (f32) { float x = Fl(a.c), y = Fl(b.c); r.c = UF32(op == FADD ? x + y : op == FSUB ? x - y : op == FMUL ? x * y : x / y); return r; }
      double x = D(a.c), y = D(b.c); r.c = U(op == FADD ? x + y : op == FSUB ? x - y : op == FMUL ? x * y : x / y); return r;
    }
    if (f32) throw PathEnd{"unsupported:float"};
    Val q = fromE(mkF((Op)op, toF(a), toF(b))); if (spec && O.merge < 3 && op == FDIV && q.e && !q.e->fin) throw SpecFail{}; return q;
  }
  E fcmpE(unsigned p, E a, E b) {
    auto uno = [&]() -> E { E r = mkFalse(); for (E x : {a, b}) { if (x->isFC()) { if (std::isnan(x->d)) r = mkTrue(); } else if (!x->fin) r = mkBin(OR, r, raw(FISNAN, 1, false, {x}, 0, 0, [](Expr* e) { e->lo = 0; e->hi = 1; })); } return r; };
    switch (p) {
      case CmpInst::FCMP_FALSE: return mkFalse(); case CmpInst::FCMP_TRUE: return mkTrue();
      case CmpInst::FCMP_OEQ: return mkFCmp(FEQ, a, b); case CmpInst::FCMP_UNE: return mkNot(mkFCmp(FEQ, a, b));
      case CmpInst::FCMP_OLT: return mkFCmp(FLT, a, b); case CmpInst::FCMP_OGT: return mkFCmp(FLT, b, a); case CmpInst::FCMP_OLE: return mkFCmp(FLE, a, b); case CmpInst::FCMP_OGE: return mkFCmp(FLE, b, a);
      case CmpInst::FCMP_UGE: return mkNot(mkFCmp(FLT, a, b)); case CmpInst::FCMP_ULE: return mkNot(mkFCmp(FLT, b, a)); case CmpInst::FCMP_UGT: return mkNot(mkFCmp(FLE, a, b)); case CmpInst::FCMP_ULT: return mkNot(mkFCmp(FLE, b, a));
      case CmpInst::FCMP_UNO: return uno(); case CmpInst::FCMP_ORD: return mkNot(uno());
      case CmpInst::FCMP_ONE: return mkBin(OR, mkFCmp(FLT, a, b), mkFCmp(FLT, b, a)); case CmpInst::FCMP_UEQ: return mkNot(mkBin(OR, mkFCmp(FLT, a, b), mkFCmp(FLT, b, a)));
    }
    return mkFalse();
  }
  static bool fcmpC(unsigned p, double x, double y) {
    bool un = std::isnan(x) || std::isnan(y);
    switch (p) { case CmpInst::FCMP_FALSE: return false; case CmpInst::FCMP_TRUE: return true; case CmpInst::FCMP_OEQ: return x == y; case CmpInst::FCMP_UNE: return x != y; case CmpInst::FCMP_OLT: return x < y; case CmpInst::FCMP_OGT: return x > y; case CmpInst::FCMP_OLE: return x <= y; case CmpInst::FCMP_OGE: return x >= y; case CmpInst::FCMP_UGE: return !(x < y); case CmpInst::FCMP_ULE: return !(x > y); case CmpInst::FCMP_UGT: return !(x <= y); case CmpInst::FCMP_ULT: return !(x >= y); case CmpInst::FCMP_UNO: return un; case CmpInst::FCMP_ORD: return !un; case CmpInst::FCMP_ONE: return !un && x != y; case CmpInst::FCMP_UEQ: return un || x == y; } return false;
  }
  Val icmp(unsigned p, const Val& a, const Val& b, int w) {
    Val r;
    if (!a.e && !b.e) {
      uint64_t x = a.c, y = b.c; int64_t sxx = (int64_t)sx(x, w), syy = (int64_t)sx(y, w); bool v = false; if (w == 1) { sxx = x ? -1 : 0; syy = y ? -1 : 0; }
      switch (p) { case CmpInst::ICMP_EQ: v = x == y; break; case CmpInst::ICMP_NE: v = x != y; break; case CmpInst::ICMP_UGT: v = x > y; break; case CmpInst::ICMP_UGE: v = x >= y; break; case CmpInst::ICMP_ULT: v = x < y; break; case CmpInst::ICMP_ULE: v = x <= y; break; case CmpInst::ICMP_SGT: v = sxx > syy; break; case CmpInst::ICMP_SGE: v = sxx >= syy; break; case CmpInst::ICMP_SLT: v = sxx < syy; break; case CmpInst::ICMP_SLE: v = sxx <= syy; break; }
      r.c = v; return r;
    }
    E x = toI(a, w), y = toI(b, w), q;
    switch (p) { case CmpInst::ICMP_EQ: q = mkCmp(EQ, x, y); break; case CmpInst::ICMP_NE: q = mkNot(mkCmp(EQ, x, y)); break; case CmpInst::ICMP_UGT: q = mkCmp(ULT, y, x); break; case CmpInst::ICMP_UGE: q = mkCmp(ULE, y, x); break; case CmpInst::ICMP_ULT: q = mkCmp(ULT, x, y); break; case CmpInst::ICMP_ULE: q = mkCmp(ULE, x, y); break; case CmpInst::ICMP_SGT: q = mkCmp(SLT, y, x); break; case CmpInst::ICMP_SGE: q = mkCmp(SLE, y, x); break; case CmpInst::ICMP_SLT: q = mkCmp(SLT, x, y); break; default: q = mkCmp(SLE, x, y); }
    return fromE(q);
  }
  Val bin(State& s, int op, const Val& a, const Val& b, int w) {
    Val r;
    if (!a.e && !b.e && w <= 64) {
      uint64_t x = a.c, y = b.c; int64_t X = (int64_t)sx(x, w), Y = (int64_t)sx(y, w); uint64_t v = 0;
      switch (op) {
        case ADD: v = x + y; break; case SUB: v = x - y; break; case MUL: v = x * y; break;
        case UDIV: case UREM: case SDIV: case SREM: if (maskw(y, w) == 0) throw MemErr{"integer division by zero"}; if (op == UDIV) v = x / y; else if (op == UREM) v = x % y; else { if (Y == -1) { if (w >= 32 && X == (int64_t)(1ull << (w - 1) | (w < 64 ? ~0ull << (w - 1) : 0))) throw MemErr{"integer division overflow"}; v = op == SDIV ? -X : 0; } else v = op == SDIV ? X / Y : X % Y; } break;
        case AND: v = x & y; break; case OR: v = x | y; break; case XOR: v = x ^ y; break;
        case SHL: v = y >= (uint64_t)w ? 0 : x << y; break; case LSHR: v = y >= (uint64_t)w ? 0 : x >> y; break; case ASHR: v = y >= (uint64_t)w ? (X < 0 ? ~0ull : 0) : (uint64_t)(X >> y); break;
      }
      r.c = maskw(v, w); return r;
    }
    E x = toI(a, w), y = toI(b, w);
    if (op == UDIV || op == SDIV || op == UREM || op == SREM) { E z = mkCmp(EQ, y, mkC(0, w)); if (!z->isC() || z->c) { if (decide(s, z, nullptr)) throw MemErr{"integer division by zero"}; } }
    return fromE(mkBin((Op)op, x, y));
  }
  Val doCast(State& s, const Inst& I, const Val& a) {
    Val r; int w = I.w, sw = I.w2;
    switch (I.sub) {
      case Instruction::ZExt: if (!a.e) { r.c = a.c; if (w > 64) { r.c = 0; r.e = mkC((i128)(u128)a.c, w); } return r; } return fromE(mkExt(ZEXT, toI(a, sw), w));
      case Instruction::SExt: if (!a.e) { if (w > 64) { r.e = mkC(sext128(a.c, sw), w); return r; } r.c = sw == 1 ? (a.c ? maskw(~0ull, w) : 0) : maskw(sx(a.c, sw), w); return r; } return fromE(mkExt(SEXT, toI(a, sw), w));
      case Instruction::Trunc: if (!a.e) { r.c = maskw(a.c, w); return r; } return fromE(mkExt(TRUNC, toI(a, sw), w));
      case Instruction::PtrToInt: if (w == 64) return a; if (!a.e) { r.c = maskw(a.c, w); return r; } return fromE(mkExt(TRUNC, toI(a, 64), w));
      case Instruction::IntToPtr: if (sw == 64) return a; if (!a.e) { r.c = a.c; return r; } return fromE(mkExt(ZEXT, toI(a, sw), 64));
      case Instruction::BitCast: if (!a.e) return a; if ((I.fl & 4) && !(I.fl & 8)) { r.e = toI(a, 64); return r; } if (!(I.fl & 4) && (I.fl & 8)) { r.e = toF(a); return r; } return a;
      case Instruction::SIToFP: if (!a.e) { int64_t v = sw == 1 ? (a.c ? -1 : 0) : (int64_t)sx(a.c, sw); r.c = (I.fl & 2) ? UF32((float)v) : U((double)v); return r; } if (I.fl & 2) { r.c = UF32((float)(int64_t)sx(concI(s, a, sw, "float"), sw)); return r; } return fromE(mkF(SITOFP, toI(a, sw)));
      case Instruction::UIToFP: if (!a.e) { r.c = (I.fl & 2) ? UF32((float)a.c) : U((double)a.c); return r; } if (I.fl & 2) { r.c = UF32((float)concI(s, a, sw, "float")); return r; } return fromE(mkF(UITOFP, toI(a, sw)));
      case Instruction::FPToSI: case Instruction::FPToUI: {
        bool sg = I.sub == Instruction::FPToSI;
        if (!a.e) { double x = (I.fl & 1) ? Fl(a.c) : D(a.c); double lo = sg ? -std::ldexp(1.0, w - 1) : 0, hi = sg ? std::ldexp(1.0, w - 1) : std::ldexp(1.0, w); double t = std::trunc(x); if (std::isnan(x) || t >= hi || t < lo) r.c = maskw(1ull << (w - 1), w); else r.c = sg ? maskw((uint64_t)(int64_t)t, w) : maskw((uint64_t)t, w); return r; }
        E x = toF(a); if (x->op == FDY) { E q = mkBin(SDIV, x->a[0], mkC((i128)1 << (int)x->c, 128)); if (sg ? (q->lo >= smin(w) && q->hi <= smax(w)) : (q->lo >= 0 && q->hi < ((i128)1 << w))) return fromE(mkExt(TRUNC, q, w)); 
          E in = sg ? mkBin(AND, mkCmp(SLE, mkC(smin(w), 128), q), mkCmp(SLE, q, mkC(smax(w), 128))) : mkBin(AND, mkCmp(SLE, mkC(0, 128), q), mkCmp(SLT, q, mkC((i128)1 << w, 128))); return fromE(mkIte(in, mkExt(TRUNC, q, w), mkC(smin(w), w))); }
        return fromE(raw(sg ? FPTOSI : FPTOUI, w, false, {x}, 0, 0, [&](Expr* e) { if (x->fin && x->flo > -9e18 && x->fhi < 9e18) { i128 l = (i128)std::trunc(x->flo), h = (i128)std::trunc(x->fhi); if (sg ? (l >= smin(w) && h <= smax(w)) : (l >= 0 && h <= smax(w))) { e->lo = l; e->hi = h; } } e->hasFP = true; })); }
      case Instruction::FPExt: if (!a.e) { r.c = U((double)Fl(a.c)); return r; } { float f = (float)concF(s, a, "float"); r.c = U((double)f); return r; }
      case Instruction::FPTrunc: if (!a.e) { r.c = UF32((float)D(a.c)); return r; } r.c = UF32((float)concF(s, a, "float")); return r;
    }
    throw PathEnd{"unsupported:cast"};
  }
  uint64_t ptrOf(State& s, Frame& f, int op) { Val& v = R(f, op); if (!v.e) return v.c; return concretize(s, v, 64); }
  // fork pattern: anything that may fork (decide/concretize) is evaluated before side effects of the instruction

  void enter(State& s, Func* f, std::vector<Val>& args, uint32_t retDst) {
    compile(f); if (s.st.size() > 4000) throw MemErr{"stack overflow (recursion depth)"};
    Frame fr; fr.f = f; fr.pc = 0; fr.r.resize(f->nreg); for (size_t i = 0; i < args.size() && i < f->argTy.size(); ++i) fr.r[i] = args[i]; fr.retDst = retDst; s.st.push_back(std::move(fr));
  }
  void popFrame(State& s) { Frame& f = s.st.back(); for (uint32_t a : f.allocas) killStack(s, a); s.st.pop_back(); }
  uint32_t tiParent(uint32_t ti, std::vector<uint32_t>& all) { // collect base classes
    auto it = idGV.find(ti); if (it == idGV.end() || !it->second->hasInitializer()) return 0; auto* c = dyn_cast<ConstantAggregate>(it->second->getInitializer()); if (!c) return 0;
    for (unsigned i = 2; i < c->getNumOperands(); ++i) if (auto* g = dyn_cast<GlobalValue>(c->getOperand(i)->stripPointerCasts())) { uint32_t id = gaddr(g) >> 32; all.push_back(id); tiParent(id, all); }
    return 0;
  }
  std::map<std::pair<uint32_t, uint32_t>, bool> tiCache;
  bool tiMatch(uint32_t thrown, uint32_t clause) { if (clause == 0 || thrown == clause) return true; auto k = std::make_pair(thrown, clause); auto it = tiCache.find(k); if (it != tiCache.end()) return it->second; std::vector<uint32_t> all; tiParent(thrown, all); bool r = std::find(all.begin(), all.end(), clause) != all.end();
    if (!r && idGV.count(thrown) && idGV.count(clause)) { r = idGV[thrown]->getName() == idGV[clause]->getName(); } tiCache[k] = r; return r; }
  // frames.back() is the frame containing the throwing call
  void unwind(State& s) {
    while (!s.st.empty()) {
      Frame& f = s.st.back(); const Inst& I = f.f->code[f.pc];
      if (I.op == I_CALL) { CallInfo* ci = f.f->calls[I.aux]; if (ci->invoke) { Lpad& L = f.f->lpads[ci->lpad]; int64_t sel = -1;
          for (auto& c : L.cl) { if (c.kind == 0) { if (tiMatch(s.excTi, c.ti)) { sel = c.ti ? c.ti : 0x7fffffff; break; } } else { bool m = false; for (auto t : c.filt) m |= tiMatch(s.excTi, t); if (!m) { sel = 0x7ffffffe; break; } } }
          if (sel < 0 && L.cleanup) sel = 0;
          if (sel >= 0) { s.lastSel = (uint32_t)sel; takeEdge(f, ci->unwind); return; } } }
      popFrame(s);
    }
    throw PathEnd{"uncaught-exception"};
  }

  void run(State* sp) {
    State& s = *sp; cur = sp; S why;
    try { loop(s); why = "done"; } catch (PathEnd& p) { why = p.why; }
    catch (EncFail& e) { why = "unsupported:encode " + e.why; }
    catch (z3::exception& e) { why = S("unsupported:z3 ") + e.msg(); }
    finish(s, why); delete sp; cur = nullptr;
  }
  void finish(State& s, const S& why) {
    ++paths; ++ended[why]; S key = why.substr(0, 11); if (key == "unsupported") ++unsupported[why];
    if (why == "uncaught-exception" || why == "steps") { try { Assign a = *s.wit; bool ex = s.wit->valid && holds(s.pc, nullptr, a); if (!ex) { Assign m; int r = solver->check(s.pc, nullptr, &m); if (r == 0) return; if (r == 1) { a = m; ex = holds(s.pc, nullptr, a); } } candidate(s, why == "steps" ? "termination" : "uncaught", why == "steps" ? "hang" : "fault", why == "steps" ? "execution does not finish within the step bound" : "exception escapes", a, ex); } catch (...) {} }
    if (why == "done") { ++completed; for (auto& c : s.covers) ++coverCnt[c];
      // witness sample for native comparison: spread over the exploration
      bool take = samplesJson.size() < (size_t)O.samples && (completed <= (uint64_t)O.samples / 2 || (completed & (completed - 1)) == 0);
      if (take && s.wit->valid && holds(s.pc, nullptr, *s.wit)) {
        std::ostringstream os; os << "{\"inputs\":{"; bool first = true; for (auto& p : dumpInputs(s, *s.wit)) { os << (first ? "" : ",") << "\"" << p.first << "\":\"" << p.second << "\""; first = false; } os << "},\"obs\":["; first = true;
        for (auto& o : s.obs) { S v; try { if (o.fp) v = dstr(o.e ? evalF(o.e, *s.wit) : D(o.c)); else v = std::to_string((int64_t)(o.e ? evalI(o.e, *s.wit) : (i128)(int64_t)o.c)); } catch (EvalFail&) { v = "?"; } os << (first ? "" : ",") << "[\"" << o.name << "\",\"" << v << "\"]"; first = false; } os << "],\"steps\":" << s.steps << ",\"asserts\":" << s.asserts << "}"; samplesJson.push_back(os.str()); } }
    if (O.verbose && (paths % 200 == 0)) fprintf(stderr, "paths %lu work %zu queries %lu t=%.1f\n", (unsigned long)paths, work.size(), (unsigned long)g_stats.queries, elapsed());
  }
  void loop(State& s) {
    for (;;) {
      try { stepLoop(s); return; }
      catch (MemErr& m) { fault(s, m.what); }
    }
  }
  bool specSafe(Frame& f) { const Inst& I = f.f->code[f.pc];
    switch (I.op) { case I_FBIN: case I_FNEG: case I_ICMP: case I_FCMP: case I_CAST: case I_SELECT: case I_LOAD: case I_STORE: case I_GEP: case I_BR: case I_CBR: case I_EXTRACT: case I_MOVE: case I_INSERT: case I_SHUFFLE: return true;
      case I_BIN: return I.sub != UDIV && I.sub != SDIV && I.sub != UREM && I.sub != SREM;
      case I_CALL: { CallInfo& ci = *f.f->calls[I.aux]; const S& n = ci.name; return !ci.invoke && ci.b && (n.compare(0, 9, "llvm.fabs") == 0 || n == "fabs" || n.compare(0, 16, "llvm.is.fpclass.") == 0 || n.compare(0, 9, "llvm.dbg.") == 0 || n.compare(0, 10, "llvm.umin.") == 0 || n.compare(0, 10, "llvm.umax.") == 0 || n.compare(0, 10, "llvm.smin.") == 0 || n.compare(0, 10, "llvm.smax.") == 0 || n.compare(0, 9, "llvm.abs.") == 0); }
      default: return false; }
  }
  void joins(Func* f) { // branch pc -> start of its immediate post-dominator
    f->pdom = true; PostDominatorTree T(*f->F); std::unordered_map<const BasicBlock*, uint32_t> start; uint32_t pc = 0; for (auto& bb : *f->F) { start[&bb] = pc; for (auto& i : bb) if (!isa<PHINode>(i)) ++pc; }
    std::unordered_map<const Value*, uint32_t> rm; uint32_t nr = 0; for (auto& a : f->F->args()) nr += leaves(a.getType()).size(); for (auto& bb : *f->F) for (auto& i : bb) if (!i.getType()->isVoidTy()) { rm[&i] = nr; nr += std::max<size_t>(1, leaves(i.getType()).size()); }
    for (uint32_t k = 0; k < f->src.size(); ++k) { auto* br = dyn_cast<BranchInst>(f->src[k]); if (!br || !br->isConditional()) continue; auto* nd = T.getNode(br->getParent()); if (!nd || !nd->getIDom() || !nd->getIDom()->getBlock()) continue; BasicBlock* j = nd->getIDom()->getBlock();
      auto& J = f->join[k]; J.first = start[j]; for (auto& i : *j) { auto* ph = dyn_cast<PHINode>(&i); if (!ph) break; auto l = leaves(ph->getType()); for (size_t q = 0; q < l.size(); ++q) J.second.emplace_back(rm[ph] + q, l[q]); } }
  }
  // executes both sides of a small branch region and merges their effects with if-then-else instead of forking
  bool tryMerge(State& s, const Inst& I, E c) {
    if (c->isC()) return false; bool kv; if (known(s, c, kv)) return false; int& sf = specFails[&I]; if (sf > 8) return false;
    Frame& f = s.st.back(); Func* fn = f.f; if (!fn->pdom) joins(fn); auto it = fn->join.find(f.pc); if (it == fn->join.end()) { sf = 100; return false; } auto& J = it->second;
    auto oJournal = std::move(journal); int oSpec = spec; size_t oD = specDepth; uint32_t oJ = specJoin; uint64_t oE = specEnd; uint32_t pc0 = f.pc; uint64_t oSteps = s.steps;
    Mem m0 = s.mem; std::vector<Val> r0 = f.r; Mem mm[2]; std::vector<Val> rr[2]; std::vector<std::pair<uint64_t, TyI>> jr; bool ok = true;
    spec = oSpec + 1; specDepth = s.st.size(); specJoin = J.first; specEnd = steps + 300; if (oSpec) specEnd = std::min(specEnd, oE);
    try { for (int side = 0; side < 2; ++side) { journal.clear(); Frame& g = s.st.back(); takeEdge(g, fn->edges[side ? I.c : I.b]); stepLoop(s); mm[side] = s.mem; rr[side] = s.st.back().r; for (auto& x : journal) jr.push_back(x); s.mem = m0; s.st.back().r = r0; s.st.back().pc = pc0; } }
    catch (SpecFail&) { ok = false; } catch (MemErr&) { ok = false; } catch (PathEnd&) { ok = false; }
    std::vector<std::pair<uint64_t, std::pair<TyI, Val>>> out; std::vector<std::pair<uint32_t, Val>> regs;
    if (ok) try {
      std::sort(jr.begin(), jr.end(), [](auto& a, auto& b) { return a.first < b.first; });
      for (size_t i = 0; i < jr.size() && ok; ++i) { if (i && jr[i].first == jr[i - 1].first) { if (jr[i].second.w != jr[i - 1].second.w || jr[i].second.fp != jr[i - 1].second.fp) ok = false; continue; } if (i && jr[i - 1].first + jr[i - 1].second.w / 8 > jr[i].first) { ok = false; break; }
        Val v[2]; for (int q = 0; q < 2; ++q) { std::swap(s.mem, mm[q]); try { v[q] = load(s, jr[i].first, jr[i].second); } catch (...) { std::swap(s.mem, mm[q]); throw; } std::swap(s.mem, mm[q]); }
        out.push_back({jr[i].first, {jr[i].second, mergeVal(c, v[0], v[1], jr[i].second)}}); }
      if (ok) for (auto& p : J.second) regs.emplace_back(p.first, mergeVal(c, rr[0][p.first], rr[1][p.first], p.second));
    } catch (SpecFail&) { ok = false; } catch (MemErr&) { ok = false; } catch (PathEnd&) { ok = false; }
    spec = oSpec; specDepth = oD; specJoin = oJ; specEnd = oE; journal = std::move(oJournal); s.steps = oSteps + 1; while (s.st.size() > 0 && false) {} s.mem = m0; Frame& g = s.st.back(); g.r = r0; g.pc = pc0;
    if (!ok) { ++sf; return false; }
    for (auto& o : out) storeRaw(s, o.first, o.second.second, o.second.first); for (auto& r : regs) g.r[r.first] = r.second; g.pc = J.first; ++merges; return true;
  }
  Val mergeVal(E c, const Val& a, const Val& b, const TyI& t) {
    if (a.e == b.e && (a.e || a.c == b.c)) return a; if (t.fp) { if (t.f32 || t.w != 64) throw SpecFail{}; return fromE(mkIte(c, toF(a), toF(b))); }
    if (t.w != 1 && O.merge < 2) throw SpecFail{}; return fromE(mkIte(c, toI(a, t.w), toI(b, t.w)));
  }
  void stepLoop(State& s) {
    std::vector<Val> args; uint64_t lim = O.maxsteps;
    for (;;) {
      if (s.st.empty()) return;
      Frame& f = s.st.back(); if (spec) { if (f.pc == specJoin && s.st.size() == specDepth) return; if (steps > specEnd || !specSafe(f)) throw SpecFail{}; }
      const Inst& I = f.f->code[f.pc]; f.f->cov[f.pc] = true;
      ++s.steps; ++steps; if (s.steps > lim) throw PathEnd{"steps"}; if ((steps & 0xfffff) == 0 && elapsed() > O.budget) { truncated = true; throw PathEnd{"time"}; }
      switch (I.op) {
        case I_BIN: { if (I.lanes == 1) { Val& a = R(f, I.a); Val& b = R(f, I.b); if (!a.e && !b.e && I.sub == ADD && I.w <= 64) { Val& d = f.r[I.dst]; d.c = maskw(a.c + b.c, I.w); d.e = nullptr; } else { Val v = bin(s, I.sub, a, b, I.w); s.st.back().r[I.dst] = v; } } else for (int l = 0; l < I.lanes; ++l) f.r[I.dst + l] = bin(s, I.sub, R(f, lane(I.a, l)), R(f, lane(I.b, l)), I.w); ++s.st.back().pc; break; }
        case I_FBIN: for (int l = 0; l < I.lanes; ++l) f.r[I.dst + l] = fbin(I.sub, R(f, lane(I.a, l)), R(f, lane(I.b, l)), I.fl); ++f.pc; break;
        case I_FNEG: for (int l = 0; l < I.lanes; ++l) { Val& a = R(f, lane(I.a, l)); if (a.e) f.r[I.dst + l] = fromE(mkF(FNEG, toF(a))); else f.r[I.dst + l] = Val{I.fl ? UF32(-Fl(a.c)) : U(-D(a.c)), nullptr}; } ++f.pc; break;
        case I_ICMP: for (int l = 0; l < I.lanes; ++l) f.r[I.dst + l] = icmp(I.sub, R(f, lane(I.a, l)), R(f, lane(I.b, l)), I.w); ++f.pc; break;
        case I_FCMP: for (int l = 0; l < I.lanes; ++l) { Val &a = R(f, lane(I.a, l)), &b = R(f, lane(I.b, l)); if (!a.e && !b.e) f.r[I.dst + l] = Val{(uint64_t)(I.fl ? fcmpC(I.sub, Fl(a.c), Fl(b.c)) : fcmpC(I.sub, D(a.c), D(b.c))), nullptr}; else f.r[I.dst + l] = fromE(fcmpE(I.sub, toF(a), toF(b))); } ++f.pc; break;
        case I_CAST: for (int l = 0; l < I.lanes; ++l) f.r[I.dst + l] = doCast(s, I, R(f, lane(I.a, l))); ++f.pc; break;
        case I_SELECT: {
          auto& ty = f.f->tys[I.aux];
          for (int l = 0; l < I.lanes; ++l) { Val c = R(f, I.fl ? lane(I.a, l) : I.a); if (!c.e) { f.r[I.dst + l] = R(f, lane(c.c ? I.b : I.c, l)); continue; }
            Val a = R(f, lane(I.b, l)), b = R(f, lane(I.c, l)); if (a.c == b.c && a.e == b.e) { f.r[I.dst + l] = a; continue; }
            if (ty[l].fp) f.r[I.dst + l] = fromE(mkIte(c.e, toF(a), toF(b))); else f.r[I.dst + l] = fromE(mkIte(c.e, toI(a, ty[l].w), toI(b, ty[l].w))); }
          ++f.pc; break; }
        case I_LOAD: { uint64_t p = ptrOf(s, f, I.a); auto& ty = f.f->tys[I.aux]; for (int l = 0; l < I.lanes; ++l) { Val v = load(s, addOff(p, ty[l].off), ty[l]); f.r[I.dst + l] = v; } ++f.pc; break; }
        case I_STORE: { uint64_t p = ptrOf(s, f, I.b); auto& ty = f.f->tys[I.aux]; for (int l = 0; l < I.lanes; ++l) storeRaw(s, addOff(p, ty[l].off), R(f, lane(I.a, l)), ty[l]); ++f.pc; break; }
        case I_GEP: {
          Gep& g = f.f->geps[I.aux]; Val b = R(f, g.base); bool sy = b.e != nullptr; for (auto& ix : g.idx) if (R(f, std::get<0>(ix)).e) sy = true;
          if (!sy) { int64_t o = g.off; for (auto& ix : g.idx) o += (int64_t)sx(R(f, std::get<0>(ix)).c, std::get<1>(ix)) * std::get<2>(ix); f.r[I.dst] = Val{addOff(b.c, o), nullptr}; }
          else { E r = toI(b, 64); if (g.off) r = mkBin(ADD, r, mkC(g.off, 64)); for (auto& ix : g.idx) { Val& v = R(f, std::get<0>(ix)); E t = mkExt(SEXT, toI(v, std::get<1>(ix)), 64); r = mkBin(ADD, r, mkBin(MUL, t, mkC(std::get<2>(ix), 64))); } f.r[I.dst] = fromE(r); }
          ++f.pc; break; }
        case I_ALLOCA: { uint64_t n = R(f, I.a).e ? concretize(s, R(f, I.a), I.w) : R(f, I.a).c; uint64_t a = newObj(s, I.aux * n, 2, true); f.allocas.push_back(a >> 32); f.r[I.dst] = Val{a, nullptr}; ++f.pc; break; }
        case I_BR: takeEdge(f, f.f->edges[I.b]); break;
        case I_CBR: { Val& c = R(f, I.a); if (O.merge && c.e && tryMerge(s, I, toI(c, 1))) break; bool t = c.e ? decide(s, toI(c, 1), &I) : c.c != 0; takeEdge(s.st.back(), f.f->edges[t ? I.b : I.c]); break; }
        case I_SWITCH: { Func::Sw& sw = f.f->sws[I.aux]; Val v = R(f, sw.v); uint32_t e = sw.def; if (!v.e) { for (auto& c : sw.cs) if (c.first == v.c) { e = c.second; break; } } else { for (auto& c : sw.cs) if (decide(s, mkCmp(EQ, toI(v, sw.w), mkC(sext128(c.first, sw.w), sw.w)), &I)) { e = c.second; break; } } takeEdge(f, f.f->edges[e]); break; }
        case I_RET: {
          Val tmp[16]; std::vector<Val> big; Val* rv = tmp; if (I.lanes > 16) { big.resize(I.lanes); rv = big.data(); } for (int l = 0; l < I.lanes; ++l) rv[l] = R(f, lane(I.a, l));
          popFrame(s); if (s.st.empty()) return; if (s.st.back().retDst == 0xfffffffe) {}
          Frame& c = s.st.back(); const Inst& CI = c.f->code[c.pc]; CallInfo* ci = c.f->calls[CI.aux]; for (int l = 0; l < I.lanes && l < (int)ci->ret.size(); ++l) c.r[CI.dst + l] = rv[l];
          if (ci->invoke) takeEdge(c, ci->normal); else ++c.pc; break; }
        case I_CALL: {
          CallInfo& ci = *f.f->calls[I.aux]; Func* tgt = ci.f; Builtin b = ci.b; S nm;
          if (!tgt && !b && ci.name.empty()) { uint64_t p = ptrOf(s, f, ci.callee); auto it = idFunc.find(p >> 32); if ((uint32_t)p != 0 || it == idFunc.end()) throw MemErr{"call through invalid function pointer"}; tgt = it->second; if (tgt->F->isDeclaration()) { b = findBuiltin(tgt->name); nm = tgt->name; tgt = nullptr; if (!b) throw PathEnd{"unsupported:call " + nm}; } }
          args.clear(); for (auto& a : ci.args) for (int l = 0; l < a.lanes; ++l) args.push_back(R(f, lane(a.op, l)));
          if (tgt) { if (tgt->F->isDeclaration()) throw PathEnd{"unsupported:call " + tgt->name};
            for (auto& bv : ci.byval) { uint64_t p = args[bv.first].c; uint64_t a = newObj(s, bv.second, 2, true); copyMem(s, a, p, bv.second); f.allocas.push_back(a >> 32); args[bv.first] = Val{a, nullptr}; }
            enter(s, tgt, args, 0); break; }
          if (!b) throw PathEnd{"unsupported:call " + ci.name};
          Val ret[4]; int k = b(*this, s, ci, args, ret);
          if (k == 1) break;            // builtin already redirected control (unwind / entered function)
          Frame& c = s.st.back(); for (size_t l = 0; l < ci.ret.size() && l < 4; ++l) c.r[I.dst + l] = ret[l];
          if (ci.invoke) takeEdge(c, ci.normal); else ++c.pc; break; }
        case I_UNREACH: throw MemErr{"unreachable code reached (missing return or undefined behaviour)"};
        case I_EXTRACT: case I_MOVE: for (int l = 0; l < I.lanes; ++l) f.r[I.dst + l] = R(f, lane(I.a, l)); ++f.pc; break;
        case I_INSERT: { for (int l = 0; l < I.lanes; ++l) { Val v = R(f, lane(I.a, l)); f.r[I.dst + l] = v; } for (int l = 0; l < I.w; ++l) f.r[I.dst + I.c + l] = R(f, lane(I.b, l)); ++f.pc; break; }
        case I_SHUFFLE: { auto& L = f.f->lists[I.aux]; std::vector<Val> t; for (int o : L) t.push_back(R(f, o)); for (size_t i = 0; i < t.size(); ++i) f.r[I.dst + i] = t[i]; ++f.pc; break; }
        case I_LPAD: f.r[I.dst] = Val{s.excObj, nullptr}; f.r[I.dst + 1] = Val{s.lastSel, nullptr}; ++f.pc; break;
        case I_RESUME: { s.excObj = R(f, I.a).c; auto it = s.excTypes.find(s.excObj); if (it != s.excTypes.end()) s.excTi = it->second; popFrame(s); unwind(s); break; }
        case I_ATOMIC: { TyI t; t.w = I.w; uint64_t p = ptrOf(s, f, I.a); Val o = load(s, p, t), n = R(f, I.b), r; switch (I.sub) { case AtomicRMWInst::Add: r = bin(s, ADD, o, n, I.w); break; case AtomicRMWInst::Sub: r = bin(s, SUB, o, n, I.w); break; case AtomicRMWInst::Xchg: r = n; break; case AtomicRMWInst::Or: r = bin(s, OR, o, n, I.w); break; case AtomicRMWInst::And: r = bin(s, AND, o, n, I.w); break; default: throw PathEnd{"unsupported:atomicrmw"}; } storeRaw(s, p, r, t); f.r[I.dst] = o; ++f.pc; break; }
        case I_CMPXCHG: { TyI t; t.w = I.w; uint64_t p = ptrOf(s, f, I.a); Val o = load(s, p, t); Val c = icmp(CmpInst::ICMP_EQ, o, R(f, I.b), I.w); if (c.e) throw PathEnd{"unsupported:symbolic cmpxchg"}; if (c.c) storeRaw(s, p, R(f, I.c), t); f.r[I.dst] = o; f.r[I.dst + 1] = c; ++f.pc; break; }
        default: { S q; raw_string_ostream os(q); f.f->src[f.pc]->print(os); throw PathEnd{"unsupported:inst " + os.str()}; }
      }
    }
  }
