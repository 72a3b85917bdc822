// ------------------------------------------------ runtime library and harness API
#define BI [](Exec & x, State & s, const CallInfo& ci, std::vector<Val>& a, Val* ret) -> int
#define UNUSED (void)x; (void)s; (void)ci; (void)a; (void)ret
static S cstr(Exec& x, State& s, const Val& v) { uint64_t p = x.concretize(s, v, 64); S r; TyI t; t.w = 8; for (int i = 0; i < 400; ++i) { Val c = x.load(s, Exec::addOff(p, i), t); if (c.e || !c.c) break; r += (char)c.c; } return r; }
static TyI TW(int w) { TyI t; t.w = w; return t; } static TyI TD() { TyI t; t.fp = true; t.w = 64; return t; }
static uint64_t CI(Exec& x, State& s, const Val& v, int w) { return v.e ? x.concretize(s, v, w) : v.c; }
static Val dret(double d) { Val v; memcpy(&v.c, &d, 8); return v; }
static E dE(const Val& v) { return Exec::toF(v); }
static S uniq(State& s, const S& n) { int k = s.nameCnt["$" + n]++; return k ? n + "@" + std::to_string(k) : n; }
static int math1(Exec& x, State& s, std::vector<Val>& a, Val* ret, double (*fn)(double), Op op, const char* uf) {
  (void)x; (void)s;
  if (!a[0].e) { ret[0] = dret(fn(Exec::D(a[0].c))); return 0; }
  if (op != UF) { ret[0] = Exec::fromE(mkF(op, dE(a[0]))); return 0; }
  E v = dE(a[0]); double lo = -INF, hi = INF; bool fin = false;
  S n = uf; if (v->fin) { if (n == "exp") { lo = std::exp(v->flo) * (1 - 1e-14); hi = std::exp(v->fhi) * (1 + 1e-14); fin = hi < DMAX; } if (n == "log" && v->flo > 0) { lo = std::log(v->flo); hi = std::log(v->fhi); lo -= std::fabs(lo) * 1e-14; hi += std::fabs(hi) * 1e-14; fin = true; } if (n == "erf") { lo = -1; hi = 1; fin = true; } if (n == "lgamma" && v->flo > 0) { lo = -0.125; fin = v->fhi < 1e300; hi = fin ? std::max(std::lgamma(v->flo), std::lgamma(v->fhi)) * (1 + 1e-12) + 1e-9 : INF; } if (n == "tgamma" && v->flo >= 1 && v->fhi < 170) { lo = 0.88; hi = std::tgamma(v->fhi) * (1 + 1e-10) + 1; fin = true; } }
  ret[0] = Exec::fromE(mkUF(uf, {v}, true, 64, lo, hi, fin)); return 0;
}
static int rnd_away(Exec& x, State& s, std::vector<Val>& a, Val* ret) { return math1(x, s, a, ret, ::round, FROUND, ""); }
static int throwStd(Exec& x, State& s, const char* ctorFn) { // call runtime helper (defined in runtime.cpp) which throws
  for (auto& f : x.M->functions()) if (f.getName() == ctorFn) { std::vector<Val> none; x.enter(s, x.funcs[&f], none, 0); return 1; }
  throw PathEnd{S("unsupported:no runtime ") + ctorFn};
}
static int doAlloc(Exec& x, State& s, uint64_t n, Val* ret, bool zero, bool nothrow) {
  if ((int64_t)n < 0 || n > (1ull << 40)) { if (nothrow) { ret[0] = Val{}; return 0; } return throwStd(x, s, "symrt_throw_bad_alloc"); }
  if (n > (1u << 28)) throw PathEnd{"unsupported:huge allocation"};
  ret[0] = Val{x.newObj(s, (uint32_t)n, 1, !zero), nullptr}; return 0;
}
static E i32bool(const Val& v) { E e = Exec::toI(v, 32); if (e->op == ZEXT && e->a[0]->w == 1) return e->a[0]; return mkNot(mkCmp(EQ, e, mkC(0, e->w))); }
static int minmax(Exec& x, std::vector<Val>& a, Val* ret, int w, int kind) { (void)x; E p = Exec::toI(a[0], w), q = Exec::toI(a[1], w); E c; switch (kind) { case 0: c = mkCmp(ULT, p, q); break; case 1: c = mkCmp(ULT, q, p); break; case 2: c = mkCmp(SLT, p, q); break; default: c = mkCmp(SLT, q, p); } ret[0] = Exec::fromE(mkIte(c, p, q)); return 0; }
static int ovf(Exec& x, State& s, std::vector<Val>& a, Val* ret, int w, Op op, bool sg) { (void)x; (void)s; E p = Exec::toI(a[0], w), q = Exec::toI(a[1], w); E P = mkExt(sg ? SEXT : ZEXT, p, 128), Q = mkExt(sg ? SEXT : ZEXT, q, 128); E r = mkBin(op, P, Q); ret[0] = Exec::fromE(mkBin(op, p, q)); E inr = sg ? mkBin(AND, mkCmp(SLE, mkC(smin(w), 128), r), mkCmp(SLE, r, mkC(smax(w), 128))) : mkBin(AND, mkCmp(SLE, mkC(0, 128), r), mkCmp(SLT, r, mkC((i128)1 << w, 128))); ret[1] = Exec::fromE(mkNot(inr)); return 0; }

static std::unordered_map<S, Builtin> mkTable() {
  std::unordered_map<S, Builtin> t;
  // ---- harness API
  t["sym_int"] = BI { UNUSED; S n = uniq(s, cstr(x, s, a[0])); int64_t lo = CI(x, s, a[1], 64), hi = CI(x, s, a[2], 64); if (lo == hi) { ret[0] = Val{(uint64_t)lo, nullptr}; s.inputs.emplace_back(n, mkC(lo, 64)); } else ret[0] = Exec::fromE(x.mkVar(s, n, 64, lo, hi)); return 0; };
  t["sym_u32"] = BI { UNUSED; S n = uniq(s, cstr(x, s, a[0])); if (O.mode == M_INT) ret[0] = Exec::fromE(mkExt(TRUNC, x.mkVar(s, n, 64, 0, 0xffffffffll), 32)); else ret[0] = Exec::fromE(x.mkVar(s, n, 32, smin(32), smax(32))); return 0; };
  t["sym_double"] = BI { UNUSED; S n = uniq(s, cstr(x, s, a[0])); ret[0] = Exec::fromE(x.mkFVar(s, n, Exec::D(a[1].c), Exec::D(a[2].c), false)); return 0; };
  t["sym_any_double"] = BI { UNUSED; S n = uniq(s, cstr(x, s, a[0])); ret[0] = Exec::fromE(x.mkFVar(s, n, 0, 0, true)); return 0; };
  t["sym_dyadic"] = BI { UNUSED; S n = uniq(s, cstr(x, s, a[0])); int64_t lo = CI(x, s, a[1], 64), hi = CI(x, s, a[2], 64); int k = (int)CI(x, s, a[3], 32); E v = x.mkVar(s, n, 64, lo, hi); s.inputs.back().second = mkDy(mkExt(SEXT, v, 128), k); ret[0] = Exec::fromE(mkDy(mkExt(SEXT, v, 128), k)); return 0; };
  t["sym_choice"] = BI { UNUSED; // n-way fork with a concrete result
    S n0 = cstr(x, s, a[0]); int64_t n = CI(x, s, a[1], 32); S pk = "pend:" + n0; auto it = O.params.find(n0); int k = 0; auto pi = s.nameCnt.find(pk);
    if (it != O.params.end()) k = it->second; else { if (pi != s.nameCnt.end()) { k = pi->second; s.nameCnt.erase(pi); } for (int j = n - 1; j > k; --j) { if (pi == s.nameCnt.end() || true) { } } if (k + 1 < n) { State* c = new State(s); c->nameCnt[pk] = k + 1; x.push(c); } }
    S u = uniq(s, n0); s.inputs.emplace_back(u, mkC(k, 64)); ret[0] = Val{(uint64_t)(uint32_t)k, nullptr}; return 0; };
  t["sym_param"] = BI { UNUSED; S n = cstr(x, s, a[0]); auto it = O.params.find(n); int64_t v = it != O.params.end() ? it->second : (int64_t)CI(x, s, a[1], 64); ret[0] = Val{(uint64_t)v, nullptr}; return 0; };
  t["sym_assume"] = BI { UNUSED; x.assume(s, i32bool(a[0])); return 0; };
  t["sym_assert"] = BI { UNUSED; x.obligation(s, i32bool(a[0]), cstr(x, s, a[1])); return 0; };
  t["sym_cover"] = BI { UNUSED; S l = cstr(x, s, a[0]); if (std::find(s.covers.begin(), s.covers.end(), l) == s.covers.end()) s.covers.push_back(l); return 0; };
  t["sym_obs_i"] = BI { UNUSED; s.obs.push_back({cstr(x, s, a[0]), false, a[1].e, a[1].c, 64}); return 0; };
  t["sym_obs_d"] = BI { UNUSED; s.obs.push_back({cstr(x, s, a[0]), true, a[1].e ? dE(a[1]) : nullptr, a[1].c, 64}); return 0; };
  t["sym_value"] = BI { UNUSED; ret[0] = Val{x.concretize(s, a[0], 64), nullptr}; return 0; };
  t["sym_iso_begin"] = BI { UNUSED; auto p = std::make_shared<Iso>(); p->mem = s.mem; s.iso.push_back(p); return 0; };
  // global and heap objects that existed at the begin get their contents back; the stack and newer objects stay
  t["sym_iso_end"] = BI { UNUSED; if (s.iso.empty()) return 0; auto p = s.iso.back(); s.iso.pop_back(); for (uint32_t id = 1; id < p->mem.next; ++id) { Obj* o = p->mem.rd(id); if (!o || o == s.mem.rd(id) || o->kind > 1 || o->freed) continue; x.setObj(s, id, o); } return 0; };
  t["sym_is_engine"] = BI { UNUSED; ret[0] = Val{1, nullptr}; return 0; };
  t["sym_is_symbolic"] = BI { UNUSED; ret[0] = Val{(uint64_t)(a[0].e != nullptr), nullptr}; return 0; };
  t["sym_cut"] = BI { UNUSED; throw PathEnd{"cut " + cstr(x, s, a[0])}; };
  t["sym_log"] = BI { UNUSED; if (!a[0].e) { ret[0] = dret(std::log(Exec::D(a[0].c))); return 0; } E v = dE(a[0]); double lo = -1e6, hi = 1e6; if (v->fin && v->flo > 0 && v->fhi < DMAX) { lo = std::log(v->flo); lo -= 1e-12 * (1 + std::fabs(lo)); hi = std::log(v->fhi); hi += 1e-12 * (1 + std::fabs(hi)); } ret[0] = Exec::fromE(raw(FLOG, 64, true, {v}, 0, 0, [&](Expr* e) { e->hasAx = true; e->flo = lo; e->fhi = hi; e->fin = true; })); return 0; };
  t["sym_uf1"] = BI { UNUSED; S n = "uf_" + cstr(x, s, a[0]); ret[0] = Exec::fromE(mkUF(n, {dE(a[1])}, true, 64, Exec::D(a[2].c), Exec::D(a[3].c), true)); return 0; };
  t["sym_uf2"] = BI { UNUSED; S n = "uf_" + cstr(x, s, a[0]); ret[0] = Exec::fromE(mkUF(n, {dE(a[1]), dE(a[2])}, true, 64, Exec::D(a[3].c), Exec::D(a[4].c), true)); return 0; };
  t["sym_free_double"] = BI { UNUSED; // unconstrained value that is not an input
    int k = s.nameCnt["free:"]++; ret[0] = Exec::fromE(mkUF("free" + std::to_string(k), {}, true, 64, Exec::D(a[0].c), Exec::D(a[1].c), true)); return 0; };
  t["sym_objsize"] = BI { UNUSED; Obj* o = s.mem.rd(a[0].c >> 32); ret[0] = Val{o && !o->freed ? o->size : 0, nullptr}; return 0; };
  // branch-free connectives for assertions
  auto b2 = [](int k) { (void)k; };
  (void)b2;
  t["sym_and"] = BI { UNUSED; ret[0] = Exec::fromE(mkExt(ZEXT, mkBin(AND, i32bool(a[0]), i32bool(a[1])), 32)); return 0; };
  t["sym_or"] = BI { UNUSED; ret[0] = Exec::fromE(mkExt(ZEXT, mkBin(OR, i32bool(a[0]), i32bool(a[1])), 32)); return 0; };
  t["sym_not"] = BI { UNUSED; ret[0] = Exec::fromE(mkExt(ZEXT, mkNot(i32bool(a[0])), 32)); return 0; };
  t["sym_isnan"] = BI { UNUSED; ret[0] = Exec::fromE(mkExt(ZEXT, x.fcmpE(CmpInst::FCMP_UNO, dE(a[0]), mkFC(0)), 32)); return 0; };
  // exact comparison |p-q| <= tol over the reals the doubles denote (no rounding in the difference)
  t["sym_close"] = BI { UNUSED; if (!a[0].e && !a[1].e) { double p = Exec::D(a[0].c), q = Exec::D(a[1].c); ret[0] = Val{(uint64_t)(std::fabs(p - q) <= Exec::D(a[2].c) || p == q), nullptr}; return 0; } E d = mkF(FABS, mkF(FSUB, dE(a[0]), dE(a[1]))); ret[0] = Exec::fromE(mkExt(ZEXT, mkFCmp(FLE, d, dE(a[2])), 32)); return 0; };
  t["sym_same"] = BI { UNUSED; if (!a[0].e && !a[1].e) { ret[0] = Val{(uint64_t)(a[0].c == a[1].c || Exec::D(a[0].c) == Exec::D(a[1].c)), nullptr}; return 0; } E p = dE(a[0]), q = dE(a[1]); ret[0] = p == q ? Val{1, nullptr} : Exec::fromE(mkExt(ZEXT, mkFCmp(FEQ, p, q), 32)); return 0; };
  t["sym_ite_d"] = BI { UNUSED; ret[0] = Exec::fromE(mkIte(i32bool(a[0]), dE(a[1]), dE(a[2]))); return 0; };
  // ---- memory
  auto al = BI { UNUSED; return doAlloc(x, s, CI(x, s, a[0], 64), ret, false, false); };
  t["_Znwm"] = al; t["_Znam"] = al; t["_ZnwmSt11align_val_t"] = al; t["_ZnamSt11align_val_t"] = al;
  auto aln = BI { UNUSED; return doAlloc(x, s, CI(x, s, a[0], 64), ret, false, true); };
  t["malloc"] = aln; t["_ZnwmRKSt9nothrow_t"] = aln; t["_ZnamRKSt9nothrow_t"] = aln;
  t["calloc"] = BI { UNUSED; return doAlloc(x, s, CI(x, s, a[0], 64) * CI(x, s, a[1], 64), ret, true, true); };
  t["realloc"] = BI { UNUSED; uint64_t p = CI(x, s, a[0], 64), n = CI(x, s, a[1], 64); doAlloc(x, s, n, ret, false, true); if (p) { Obj* o = s.mem.rd(p >> 32); x.copyMem(s, ret[0].c, p, std::min<uint64_t>(n, o ? o->size : 0)); x.freeObj(s, p, "realloc"); } return 0; };
  auto fr = BI { UNUSED; x.freeObj(s, CI(x, s, a[0], 64), "delete/free"); return 0; };
  for (const char* n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvmSt11align_val_t", "_ZdlPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t"}) t[n] = fr;
  auto mc = BI { UNUSED; uint64_t n = CI(x, s, a[2], 64), d = CI(x, s, a[0], 64), sr = CI(x, s, a[1], 64); x.copyMem(s, d, sr, n); ret[0] = Val{d, nullptr}; return 0; };
  t["memcpy"] = mc; t["memmove"] = mc;
  t["memset"] = BI { UNUSED; uint64_t n = CI(x, s, a[2], 64), d = CI(x, s, a[0], 64); Val b = a[1]; if (b.e) b = Exec::fromE(mkExt(TRUNC, Exec::toI(b, 32), 8)); x.setMem(s, d, b, n); ret[0] = Val{d, nullptr}; return 0; };
  auto cmp = BI { UNUSED; uint64_t n = CI(x, s, a[2], 64), p = CI(x, s, a[0], 64), q = CI(x, s, a[1], 64); int64_t r = 0; // compares words when possible
    for (uint64_t i = 0; i < n && r == 0; ++i) { Val u = x.load(s, Exec::addOff(p, i), TW(8)), v = x.load(s, Exec::addOff(q, i), TW(8)); if (!u.e && !v.e) { if (u.c != v.c) r = u.c < v.c ? -1 : 1; } else { E e = mkCmp(EQ, Exec::toI(u, 8), Exec::toI(v, 8)); if (!x.decide(s, e, nullptr)) r = x.decide(s, mkCmp(ULT, Exec::toI(u, 8), Exec::toI(v, 8)), nullptr) ? -1 : 1; } }
    ret[0] = Val{maskw((uint64_t)r, 32), nullptr}; return 0; };
  t["memcmp"] = cmp;
  t["bcmp"] = BI { UNUSED; uint64_t n = CI(x, s, a[2], 64), p = CI(x, s, a[0], 64), q = CI(x, s, a[1], 64); E eq = mkTrue(); uint64_t i = 0; while (i < n) { int w = (n - i >= 8) ? 64 : 8; Val u = x.load(s, Exec::addOff(p, i), TW(w)), v = x.load(s, Exec::addOff(q, i), TW(w)); E ue = Exec::toI(u, w), ve = Exec::toI(v, w); eq = mkBin(AND, eq, mkCmp(EQ, ue, ve)); i += w / 8; } ret[0] = Exec::fromE(mkIte(eq, mkC(0, 32), mkC(1, 32))); return 0; };
  t["strlen"] = BI { UNUSED; uint64_t p = CI(x, s, a[0], 64), i = 0; for (;; ++i) { Val c = x.load(s, Exec::addOff(p, i), TW(8)); if (c.e) throw PathEnd{"unsupported:symbolic string"}; if (!c.c) break; } ret[0] = Val{i, nullptr}; return 0; };
  t["memchr"] = BI { UNUSED; uint64_t p = CI(x, s, a[0], 64), n = CI(x, s, a[2], 64); uint8_t ch = (uint8_t)CI(x, s, a[1], 32); for (uint64_t i = 0; i < n; ++i) { Val c = x.load(s, Exec::addOff(p, i), TW(8)); if (c.e) throw PathEnd{"unsupported:symbolic string"}; if ((uint8_t)c.c == ch) { ret[0] = Val{Exec::addOff(p, i), nullptr}; return 0; } } ret[0] = Val{}; return 0; };
  t["strcmp"] = BI { UNUSED; S p = cstr(x, s, a[0]), q = cstr(x, s, a[1]); ret[0] = Val{maskw((uint64_t)(int64_t)p.compare(q), 32), nullptr}; return 0; };
  // ---- exceptions
  t["__cxa_allocate_exception"] = BI { UNUSED; return doAlloc(x, s, CI(x, s, a[0], 64), ret, false, false); };
  t["__cxa_free_exception"] = fr;
  t["__cxa_init_primary_exception"] = BI { UNUSED; s.excTypes[a[0].c] = a[1].c >> 32; ret[0] = a[0]; return 0; };
  t["__cxa_throw"] = BI { UNUSED; s.excObj = a[0].c; s.excTi = a[1].c >> 32; s.excTypes[s.excObj] = s.excTi; auto g = x.idGV.find(s.excTi); s.lastThrow = g != x.idGV.end() ? g->second->getName().str() : "?"; x.unwind(s); return 1; };
  t["__cxa_rethrow"] = BI { UNUSED; if (s.caught.empty()) throw MemErr{"std::terminate (rethrow without exception)"}; s.excObj = s.caught.back().first; s.excTi = s.caught.back().second; x.unwind(s); return 1; };
  t["__cxa_begin_catch"] = BI { UNUSED; s.caught.emplace_back(a[0].c, s.excTypes.count(a[0].c) ? s.excTypes[a[0].c] : s.excTi); ret[0] = a[0]; return 0; };
  t["__cxa_get_exception_ptr"] = BI { UNUSED; ret[0] = a[0]; return 0; };
  t["__cxa_end_catch"] = BI { UNUSED; if (!s.caught.empty()) s.caught.pop_back(); return 0; };
  t["__cxa_current_exception_type"] = BI { UNUSED; ret[0] = s.caught.empty() ? Val{} : Val{(uint64_t)s.caught.back().second << 32, nullptr}; return 0; };
  t["__gxx_personality_v0"] = BI { UNUSED; return 0; };
  auto term = BI { UNUSED; throw MemErr{"std::terminate/abort called"}; };
  for (const char* n : {"_ZSt9terminatev", "abort", "__cxa_pure_virtual", "__cxa_deleted_virtual", "__cxa_call_terminate", "__cxa_bad_cast", "exit", "_exit", "__cxa_call_unexpected", "__assert_fail", "_ZSt21__glibcxx_assert_failPKciS0_S0_", "_ZSt10unexpectedv"}) t[n] = term;
  t["_ZSt18uncaught_exceptionv"] = BI { UNUSED; ret[0] = Val{}; return 0; };
  t["_ZSt19uncaught_exceptionsv"] = BI { UNUSED; ret[0] = Val{}; return 0; };
  t["_ZSt20__throw_length_errorPKc"] = BI { UNUSED; return throwStd(x, s, "symrt_throw_length_error"); };
  t["_ZSt20__throw_out_of_rangePKc"] = BI { UNUSED; return throwStd(x, s, "symrt_throw_out_of_range"); };
  t["_ZSt24__throw_out_of_range_fmtPKcz"] = BI { UNUSED; return throwStd(x, s, "symrt_throw_out_of_range"); };
  t["_ZSt19__throw_logic_errorPKc"] = BI { UNUSED; return throwStd(x, s, "symrt_throw_logic_error"); };
  t["_ZSt24__throw_invalid_argumentPKc"] = BI { UNUSED; return throwStd(x, s, "symrt_throw_invalid_argument"); };
  t["_ZSt21__throw_runtime_errorPKc"] = BI { UNUSED; return throwStd(x, s, "symrt_throw_runtime_error"); };
  t["_ZSt21__throw_bad_exceptionv"] = term;
  t["_ZSt17__throw_bad_allocv"] = BI { UNUSED; return throwStd(x, s, "symrt_throw_bad_alloc"); };
  t["_ZSt28__throw_bad_array_new_lengthv"] = BI { UNUSED; return throwStd(x, s, "symrt_throw_bad_alloc"); };
  t["__cxa_throw_bad_array_new_length"] = BI { UNUSED; return throwStd(x, s, "symrt_throw_bad_alloc"); };
  t["_ZSt25__throw_bad_function_callv"] = BI { UNUSED; return throwStd(x, s, "symrt_throw_runtime_error"); };
  t["_ZSt20__throw_system_errori"] = BI { UNUSED; return throwStd(x, s, "symrt_throw_runtime_error"); };
  // ---- statics / init
  t["__cxa_atexit"] = BI { UNUSED; ret[0] = Val{}; return 0; };
  t["atexit"] = t["__cxa_atexit"]; t["__cxa_thread_atexit"] = t["__cxa_atexit"];
  t["__cxa_guard_acquire"] = BI { UNUSED; uint64_t p = CI(x, s, a[0], 64); Val v = x.load(s, p, TW(8)); ret[0] = Val{(uint64_t)((v.c & 1) == 0), nullptr}; return 0; };
  t["__cxa_guard_release"] = BI { UNUSED; uint64_t p = CI(x, s, a[0], 64); x.storeRaw(s, p, Val{1, nullptr}, TW(8)); return 0; };
  t["__cxa_guard_abort"] = BI { UNUSED; return 0; };
  t["_ZNSt8ios_base4InitC1Ev"] = BI { UNUSED; return 0; }; t["_ZNSt8ios_base4InitD1Ev"] = BI { UNUSED; return 0; };
  t["__dynamic_cast"] = BI { UNUSED; uint64_t p = CI(x, s, a[0], 64); if (!p) { ret[0] = Val{}; return 0; } Val vt = x.load(s, p, TW(64)); Val ti = x.load(s, Exec::addOff(vt.c, -8), TW(64)); ret[0] = x.tiMatch(ti.c >> 32, a[2].c >> 32) ? Val{p, nullptr} : Val{}; return 0; };
  t["pthread_mutex_lock"] = BI { UNUSED; ret[0] = Val{}; return 0; }; t["pthread_mutex_unlock"] = t["pthread_mutex_lock"];
  t["snprintf"] = BI { UNUSED; uint64_t p = CI(x, s, a[0], 64), n = CI(x, s, a[1], 64); if (n > 1) { x.storeRaw(s, p, Val{'?', nullptr}, TW(8)); x.storeRaw(s, Exec::addOff(p, 1), Val{0, nullptr}, TW(8)); } ret[0] = Val{1, nullptr}; return 0; };
  t["printf"] = BI { UNUSED; ret[0] = Val{}; return 0; }; t["puts"] = t["printf"]; t["putchar"] = t["printf"]; t["fprintf"] = t["printf"]; t["Rprintf"] = t["printf"]; t["fflush"] = t["printf"];
  // ---- math
  t["sqrt"] = BI { return math1(x, s, a, ret, ::sqrt, FSQRT, ""); }; t["fabs"] = BI { return math1(x, s, a, ret, ::fabs, FABS, ""); };
  t["floor"] = BI { return math1(x, s, a, ret, ::floor, FFLOOR, ""); }; t["ceil"] = BI { return math1(x, s, a, ret, ::ceil, FCEIL, ""); }; t["trunc"] = BI { return math1(x, s, a, ret, ::trunc, FTRUNC, ""); };
  t["round"] = BI { return rnd_away(x, s, a, ret); };
  t["log"] = BI { return math1(x, s, a, ret, ::log, UF, "log"); }; t["exp"] = BI { return math1(x, s, a, ret, ::exp, UF, "exp"); }; t["lgamma"] = BI { return math1(x, s, a, ret, ::lgamma, UF, "lgamma"); }; t["tgamma"] = BI { return math1(x, s, a, ret, ::tgamma, UF, "tgamma"); }; t["erf"] = BI { return math1(x, s, a, ret, ::erf, UF, "erf"); }; t["erfc"] = BI { return math1(x, s, a, ret, ::erfc, UF, "erfc"); }; t["atan"] = BI { return math1(x, s, a, ret, ::atan, UF, "atan"); }; t["log1p"] = BI { return math1(x, s, a, ret, ::log1p, UF, "log1p"); }; t["expm1"] = BI { return math1(x, s, a, ret, ::expm1, UF, "expm1"); }; t["cos"] = BI { return math1(x, s, a, ret, ::cos, UF, "cos"); }; t["sin"] = BI { return math1(x, s, a, ret, ::sin, UF, "sin"); };
  t["pow"] = BI { UNUSED; if (!a[0].e && !a[1].e) { ret[0] = dret(::pow(Exec::D(a[0].c), Exec::D(a[1].c))); return 0; } if (!a[1].e && Exec::D(a[1].c) == 2.0) { E v = dE(a[0]); ret[0] = Exec::fromE(mkF(FMUL, v, v)); return 0; } ret[0] = Exec::fromE(mkUF("pow", {dE(a[0]), dE(a[1])}, true, 64, -INF, INF, false)); return 0; };
  t["fmod"] = BI { UNUSED; if (!a[0].e && !a[1].e) { ret[0] = dret(::fmod(Exec::D(a[0].c), Exec::D(a[1].c))); return 0; } if (!a[1].e && Exec::D(a[1].c) == 1.0) { E v = dE(a[0]); ret[0] = Exec::fromE(mkF(FSUB, v, mkF(FTRUNC, v))); return 0; } ret[0] = Exec::fromE(mkUF("fmod", {dE(a[0]), dE(a[1])}, true, 64, -INF, INF, false)); return 0; };
  auto fmx = BI { UNUSED; bool mx = ci.name.find("max") != S::npos; if (!a[0].e && !a[1].e) { ret[0] = dret(mx ? std::fmax(Exec::D(a[0].c), Exec::D(a[1].c)) : std::fmin(Exec::D(a[0].c), Exec::D(a[1].c))); return 0; } E p = dE(a[0]), q = dE(a[1]); ret[0] = Exec::fromE(mx ? mkIte(mkFCmp(FLT, p, q), q, p) : mkIte(mkFCmp(FLT, q, p), q, p)); return 0; };
  t["fmax"] = fmx; t["fmin"] = fmx;
  auto lr = BI { UNUSED; Val r; rnd_away(x, s, a, &r); Inst I; memset(&I, 0, sizeof I); I.sub = Instruction::FPToSI; I.w = 64; I.w2 = 64; I.fl = 4; ret[0] = x.doCast(s, I, r); return 0; };
  t["lround"] = lr; t["llround"] = lr;
  t["nearbyint"] = BI { UNUSED; if (a[0].e) { E v = dE(a[0]), f = mkF(FFLOOR, v), d = mkF(FSUB, v, f), h = mkFC(0.5), up = mkF(FADD, f, mkFC(1)); E ev = mkFCmp(FEQ, mkF(FMUL, mkF(FFLOOR, mkF(FMUL, f, h)), mkFC(2)), f); ret[0] = Exec::fromE(mkIte(mkFCmp(FLT, d, h), f, mkIte(mkFCmp(FLT, h, d), up, mkIte(ev, f, up)))); return 0; } ret[0] = dret(::nearbyint(Exec::D(a[0].c))); return 0; }; t["rint"] = t["nearbyint"]; t["roundeven"] = t["nearbyint"];
#define M1(N) t[#N] = BI { UNUSED; ret[0] = dret(::N(x.concF(s, a[0], #N))); return 0; }
  M1(cbrt); M1(log2); M1(log10); M1(exp2); M1(sinh); M1(cosh); M1(tanh); M1(asin); M1(acos); M1(tan); M1(logb);
#define M2(N) t[#N] = BI { UNUSED; double p = x.concF(s, a[0], #N), q = x.concF(s, a[1], #N); ret[0] = dret(::N(p, q)); return 0; }
  M2(hypot); M2(remainder); M2(fdim); M2(atan2); M2(nextafter);
  t["ldexp"] = BI { UNUSED; int n = (int)(uint32_t)x.concI(s, a[1], 32, "ldexp"); if (!a[0].e) ret[0] = dret(std::ldexp(Exec::D(a[0].c), n)); else ret[0] = Exec::fromE(mkF(FMUL, dE(a[0]), mkFC(std::ldexp(1.0, n)))); return 0; }; t["scalbn"] = t["ldexp"];
  t["frexp"] = BI { UNUSED; double p = x.concF(s, a[0], "frexp"); uint64_t q = CI(x, s, a[1], 64); int e; double m = std::frexp(p, &e); x.storeRaw(s, q, Val{(uint64_t)(uint32_t)e, nullptr}, TW(32)); ret[0] = dret(m); return 0; };
  t["modf"] = BI { UNUSED; uint64_t q = CI(x, s, a[1], 64); if (!a[0].e) { double i, f = std::modf(Exec::D(a[0].c), &i); x.storeRaw(s, q, dret(i), TD()); ret[0] = dret(f); return 0; } E v = dE(a[0]), i = mkF(FTRUNC, v); x.storeRaw(s, q, Exec::fromE(i), TD()); ret[0] = Exec::fromE(mkF(FSUB, v, i)); return 0; };
  t["fma"] = BI { UNUSED; double p = x.concF(s, a[0], "fma"), q = x.concF(s, a[1], "fma"), r = x.concF(s, a[2], "fma"); ret[0] = dret(std::fma(p, q, r)); return 0; };
#define F1(N) t[#N "f"] = BI { UNUSED; ret[0] = Val{Exec::UF32(std::N(Exec::Fl(a[0].c))), nullptr}; return 0; }
  F1(sqrt); F1(fabs); F1(floor); F1(ceil); F1(trunc); F1(round); F1(log); F1(exp); F1(nearbyint); F1(rint); F1(erf); F1(erfc); F1(lgamma); F1(tgamma);
  t["powf"] = BI { UNUSED; ret[0] = Val{Exec::UF32(std::pow(Exec::Fl(a[0].c), Exec::Fl(a[1].c))), nullptr}; return 0; }; t["fmodf"] = BI { UNUSED; ret[0] = Val{Exec::UF32(std::fmod(Exec::Fl(a[0].c), Exec::Fl(a[1].c))), nullptr}; return 0; };
  t["fminf"] = BI { UNUSED; ret[0] = Val{Exec::UF32(std::fmin(Exec::Fl(a[0].c), Exec::Fl(a[1].c))), nullptr}; return 0; }; t["fmaxf"] = BI { UNUSED; ret[0] = Val{Exec::UF32(std::fmax(Exec::Fl(a[0].c), Exec::Fl(a[1].c))), nullptr}; return 0; };
  return t;
}
static std::unordered_map<S, Builtin>& table() { static auto t = mkTable(); return t; }

static int wOf(const CallInfo& ci) { return ci.argTy[0].w; }
Builtin Exec::findBuiltin(const S& n) {
  auto it = table().find(n); if (it != table().end()) return it->second;
  auto P = [&](const char* p) { return n.rfind(p, 0) == 0; };
  if (P("llvm.memcpy") || P("llvm.memmove")) return table()["memcpy"];
  if (P("llvm.memset")) return BI { UNUSED; uint64_t k = CI(x, s, a[2], 64), d = CI(x, s, a[0], 64); x.setMem(s, d, a[1], k); return 0; };
  for (const char* p : {"llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental.noalias", "llvm.stackrestore", "llvm.invariant", "llvm.prefetch", "llvm.donothing", "llvm.va_", "llvm.sideeffect"}) if (P(p)) return BI { UNUSED; return 0; };
  if (P("llvm.stacksave")) return BI { UNUSED; ret[0] = Val{}; return 0; };
  if (P("llvm.expect") || P("llvm.launder") || P("llvm.strip") || P("llvm.threadlocal") || P("llvm.ssa.copy")) return BI { UNUSED; ret[0] = a[0]; return 0; };
  if (P("llvm.trap") || P("llvm.ubsantrap") || P("llvm.debugtrap")) return BI { UNUSED; throw MemErr{"trap"}; };
  if (P("llvm.eh.typeid.for")) return BI { UNUSED; ret[0] = Val{a[0].c >> 32, nullptr}; return 0; };
  if (P("llvm.umin")) return BI { UNUSED; return minmax(x, a, ret, wOf(ci), 0); }; if (P("llvm.umax")) return BI { UNUSED; return minmax(x, a, ret, wOf(ci), 1); };
  if (P("llvm.smin")) return BI { UNUSED; return minmax(x, a, ret, wOf(ci), 2); }; if (P("llvm.smax")) return BI { UNUSED; return minmax(x, a, ret, wOf(ci), 3); };
  if (P("llvm.abs")) return BI { UNUSED; int w = wOf(ci); E p = Exec::toI(a[0], w); ret[0] = Exec::fromE(mkIte(mkCmp(SLT, p, mkC(0, w)), mkBin(SUB, mkC(0, w), p), p)); return 0; };
  if (P("llvm.fabs.f64")) return table()["fabs"]; if (P("llvm.sqrt.f64")) return table()["sqrt"]; if (P("llvm.floor.f64")) return table()["floor"]; if (P("llvm.ceil.f64")) return table()["ceil"]; if (P("llvm.trunc.f64")) return table()["trunc"]; if (P("llvm.round.f64")) return table()["round"]; if (P("llvm.exp.f64")) return table()["exp"]; if (P("llvm.log.f64")) return table()["log"]; if (P("llvm.pow.f64")) return table()["pow"]; if (P("llvm.cos.f64")) return table()["cos"]; if (P("llvm.sin.f64")) return table()["sin"];
  for (const char* m : {"ldexp", "pow", "rint", "roundeven", "fma", "log2", "log10", "exp2", "fmod"}) if (P((S("llvm.") + m + ".f64").c_str())) return table()[m];
  for (const char* m : {"sqrt", "fabs", "floor", "ceil", "trunc", "round", "log", "exp", "nearbyint", "rint", "pow"}) if (P((S("llvm.") + m + ".f32").c_str())) return table()[S(m) + "f"];
  if (P("llvm.maxnum.f32")) return table()["fmaxf"]; if (P("llvm.minnum.f32")) return table()["fminf"];
  if (P("llvm.maxnum.f64") || P("llvm.maximum.f64")) return table()["fmax"]; if (P("llvm.minnum.f64") || P("llvm.minimum.f64")) return table()["fmin"]; if (P("llvm.lround") || P("llvm.llround")) return table()["lround"]; if (P("llvm.rint.f64") || P("llvm.nearbyint.f64")) return table()["rint"];
  if (P("llvm.fmuladd.f64")) return BI { UNUSED; Val m = x.fbin(FMUL, a[0], a[1], false); ret[0] = x.fbin(FADD, m, a[2], false); return 0; };
  if (P("llvm.copysign.f64")) return BI { UNUSED; double p = x.concF(s, a[0], "copysign"), q = x.concF(s, a[1], "copysign"); ret[0] = dret(std::copysign(p, q)); return 0; };
  if (P("llvm.is.fpclass")) return BI { UNUSED; uint64_t m = a[1].c; if (a[0].e) { E v = dE(a[0]); E nan = x.fcmpE(CmpInst::FCMP_UNO, v, v); E inf = mkBin(OR, mkFCmp(FEQ, v, mkFC(INF)), mkFCmp(FEQ, v, mkFC(-INF))); if (v->fin) inf = mkFalse(); if (m == 3) { ret[0] = Exec::fromE(nan); return 0; } if (m == 516) { ret[0] = Exec::fromE(inf); return 0; } if (m == 504) { ret[0] = Exec::fromE(mkNot(mkBin(OR, nan, inf))); return 0; } if (m == 519) { ret[0] = Exec::fromE(mkBin(OR, nan, inf)); return 0; } throw PathEnd{"unsupported:fpclass"}; }
    double d = Exec::D(a[0].c); int c = std::fpclassify(d); bool ng = std::signbit(d); uint64_t b = c == FP_NAN ? 3 : c == FP_INFINITE ? (ng ? 4 : 512) : c == FP_NORMAL ? (ng ? 8 : 256) : c == FP_SUBNORMAL ? (ng ? 16 : 128) : (ng ? 32 : 64); ret[0] = Val{(uint64_t)((b & m) != 0), nullptr}; return 0; };
  if (P("llvm.cttz")) return BI { UNUSED; int w = wOf(ci); if (!a[0].e) { uint64_t v = a[0].c; ret[0] = Val{v ? (uint64_t)__builtin_ctzll(v) : (uint64_t)w, nullptr}; return 0; } ret[0] = Exec::fromE(raw(CTTZ, w, false, {Exec::toI(a[0], w)}, 0, 0, [&](Expr* e) { e->lo = 0; e->hi = w; })); return 0; };
  if (P("llvm.ctlz")) return BI { UNUSED; int w = wOf(ci); if (!a[0].e) { uint64_t v = a[0].c; ret[0] = Val{v ? (uint64_t)(__builtin_clzll(v) - (64 - w)) : (uint64_t)w, nullptr}; return 0; } ret[0] = Exec::fromE(raw(CTLZ, w, false, {Exec::toI(a[0], w)}, 0, 0, [&](Expr* e) { e->lo = 0; e->hi = w; })); return 0; };
  if (P("llvm.ctpop")) return BI { UNUSED; int w = wOf(ci); if (!a[0].e) { ret[0] = Val{(uint64_t)__builtin_popcountll(a[0].c), nullptr}; return 0; } ret[0] = Exec::fromE(raw(CTPOP, w, false, {Exec::toI(a[0], w)}, 0, 0, [&](Expr* e) { e->lo = 0; e->hi = w; })); return 0; };
  if (P("llvm.fshl") || P("llvm.fshr")) return BI { UNUSED; int w = wOf(ci); E p = Exec::toI(a[0], w), q = Exec::toI(a[1], w); if (a[2].e) throw PathEnd{"unsupported:fshl"}; int k = (int)(a[2].c % w); bool l = ci.name.find("fshl") != S::npos; if (k == 0) { ret[0] = l ? a[0] : a[1]; return 0; } if (!l) k = w - k; ret[0] = Exec::fromE(mkBin(OR, mkBin(SHL, p, mkC(k, w)), mkBin(LSHR, q, mkC(w - k, w)))); return 0; };
  if (P("llvm.bswap")) return BI { UNUSED; if (a[0].e) throw PathEnd{"unsupported:bswap"}; int w = wOf(ci); ret[0] = Val{__builtin_bswap64(a[0].c) >> (64 - w), nullptr}; return 0; };
  if (P("llvm.uadd.with")) return BI { UNUSED; return ovf(x, s, a, ret, wOf(ci), ADD, false); }; if (P("llvm.sadd.with")) return BI { UNUSED; return ovf(x, s, a, ret, wOf(ci), ADD, true); }; if (P("llvm.usub.with")) return BI { UNUSED; return ovf(x, s, a, ret, wOf(ci), SUB, false); }; if (P("llvm.ssub.with")) return BI { UNUSED; return ovf(x, s, a, ret, wOf(ci), SUB, true); }; if (P("llvm.umul.with")) return BI { UNUSED; return ovf(x, s, a, ret, wOf(ci), MUL, false); }; if (P("llvm.smul.with")) return BI { UNUSED; return ovf(x, s, a, ret, wOf(ci), MUL, true); };
  if (P("llvm.usub.sat")) return BI { UNUSED; int w = wOf(ci); E p = Exec::toI(a[0], w), q = Exec::toI(a[1], w); ret[0] = Exec::fromE(mkIte(mkCmp(ULT, p, q), mkC(0, w), mkBin(SUB, p, q))); return 0; };
  if (P("llvm.uadd.sat")) return BI { UNUSED; int w = wOf(ci); E p = Exec::toI(a[0], w), q = Exec::toI(a[1], w); E r = mkBin(ADD, p, q); ret[0] = Exec::fromE(mkIte(mkCmp(ULT, r, p), mkC(-1, w), r)); return 0; };
  if (P("llvm.vector.reduce.add")) return BI { UNUSED; int w = ci.ret[0].w; Val r = a[0]; for (size_t i = 1; i < a.size(); ++i) r = x.bin(s, ADD, r, a[i], w); ret[0] = r; return 0; };
  if (P("llvm.objectsize")) return BI { UNUSED; ret[0] = Val{~0ull, nullptr}; return 0; };
  if (P("llvm.is.constant")) return BI { UNUSED; ret[0] = Val{}; return 0; };
  // number formatting only feeds messages: a fixed text keeps the executor from forking on digits
  if (P("_ZNSt7__cxx119to_stringE")) return BI { UNUSED; uint64_t p = CI(x, s, a[0], 64); x.storeRaw(s, p, Val{Exec::addOff(p, 16), nullptr}, TW(64)); x.storeRaw(s, Exec::addOff(p, 8), Val{1, nullptr}, TW(64)); x.storeRaw(s, Exec::addOff(p, 16), Val{'?', nullptr}, TW(8)); x.storeRaw(s, Exec::addOff(p, 17), Val{0, nullptr}, TW(8)); return 0; };
  return nullptr;
}
