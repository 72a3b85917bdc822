// ------------------------------------------------ driver
static S jesc(const S& s) { S r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static Exec* X;
static int realMain() {
  Exec& x = *X; x.t0 = std::chrono::steady_clock::now();
  // load & link
  for (auto& f : O.bc) { SMDiagnostic err; auto m = parseIRFile(f, err, x.ctx); if (!m) { err.print("symex", errs()); return 3; } if (!x.M) x.M = std::move(m); else if (Linker::linkModules(*x.M, std::move(m))) { fprintf(stderr, "link failure\n"); return 3; } }
  Module& M = *x.M; x.DL = &M.getDataLayout();
  // overrides: function "override.NAME" or "__wrap_NAME" replaces NAME; "__real_NAME" is then what was replaced
  if (!O.noopt) { std::vector<std::pair<Function*, S>> ov; for (auto& f : M.functions()) { if (f.isDeclaration()) continue; if (f.getName().starts_with("override.")) ov.emplace_back(&f, f.getName().substr(9).str()); else if (f.getName().starts_with("__wrap_") && !M.getFunction(("override." + f.getName().substr(7)).str())) ov.emplace_back(&f, f.getName().substr(7).str()); }
    for (auto& [o, n] : ov) { Function* t = M.getFunction(n); if (!t) continue; t->replaceAllUsesWith(o); x.overrides.insert(n); if (Function* r = M.getFunction("__real_" + n)) r->replaceAllUsesWith(t); } }
  // bodies modelled by the engine become declarations
  for (auto& f : M.functions()) if (!f.isDeclaration() && (f.getName().starts_with("_ZNSt7__cxx119to_stringE"))) { f.deleteBody(); f.setComdat(nullptr); }
  for (auto& f : M.functions()) { f.removeFnAttr(Attribute::OptimizeNone); if (!f.isDeclaration()) f.removeFnAttr(Attribute::NoInline); }
  if (!M.getFunction(O.entry)) { fprintf(stderr, "no entry %s\n", O.entry.c_str()); return 3; }
  std::set<S> keep = {O.entry, "symrt_throw_bad_alloc", "symrt_throw_length_error", "symrt_throw_out_of_range", "symrt_throw_logic_error", "symrt_throw_invalid_argument", "symrt_throw_runtime_error"};
  if (!O.noopt) {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PipelineTuningOptions PTO; PTO.LoopVectorization = false; PTO.SLPVectorization = false; PTO.LoopInterleaving = false; PTO.LoopUnrolling = false;
    PassBuilder PB(nullptr, PTO); PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    ModulePassManager P0; P0.addPass(InternalizePass([&](const GlobalValue& g) { return keep.count(g.getName().str()) > 0 || g.getName().starts_with("symrt_"); })); P0.addPass(GlobalDCEPass()); P0.run(M, MAM);
    ModulePassManager MPM = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1); MPM.run(M, MAM);
  }
  if (!O.emit.empty()) { std::error_code ec; raw_fd_ostream os(O.emit, ec); WriteBitcodeToFile(M, os); return 0; }
  if (getenv("SYMEX_DUMP")) { std::error_code ec; raw_fd_ostream os(getenv("SYMEX_DUMP"), ec); M.print(os, nullptr); }
  if (verifyModule(M, &errs())) return 3;
  x.solver.reset(new PathSolver(O.mode, O.timeout));
  State* s0 = new State(); s0->wit = std::make_shared<Assign>(); s0->wit->stamp = evalStampNew(); x.setup(*s0);
  double prep = x.elapsed();
  // global constructors then entry: run the ctors as a prefix of the single initial path
  std::vector<std::pair<uint64_t, Function*>> ctors; if (auto* g = M.getNamedGlobal("llvm.global_ctors")) if (g->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer())) for (auto& op : ca->operands()) { auto* st = cast<ConstantStruct>(op); if (auto* f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) ctors.emplace_back(cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  int rc = 0; std::vector<Val> none;
  for (auto& c : ctors) { x.cur = s0; try { x.enter(*s0, x.funcs[c.second], none, 0); x.stepLoop(*s0); } catch (PathEnd& p) { fprintf(stderr, "ctor %s: %s\n", c.second->getName().str().c_str(), p.why.c_str()); s0->st.clear(); } catch (MemErr& m) { fprintf(stderr, "ctor %s: %s\n", c.second->getName().str().c_str(), m.what.c_str()); s0->st.clear(); } }
  s0->steps = 0; x.t0 = std::chrono::steady_clock::now();
  x.enter(*s0, x.funcs[M.getFunction(O.entry)], none, 0); x.push(s0); x.forksTotal = 0;
  while (!x.work.empty()) {
    if (x.elapsed() > O.budget || x.paths >= O.maxPaths) { x.truncated = true; break; }
    if (O.stopOnCand && !x.cands.empty()) break;
    // depth first, but once in a while take the oldest state when under time pressure
    State* s = x.work.back(); x.work.pop_back(); x.run(s);
  }
  uint64_t left = x.work.size();
  // coverage
  std::map<S, uint64_t> fns; for (auto& kv : x.funcs) { Func* f = kv.second; if (!f->compiled) continue; for (size_t i = 0; i < f->code.size(); ++i) if (f->cov[i]) { Instruction* I = f->src[i]; const DebugLoc& dl = I->getDebugLoc(); if (!dl) continue; DILocation* L = dl.get(); for (; L; L = L->getInlinedAt()) { auto* sp = L->getScope()->getSubprogram(); if (!sp) continue; S file = sp->getFilename().str(); if (file.find(O.covsrc) != S::npos || (sp->getDirectory() + "/" + file).str().find(O.covsrc) != S::npos) ++fns[(sp->getName()).str()]; } } }
  std::ostringstream os; os << "{\n\"paths\":" << x.paths << ",\"completed\":" << x.completed << ",\"states_left\":" << left << ",\"truncated\":" << (x.truncated || left ? "true" : "false") << ",\"steps\":" << x.steps << ",\"forks\":" << x.forksTotal << ",\"merged_branches\":" << x.merges << ",\"bound_cuts\":" << x.boundCuts << ",\"obligations\":" << x.obligations << ",\"discharged\":" << x.discharged << ",\"discharged_trivially\":" << x.trivial << ",\"queries\":" << g_stats.queries << ",\"sat\":" << g_stats.sat << ",\"unsat\":" << g_stats.unsat << ",\"unknown\":" << g_stats.unknown << ",\"fp_queries\":" << g_stats.fpQueries << ",\"model_cache_hits\":" << x.cacheHits << ",\"spurious_models\":" << x.spurious << ",\"solver_s\":" << g_stats.solverTime << ",\"prep_s\":" << prep << ",\"wall_s\":" << x.elapsed() << ",\n";
  auto mp = [&](const char* k, std::map<S, uint64_t>& m) { os << "\"" << k << "\":{"; bool f = true; for (auto& p : m) { os << (f ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; f = false; } os << "},\n"; };
  mp("ended", x.ended); mp("covers", x.coverCnt); mp("undecided", x.undecided); mp("unsupported", x.unsupported); mp("functions", fns);
  os << "\"labels\":{"; { bool f = true; for (auto& p : x.oblig) { os << (f ? "" : ",") << "\"" << jesc(p.first) << "\":[" << p.second.first << "," << p.second.second << "]"; f = false; } } os << "},\n\"overrides\":["; { bool f = true; for (auto& o : x.overrides) { os << (f ? "" : ",") << "\"" << o << "\""; f = false; } } os << "],\n\"samples\":["; for (size_t i = 0; i < x.samplesJson.size(); ++i) os << (i ? "," : "") << x.samplesJson[i]; os << "],\n\"candidates\":[";
  for (size_t i = 0; i < x.cands.size(); ++i) { Cand& c = x.cands[i]; os << (i ? ",\n" : "") << "{\"label\":\"" << jesc(c.label) << "\",\"kind\":\"" << c.kind << "\",\"exact\":" << (c.exact ? "true" : "false") << ",\"detail\":\"" << jesc(c.detail) << "\",\"inputs\":{"; bool f = true; for (auto& p : c.inputs) { os << (f ? "" : ",") << "\"" << p.first << "\":\"" << p.second << "\""; f = false; } os << "}}"; }
  os << "]\n}\n";
  if (O.out.empty()) std::cout << os.str(); else { std::ofstream o(O.out); o << os.str(); }
  return rc;
}
static int g_rc; static void* thr(void*) { g_rc = realMain(); return nullptr; }
int main(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) { S a = argv[i]; auto v = [&](const char* p) -> const char* { size_t n = strlen(p); return a.compare(0, n, p) == 0 ? argv[i] + n : nullptr; }; const char* q;
    if ((q = v("--entry="))) O.entry = q; else if ((q = v("--emit="))) O.emit = q; else if ((q = v("--out="))) O.out = q; else if ((q = v("--mode="))) O.mode = S(q) == "bv" ? M_BV : S(q) == "fp" ? M_FP : M_INT; else if ((q = v("--timeout="))) O.timeout = atoi(q); else if ((q = v("--budget="))) O.budget = atof(q); else if ((q = v("--maxsteps="))) O.maxsteps = strtoull(q, 0, 10); else if ((q = v("--maxfork="))) O.maxfork = atoi(q); else if ((q = v("--samples="))) O.samples = atoi(q); else if ((q = v("--maxpaths="))) O.maxPaths = strtoull(q, 0, 10); else if ((q = v("--seed="))) g_seed = strtoull(q, 0, 10); else if ((q = v("--covsrc="))) O.covsrc = q; else if ((q = v("--maxcand="))) O.maxCand = atoi(q); else if ((q = v("--fptimeout="))) O.fpTimeout = atoi(q);
    else if ((q = v("--merge="))) O.merge = atoi(q); else if (a == "--free") g_free = true; else if (a == "--log") { g_log = true; g_dymul = false; } else if (a == "--assoc") g_assoc = true; else if (a == "--nodyadic") g_dyadic = false; else if (a == "--norefine") O.fpRefine = false; else if (a == "--verbose") O.verbose = true; else if (a == "--stop") O.stopOnCand = true; else if (a == "--noopt") O.noopt = true;
    else if ((q = v("--param="))) { S p = q; auto e = p.find('='); O.params[p.substr(0, e)] = strtoll(p.substr(e + 1).c_str(), 0, 0); }
    else if (a[0] == '-') { fprintf(stderr, "bad option %s\n", a.c_str()); return 3; } else O.bc.push_back(a); }
  X = new Exec(); pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1ull << 30); pthread_t th; pthread_create(&th, &at, thr, nullptr); pthread_join(th, nullptr); fflush(stdout); _exit(g_rc);
}
