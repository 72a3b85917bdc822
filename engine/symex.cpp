// Forking symbolic executor for LLVM 18 bitcode. See DESIGN.md.
#include <unistd.h>
#include "solver.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/IR/Verifier.h>
#include <llvm/Analysis/PostDominators.h>
#include <sys/resource.h>
#include <pthread.h>
#include <set>
#include <deque>
#include <fstream>
#include <sstream>
#include <iostream>
using namespace llvm;

Stats g_stats; bool g_free = false, g_log = false; uint64_t g_seed = 1;
typedef std::string S;

// ------------------------------------------------------------------ options
struct Opts { std::string emit; 
  std::vector<S> bc; S entry = "sym_main", out, covsrc = "/repo/"; Mode mode = M_INT; unsigned timeout = 4000; double budget = 120; uint64_t maxsteps = 40000000; int maxfork = 1 << 30; S forkfn;
  std::map<S, int64_t> params; bool fpRefine = true; int samples = 6; bool verbose = false; int maxCand = 6; uint64_t maxPaths = 1u << 30; S only; bool stopOnCand = false; bool noopt = false; int merge = 0; unsigned fpTimeout = 8000; size_t maxMem = 3500;
} O;

// ------------------------------------------------------------------ values & memory
struct Val { uint64_t c = 0; E e = nullptr; };
struct SymCell { uint32_t off; uint8_t size; E e; };
enum { OK_CONC = 0, ST_UNINIT = 1, ST_SYM = 2 };
struct Obj {
  int refs = 0; uint32_t size = 0; uint8_t kind = 0; bool ro = false, freed = false; // kind 0 global 1 heap 2 stack 3 function
  std::vector<uint8_t> data, st; std::vector<SymCell> sym; // st empty => fully concrete
};
struct ObjRef {
  Obj* p = nullptr; ObjRef() {} explicit ObjRef(Obj* o) : p(o) { if (p) ++p->refs; } ObjRef(const ObjRef& r) : p(r.p) { if (p) ++p->refs; } ObjRef(ObjRef&& r) : p(r.p) { r.p = nullptr; }
  ObjRef& operator=(ObjRef r) { std::swap(p, r.p); return *this; } ~ObjRef() { if (p && --p->refs == 0) delete p; }
};
static const int PG = 128;
struct Page { int refs = 0; ObjRef o[PG]; };
struct PageRef {
  Page* p = nullptr; PageRef() {} explicit PageRef(Page* o) : p(o) { if (p) ++p->refs; } PageRef(const PageRef& r) : p(r.p) { if (p) ++p->refs; } PageRef(PageRef&& r) : p(r.p) { r.p = nullptr; }
  PageRef& operator=(PageRef r) { std::swap(p, r.p); return *this; } ~PageRef() { if (p && --p->refs == 0) delete p; }
};
struct Mem {
  std::vector<PageRef> pages; uint32_t next = 1;
  Obj* rd(uint32_t id) { if (id == 0 || id >= next) return nullptr; return pages[id / PG].p->o[id % PG].p; }
  Obj* wr(uint32_t id) {
    PageRef& pr = pages[id / PG]; if (pr.p->refs > 1) { Page* np = new Page(); for (int i = 0; i < PG; ++i) np->o[i] = pr.p->o[i]; pr = PageRef(np); }
    ObjRef& r = pr.p->o[id % PG]; if (r.p->refs > 1) { Obj* n = new Obj(*r.p); n->refs = 0; r = ObjRef(n); } return r.p;
  }
  uint32_t alloc(Obj* o) {
    uint32_t id = next++; if (id / PG >= pages.size()) pages.push_back(PageRef(new Page()));
    PageRef& pr = pages[id / PG]; if (pr.p->refs > 1) { Page* np = new Page(); for (int i = 0; i < PG; ++i) np->o[i] = pr.p->o[i]; pr = PageRef(np); }
    pr.p->o[id % PG] = ObjRef(o); return id;
  }
};
struct MemErr { S what; };
struct Iso { Mem mem; };

// ------------------------------------------------------------------ compiled code
struct TyI { bool fp = false, f32 = false; uint16_t w = 64; uint32_t off = 0; };
enum OPC : uint8_t { I_BIN, I_FBIN, I_ICMP, I_FCMP, I_CAST, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_UNREACH, I_EXTRACT, I_INSERT, I_LPAD, I_RESUME, I_FNEG, I_FREEZE, I_VEXTRACT, I_VINSERT, I_SHUFFLE, I_ATOMIC, I_CMPXCHG, I_UNSUP, I_MOVE };
struct Func; struct Exec; struct State; struct CallInfo;
typedef int (*Builtin)(Exec&, State&, const CallInfo&, std::vector<Val>&, Val*);
struct Arg { int op; uint16_t lanes; };
struct Edge { uint32_t pc; std::vector<std::pair<int, int>> cp; bool par = false; };
struct LpClause { int kind; uint32_t ti; std::vector<uint32_t> filt; }; // kind 0 catch,1 filter
struct Lpad { bool cleanup = false; std::vector<LpClause> cl; };
struct CallInfo { Func* f = nullptr; Builtin b = nullptr; S name; int callee = 0; std::vector<Arg> args; std::vector<TyI> argTy; std::vector<TyI> ret; bool invoke = false; Edge normal, unwind; uint32_t lpad = 0; int intr = 0; bool vararg = false; std::vector<std::pair<int,uint32_t>> byval; };
struct Gep { int base; int64_t off; std::vector<std::tuple<int, int, int64_t>> idx; uint16_t lanes = 1; };
struct Inst { uint8_t op; uint8_t sub; uint16_t w; uint16_t lanes; uint8_t fl; uint8_t w2; uint32_t dst; int a, b, c; uint32_t aux; };
struct Func {
  Function* F; S name; bool compiled = false; std::vector<Inst> code; std::vector<uint32_t> bbOf; uint32_t nreg = 0; std::vector<Val> consts; std::vector<TyI> argTy;
  std::vector<CallInfo*> calls; std::vector<Gep> geps; std::vector<Edge> edges; std::vector<std::vector<TyI>> tys; std::vector<std::vector<int>> lists; std::vector<Lpad> lpads;
  struct Sw { int v; uint16_t w; std::vector<std::pair<uint64_t, uint32_t>> cs; uint32_t def; }; std::vector<Sw> sws;
  std::vector<Instruction*> src; std::vector<bool> cov; bool pdom = false; std::unordered_map<uint32_t, std::pair<uint32_t, std::vector<std::pair<uint32_t, TyI>>>> join; uint32_t id = 0; std::vector<Builtin> bl;
};
struct Frame { Func* f; uint32_t pc; std::vector<Val> r; std::vector<uint32_t> allocas; uint32_t retDst; };
struct Obs { S name; bool fp; E e; uint64_t c; int w; };
struct State {
  std::vector<std::shared_ptr<Iso>> iso; Mem mem; std::vector<Frame> st; std::vector<E> pc; std::shared_ptr<Assign> wit; uint64_t steps = 0;
  uint64_t excObj = 0; uint32_t excTi = 0, lastSel = 0; std::vector<std::pair<uint64_t, uint32_t>> caught; // stack of caught exceptions
  std::vector<std::pair<S, E>> inputs; std::map<S, int> nameCnt; std::vector<Obs> obs; std::vector<std::pair<const void*, int>> forks; std::vector<S> covers; int uninit = 0; int asserts = 0; std::map<uint64_t, uint32_t> excTypes; S lastThrow; bool suspect = false;
};
struct Cand { S label, kind, detail; std::vector<std::pair<S, S>> inputs; bool exact; std::vector<std::vector<std::pair<S, S>>> alt; };

static TyI tyi(Type* t) { TyI r; if (t->isDoubleTy()) { r.fp = true; r.w = 64; } else if (t->isFloatTy()) { r.fp = true; r.f32 = true; r.w = 32; } else if (t->isIntegerTy()) r.w = t->getIntegerBitWidth(); else if (t->isPointerTy()) r.w = 64; else if (t->isX86_FP80Ty()) { r.fp = true; r.w = 80; } else r.w = 0; return r; }

struct PathEnd { S why; };
struct ReExec {};
struct SpecFail {}; // a speculative execution of a branch region cannot be merged

struct Exec {
  LLVMContext ctx; std::unique_ptr<Module> M; const DataLayout* DL;
  std::unordered_map<const Function*, Func*> funcs; std::vector<Func*> funcById; // object id -> func
  std::unordered_map<const GlobalValue*, uint32_t> gid; std::unordered_map<uint32_t, Func*> idFunc; std::unordered_map<uint32_t, S> idName; std::unordered_map<S, uint32_t> extFn;
  std::map<uint32_t, GlobalVariable*> idGV;
  std::unique_ptr<PathSolver> solver; std::vector<State*> work; State* cur = nullptr;
  std::vector<Cand> cands; std::map<S, int> candPerLabel; std::map<S, uint64_t> ended; std::map<S, uint64_t> coverCnt; std::map<S, std::pair<uint64_t, uint64_t>> oblig; // label -> (discharged by solver, trivially)
  std::map<S, uint64_t> undecided; std::map<S, uint64_t> unsupported; uint64_t paths = 0, steps = 0, obligations = 0, discharged = 0, trivial = 0, forksTotal = 0, boundCuts = 0, spurious = 0; bool truncated = false;
  std::set<S> overrides; S notes; std::chrono::steady_clock::time_point t0; std::vector<S> samplesJson; uint64_t completed = 0; S lastSampleKey;
  double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

  // ---------------- conversions
  static E toE(const Val& v, const TyI& t) { if (v.e) return v.e; if (t.fp) { if (t.f32) { float f; uint32_t u = (uint32_t)v.c; memcpy(&f, &u, 4); return mkFC(f); } double d; memcpy(&d, &v.c, 8); return mkFC(d); } return mkC(sext128((u128)v.c, t.w), t.w); }
  static E toI(const Val& v, int w) { if (v.e) { if (v.e->fp) { E x = v.e; if (x->op == BITS2F) return x->a[0]; return raw(F2BITS, 64, false, {x}, 0, 0, [](Expr*) {}); } return v.e; } return mkC(sext128((u128)v.c, w), w); }
  static E toF(const Val& v) { if (v.e) { if (!v.e->fp) { if (v.e->op == F2BITS) return v.e->a[0]; return raw(BITS2F, 64, true, {v.e}, 0, 0, [](Expr* x) { x->hasAx = true; }); } return v.e; } double d; memcpy(&d, &v.c, 8); return mkFC(d); }
  static Val fromE(E e) { Val v; if (e->op == ICONST && e->w <= 64) { v.c = maskw((uint64_t)e->c, e->w); return v; } if (e->op == FCONST) { memcpy(&v.c, &e->d, 8); return v; } v.e = e; return v; }

  // ---------------- memory
  uint64_t newObj(State& s, uint32_t size, int kind, bool uninit) { if (spec) throw SpecFail{}; Obj* o = new Obj(); o->size = size; o->kind = kind; o->data.assign(size, 0); if (uninit && size) o->st.assign(size, ST_UNINIT); return (uint64_t)s.mem.alloc(o) << 32; }
  Obj* chk(State& s, uint64_t addr, uint32_t size, bool write, uint32_t& off) {
    uint32_t id = addr >> 32; int32_t o = (int32_t)(uint32_t)addr; Obj* ob = s.mem.rd(id);
    if (!ob) throw MemErr{id == 0 ? "null or wild pointer dereference" : "wild pointer dereference"};
    if (ob->freed) throw MemErr{ob->kind == 2 ? "use of dead stack object" : "heap-use-after-free"};
    if (o < 0 || (uint64_t)o + size > ob->size) throw MemErr{std::string(ob->kind == 1 ? "heap" : ob->kind == 2 ? "stack" : "global") + "-buffer-overflow (" + (write ? "write" : "read") + " of " + std::to_string(size) + " at offset " + std::to_string(o) + " of object of size " + std::to_string(ob->size) + ")"};
    if (write && ob->ro) throw MemErr{"write to read-only object"};
    if (ob->kind == 3) throw MemErr{"data access to function"};
    off = o; return ob;
  }
  static E byteOf(Exec& x, State& s, Obj* ob, uint32_t off) { // symbolic byte
    if (ob->st.empty() || ob->st[off] == OK_CONC) return mkC(ob->data[off], 8);
    if (ob->st[off] == ST_UNINIT) { return x.freshVar(s, "uninit", 8); }
    for (auto& cl : ob->sym) if (off >= cl.off && off < (uint32_t)cl.off + cl.size) { E v = cl.e->fp ? toI(Val{0, cl.e}, 64) : cl.e; int k = off - cl.off; E sh = k ? mkBin(LSHR, v, mkC(8 * k, v->w)) : v; return sh->w == 8 ? sh : (sh->w < 8 ? mkExt(ZEXT, sh, 8) : mkExt(TRUNC, sh, 8)); }
    return mkC(0, 8);
  }
  Val load(State& s, uint64_t addr, const TyI& t) {
    uint32_t n = (t.w + 7) / 8, off; Obj* ob = chk(s, addr, n, false, off);
    bool conc = true, sy = false; if (!ob->st.empty()) for (uint32_t i = 0; i < n; ++i) { if (ob->st[off + i] != OK_CONC) conc = false; if (ob->st[off + i] == ST_SYM) sy = true; }
    Val v;
    if (conc) { memcpy(&v.c, &ob->data[off], n); v.c = maskw(v.c, t.w); return v; }
    if (sy) for (auto& cl : ob->sym) if (cl.off == off && cl.size == n) {
        v.e = cl.e; if (t.fp && !cl.e->fp) v.e = toF(v); else if (!t.fp && cl.e->fp) v.e = toI(v, 64);
        if (!t.fp && v.e->w != t.w) v.e = v.e->w > t.w ? mkExt(TRUNC, v.e, t.w) : mkExt(ZEXT, v.e, t.w);
        return v;
      }
    bool allUn = true; for (uint32_t i = 0; i < n; ++i) if (ob->st[off + i] != ST_UNINIT) allUn = false;
    if (allUn) { if (t.fp) { v.e = toF(Val{0, freshVar(s, "uninit", 64)}); } else v.e = freshVar(s, "uninit", t.w); 
      return v; }
    E r = nullptr; for (uint32_t i = 0; i < n; ++i) { E b = mkExt(ZEXT, byteOf(*this, s, ob, off + i), n * 8); b = i ? mkBin(SHL, b, mkC(8 * i, n * 8)) : b; r = r ? mkBin(OR, r, b) : b; }
    if (t.fp) return Val{0, toF(Val{0, r})};
    if (t.w < n * 8) r = mkExt(TRUNC, r, t.w);
    return fromE(r);
  }
  static void clearSym(Exec& x, State& s, Obj* o, uint32_t off, uint32_t n) { // remove overlapping cells; split partial ones to bytes
    if (o->sym.empty()) return;
    for (size_t i = 0; i < o->sym.size();) {
      SymCell cl = o->sym[i]; if (cl.off + cl.size <= off || cl.off >= off + n) { ++i; continue; }
      std::vector<std::pair<uint32_t, E>> keep; for (uint32_t b = cl.off; b < (uint32_t)cl.off + cl.size; ++b) if (b < off || b >= off + n) keep.emplace_back(b, byteOf(x, s, o, b));
      o->sym[i] = o->sym.back(); o->sym.pop_back();
      for (auto& k : keep) { if (k.second->isC()) { o->st[k.first] = OK_CONC; o->data[k.first] = (uint8_t)k.second->c; } else o->sym.push_back({k.first, 1, k.second}); }
    }
  }
  void storeRaw(State& s, uint64_t addr, const Val& v, const TyI& t) {
    if (spec) { if (t.w % 8) throw SpecFail{}; journal.emplace_back(addr, t); }
    uint32_t n = (t.w + 7) / 8, off; chk(s, addr, n, true, off); Obj* o = s.mem.wr(addr >> 32);
    if (!v.e) { if (!o->st.empty()) { clearSym(*this, s, o, off, n); memset(&o->st[off], 0, n); } uint64_t c = v.c; if (n <= 8) memcpy(&o->data[off], &c, n); else { memset(&o->data[off], 0, n); memcpy(&o->data[off], &c, 8); } return; }
    if (o->st.empty()) o->st.assign(o->size, OK_CONC); clearSym(*this, s, o, off, n); memset(&o->st[off], ST_SYM, n); E e = v.e; if (!e->fp && e->w != n * 8) e = mkExt(ZEXT, e, n * 8); o->sym.push_back({off, (uint8_t)n, e});
  }
  void copyMem(State& s, uint64_t dst, uint64_t src, uint64_t n) {
    if (n == 0) return; if (spec) throw SpecFail{}; if (n > (1u << 30)) throw MemErr{"copy of huge size"};
    uint32_t so, dof; chk(s, src, n, false, so); chk(s, dst, n, true, dof); Obj* o0 = s.mem.rd(src >> 32);
    bool plain = o0->st.empty(); if (!plain) { plain = true; for (uint64_t i = 0; i < n; ++i) if (o0->st[so + i]) { plain = false; break; } }
    std::vector<uint8_t> d(o0->data.begin() + so, o0->data.begin() + so + n), stv; std::vector<SymCell> cells;
    if (!plain) { stv.assign(o0->st.begin() + so, o0->st.begin() + so + n);
      for (auto& cl : o0->sym) { if (cl.off + cl.size <= so || cl.off >= so + n) continue; if (cl.off >= so && cl.off + cl.size <= so + n) cells.push_back({(uint32_t)(cl.off - so), cl.size, cl.e}); else for (uint32_t b = cl.off; b < (uint32_t)cl.off + cl.size; ++b) if (b >= so && b < so + n) cells.push_back({(uint32_t)(b - so), 1, byteOf(*this, s, o0, b)}); } }
    Obj* o = s.mem.wr(dst >> 32);
    if (!o->st.empty()) clearSym(*this, s, o, dof, n); else if (!plain) o->st.assign(o->size, OK_CONC);
    memcpy(&o->data[dof], d.data(), n); if (!o->st.empty()) { if (plain) memset(&o->st[dof], 0, n); else memcpy(&o->st[dof], stv.data(), n); }
    for (auto& cl : cells) o->sym.push_back({cl.off + dof, cl.size, cl.e});
  }
  void setMem(State& s, uint64_t dst, const Val& b, uint64_t n) {
    if (n == 0) return; if (spec) throw SpecFail{}; if (n > (1u << 30)) throw MemErr{"memset of huge size"}; uint32_t off; chk(s, dst, n, true, off);
    if (b.e) { for (uint64_t i = 0; i < n; ++i) { TyI t; t.w = 8; storeRaw(s, dst + i, b, t); } return; }
    Obj* o = s.mem.wr(dst >> 32); if (!o->st.empty()) { clearSym(*this, s, o, off, n); memset(&o->st[off], 0, n); } memset(&o->data[off], (int)(uint8_t)b.c, n);
  }
  void freeObj(State& s, uint64_t addr, const char* what) {
    if (spec) throw SpecFail{};
    if (!addr) return; uint32_t id = addr >> 32; Obj* o = s.mem.rd(id); if (!o || o->kind != 1 || (uint32_t)addr != 0) throw MemErr{S("invalid free via ") + what};
    if (o->freed) throw MemErr{"double free"}; Obj* n = new Obj(); n->size = o->size; n->kind = 1; n->freed = true; setObj(s, id, n);
  }
  void setObj(State& s, uint32_t id, Obj* n) { PageRef& pr = s.mem.pages[id / PG]; if (pr.p->refs > 1) { Page* np = new Page(); for (int i = 0; i < PG; ++i) np->o[i] = pr.p->o[i]; pr = PageRef(np); } pr.p->o[id % PG] = ObjRef(n); }
  void killStack(State& s, uint32_t id) { static Obj* dead = nullptr; if (!dead) { dead = new Obj(); dead->kind = 2; dead->freed = true; dead->refs = 1 << 28; } setObj(s, id, dead); }

  // ---------------- symbolic inputs
  E freshVar(State& s, const S& base, int w) { S nm = base + "#" + std::to_string(s.nameCnt[base]++); return mkVar(s, nm, w, smin(w), smax(w)); }
  std::unordered_map<S, int> varIdx;
  E mkVar(State& s, const S& name, int w, i128 lo, i128 hi) {
    if (spec) throw SpecFail{};
    S key = name + "|" + std::to_string(w) + "|" + std::to_string((int64_t)lo) + "|" + std::to_string((int64_t)hi); auto it = varIdx.find(key); int ix; E v;
    if (it == varIdx.end()) { ix = g_vars.size(); VarInfo vi; S un = name; for (auto& q : g_vars) if (q.name == un) { un = key; break; } vi.name = un; vi.fp = false; vi.w = w; vi.lo = lo; vi.hi = hi; vi.any = false; v = raw(VAR, w, false, {}, ix, 0, [&](Expr* e) { e->lo = lo; e->hi = hi; }); vi.e = v; g_vars.push_back(vi); varIdx[key] = ix; }
    else { ix = it->second; v = g_vars[ix].e; }
    s.pc.push_back(raw(VARDEF, 1, false, {v}, 0, 0, [](Expr* e) { e->lo = 0; e->hi = 1; })); s.inputs.emplace_back(name, v); setWit(s, ix, std::max(lo, std::min(hi, (i128)0)), 0); return v;
  }
  E mkFVar(State& s, const S& name, double lo, double hi, bool any) {
    if (spec) throw SpecFail{};
    char buf[100]; snprintf(buf, 100, "|f|%.17g|%.17g|%d", lo, hi, any); S key = name + buf; auto it = varIdx.find(key); int ix; E v;
    if (it == varIdx.end()) { ix = g_vars.size(); VarInfo vi; S un = name; for (auto& q : g_vars) if (q.name == un) { un = key; break; } vi.name = un; vi.fp = true; vi.w = 64; vi.flo = any ? -DMAX : lo; vi.fhi = any ? DMAX : hi; vi.lo = vi.hi = 0; vi.any = any; v = raw(FVAR, 64, true, {}, ix, 0, [&](Expr* e) { e->flo = vi.flo; e->fhi = vi.fhi; e->fin = !any; e->mn = lo > 0 ? lo : (hi < 0 ? -hi : 0); }); vi.e = v; g_vars.push_back(vi); varIdx[key] = ix; }
    else { ix = it->second; v = g_vars[ix].e; }
    s.pc.push_back(raw(VARDEF, 1, false, {v}, 0, 0, [](Expr* e) { e->lo = 0; e->hi = 1; })); s.inputs.emplace_back(name, v); setWit(s, ix, 0, any ? 1.0 : std::max(lo, std::min(hi, 1.0))); return v;
  }
  void setWit(State& s, int ix, i128 iv, double dv) { auto a = std::make_shared<Assign>(*s.wit); if ((int)a->iv.size() <= ix) { a->iv.resize(ix + 1, 0); a->dv.resize(ix + 1, 0); } a->iv[ix] = iv; a->dv[ix] = dv; a->stamp = evalStampNew(); s.wit = a; }

  // ---------------- decisions
  bool holds(const std::vector<E>& pc, E extra, Assign& a) { try { if (extra && !evalI(extra, a)) return false; for (E x : pc) if (!evalI(x, a)) return false; return true; } catch (EvalFail&) { return false; } }
  std::deque<std::shared_ptr<Assign>> recent;
  int feasible(State& s, E c, std::shared_ptr<Assign>& out) { // 1/0/-1
    for (auto& r : recent) { if (holds(s.pc, c, *r)) { out = r; ++cacheHits; return 1; } }
    Assign m; int r = solver->check(s.pc, c, &m); if (r == 1) { out = std::make_shared<Assign>(m); if (!holds(s.pc, c, *out)) { out->valid = false; } else { recent.push_front(out); if (recent.size() > 12) recent.pop_back(); } } return r;
  }
  uint64_t cacheHits = 0;
  // speculative execution of branch regions (--merge)
  int spec = 0; size_t specDepth = 0; uint32_t specJoin = 0; uint64_t specEnd = 0, merges = 0; std::vector<std::pair<uint64_t, TyI>> journal; std::unordered_map<const void*, int> specFails;
  void push(State* n) { work.push_back(n); ++forksTotal; }
  bool known(State& s, E c, bool& v) { E nc = mkNot(c); size_t n = s.pc.size(); for (size_t i = 0; i < n && i < 400; ++i) { E p = s.pc[n - 1 - i]; if (p == c) { v = true; return true; } if (p == nc) { v = false; return true; } } return false; }
  void addPc(State& s, E c) { if (c->isC()) return; s.pc.push_back(c); }
  bool decide(State& s, E c, const void* site) { // may fork; clone re-executes the instruction at current pc
    if (c->isC()) return c->c != 0; bool kv; if (known(s, c, kv)) return kv; if (spec) throw SpecFail{};
    if (elapsed() > O.budget) { truncated = true; throw PathEnd{"time"}; }
    E nc = mkNot(c); std::shared_ptr<Assign> m1; bool v; int other;
    bool haveW = s.wit->valid; bool wv = false; if (haveW) { try { wv = evalI(c, *s.wit) != 0; } catch (EvalFail&) { haveW = false; } }
    if (haveW) { v = wv; other = feasible(s, v ? nc : c, m1); if (other < 0 && getenv("SYMEX_DUMP")) { fprintf(stderr, "AT"); for (size_t i = s.st.size(); i-- > 0 && i + 6 > s.st.size();) { Instruction* in = s.st[i].pc < s.st[i].f->src.size() ? s.st[i].f->src[s.st[i].pc] : nullptr; fprintf(stderr, " < %s:%u", s.st[i].f->name.c_str(), in && in->getDebugLoc() ? in->getDebugLoc().getLine() : 0u); } fprintf(stderr, "\n"); } if (other == 0) { addPc(s, v ? c : nc); return v; } }
    else {
      std::shared_ptr<Assign> m0; int a = feasible(s, c, m0); int b = feasible(s, nc, m1);
      if (a == 0 && b == 0) throw PathEnd{"infeasible"};
      if (a == 0) { if (m1) s.wit = m1; addPc(s, nc); return false; } if (m0 && a == 1) s.wit = m0; if (b == 0) { addPc(s, c); return true; } v = true; other = b;
    }
    if (getenv("SYMEX_SITES")) { fprintf(stderr, "FORK v=%d other=%d", v, other); for (size_t i = s.st.size(); i-- > 0 && i + 4 > s.st.size();) { Instruction* in = s.st[i].pc < s.st[i].f->src.size() ? s.st[i].f->src[s.st[i].pc] : nullptr; fprintf(stderr, " < %s:%u", s.st[i].f->name.c_str(), in && in->getDebugLoc() ? in->getDebugLoc().getLine() : 0u); } fprintf(stderr, "\n"); }
    if (site) { int* cnt = nullptr; for (auto& f : s.forks) if (f.first == site) cnt = &f.second; if (!cnt) { s.forks.emplace_back(site, 0); cnt = &s.forks.back().second; }
      if (++*cnt > O.maxfork) { ++boundCuts; throw PathEnd{"bound"}; } }
    State* n = new State(s); E oc = v ? nc : c; n->pc.push_back(oc); if (other == 1 && m1) n->wit = m1; else { auto w = std::make_shared<Assign>(*n->wit); w->valid = false; n->wit = w; n->suspect = true; } push(n);
    s.pc.push_back(v ? c : nc); return v;
  }
  uint64_t concretize(State& s, const Val& v, int w) {
    if (!v.e) return v.c; E e = v.e; if (e->fp) e = toI(v, 64); if (e->isC()) return maskw((uint64_t)e->c, w); if (spec) throw SpecFail{};
    if (elapsed() > O.budget) { truncated = true; throw PathEnd{"time"}; }
    if (e->op == ITE && (e->a[1]->isC() || e->a[1]->op == ITE) && (e->a[2]->isC() || e->a[2]->op == ITE)) { E b = decide(s, e->a[0], nullptr) ? e->a[1] : e->a[2]; return concretize(s, fromE(b), w); }
    // already pinned?
    for (size_t i = s.pc.size(); i-- > 0;) { E p = s.pc[i]; if (p->op == EQ && p->a[0] == e && p->a[1]->isC()) return maskw((uint64_t)p->a[1]->c, w); }
    i128 val; bool got = false; if (s.wit->valid) { try { val = evalI(e, *s.wit); got = true; } catch (EvalFail&) {} }
    if (!got) { Assign m; int r = solver->check(s.pc, nullptr, &m); if (r == 0) throw PathEnd{"infeasible"}; if (r < 0) throw PathEnd{"unknown-concretize"}; auto w2 = std::make_shared<Assign>(m); w2->valid = holds(s.pc, nullptr, *w2); s.wit = w2; try { val = evalI(e, *w2); } catch (EvalFail&) { throw PathEnd{"unknown-concretize"}; } }
    E eq = mkCmp(EQ, e, mkC(val, e->w)); std::shared_ptr<Assign> m1; if (!s.wit->valid && !eq->isC() && solver->check(s.pc, eq, nullptr) == 0) throw PathEnd{"unknown-concretize"}; int other = eq->isC() ? 0 : feasible(s, mkNot(eq), m1);
    if (other != 0) { if (getenv("SYMEX_SITES")) { fprintf(stderr, "CONC %s", show(e, 3).substr(0, 100).c_str()); for (size_t i = s.st.size(); i-- > 0 && i + 4 > s.st.size();) { Instruction* in = s.st[i].pc < s.st[i].f->src.size() ? s.st[i].f->src[s.st[i].pc] : nullptr; fprintf(stderr, " < %s:%u", s.st[i].f->name.c_str(), in && in->getDebugLoc() ? in->getDebugLoc().getLine() : 0u); } fprintf(stderr, "\n"); }
      State* n = new State(s); n->pc.push_back(mkNot(eq)); if (m1 && other == 1) n->wit = m1; else { auto w3 = std::make_shared<Assign>(*n->wit); w3->valid = false; n->wit = w3; } push(n); }
    // pin in canonical orientation
    s.pc.push_back(raw(EQ, 1, false, {e, mkC(val, e->w)}, 0, 0, [](Expr* x) { x->lo = 0; x->hi = 1; }));
    return maskw((uint64_t)val, w);
  }
  // an operation the encoding lacks: continue with a few concrete operand values (some value of the path, the ends of its interval); recorded as "sampled", so the run is not exhaustive
  double concF(State& s, const Val& v, const char* why) {
    if (!v.e) { double d; memcpy(&d, &v.c, 8); return d; } E e = toF(v); if (e->isFC()) return e->d; if (spec) throw SpecFail{};
    if (elapsed() > O.budget) { truncated = true; throw PathEnd{"time"}; }
    for (size_t i = s.pc.size(); i-- > 0;) { E p = s.pc[i]; if (p->op == FEQ && p->a[0] == e && p->a[1]->isFC()) return p->a[1]->d; }
    auto pin = [&](double d) { return raw(FEQ, 1, false, {e, mkFC(d)}, 0, 0, [](Expr* x) { x->lo = 0; x->hi = 1; x->hasFP = true; }); };
    double val = 0; bool got = false; if (s.wit->valid) { try { val = evalF(e, *s.wit); got = true; } catch (EvalFail&) {} }
    if (!got) { Assign m; int r = solver->check(s.pc, nullptr, &m); if (r == 0) throw PathEnd{"infeasible"}; if (r < 0) throw PathEnd{"unknown-concretize"}; auto w2 = std::make_shared<Assign>(m); w2->valid = holds(s.pc, nullptr, *w2); s.wit = w2; try { val = evalF(e, *w2); } catch (EvalFail&) { throw PathEnd{"unknown-concretize"}; } }
    ++unsupported[S("sampled:") + why];
    for (double d : {e->fhi, e->flo}) if (std::isfinite(d) && d != val) { std::shared_ptr<Assign> m; E q = pin(d); if (feasible(s, q, m) == 1 && m) { State* n = new State(s); n->pc.push_back(q); n->wit = m; push(n); } }
    s.pc.push_back(pin(val)); return val;
  }
  uint64_t concI(State& s, const Val& v, int w, const char* why) {
    if (!v.e) return v.c; E e = toI(v, w); if (e->isC()) return maskw((uint64_t)e->c, w); if (spec) throw SpecFail{};
    for (size_t i = s.pc.size(); i-- > 0;) { E p = s.pc[i]; if (p->op == EQ && p->a[0] == e && p->a[1]->isC()) return maskw((uint64_t)p->a[1]->c, w); }
    auto pin = [&](i128 d) { return raw(EQ, 1, false, {e, mkC(d, e->w)}, 0, 0, [](Expr* x) { x->lo = 0; x->hi = 1; }); };
    ++unsupported[S("sampled:") + why]; std::shared_ptr<Assign> m0; if (!s.wit->valid) { if (feasible(s, mkTrue(), m0) != 1 || !m0) throw PathEnd{"unknown-concretize"}; s.wit = m0; }
    i128 val; try { val = evalI(e, *s.wit); } catch (EvalFail&) { throw PathEnd{"unknown-concretize"}; }
    for (i128 d : {e->hi, e->lo}) if (d != val) { std::shared_ptr<Assign> m; E q = pin(d); if (feasible(s, q, m) == 1 && m) { State* n = new State(s); n->pc.push_back(q); n->wit = m; push(n); } }
    s.pc.push_back(pin(val)); return maskw((uint64_t)val, w);
  }
  // ---------------- obligations
  static S dstr(double d) { char b[64]; snprintf(b, 64, "%a", d); return b; }
  std::vector<std::pair<S, S>> dumpInputs(State& s, const Assign& a) {
    std::vector<std::pair<S, S>> r; for (auto& p : s.inputs) { if (p.first.compare(0, 6, "uninit") == 0) continue; try { if (p.second->fp) r.emplace_back(p.first, dstr(evalF(p.second, a))); else { i128 v = evalI(p.second, a); r.emplace_back(p.first, std::to_string((int64_t)v)); } } catch (EvalFail&) { r.emplace_back(p.first, "0"); } } return r;
  }
  void candidate(State& s, const S& label, const S& kind, const S& detail, const Assign& a, bool exact) {
    int& n = candPerLabel[label]; ++n; if (n > O.maxCand) return; Cand c; c.label = label; c.kind = kind; c.detail = detail; c.inputs = dumpInputs(s, a); c.exact = exact; cands.push_back(c);
    if (O.verbose) { fprintf(stderr, "CANDIDATE %s %s %s exact=%d\n", label.c_str(), kind.c_str(), detail.c_str(), exact); for (auto& p : c.inputs) fprintf(stderr, "   %s=%s\n", p.first.c_str(), p.second.c_str()); }
  }
  void obligation(State& s, E c, const S& label) {
    ++obligations; ++s.asserts; auto& ob = oblig[label];
    if (c->isC() && c->c) { ++trivial; ++discharged; ++ob.second; return; }
    if (c->isC()) { // concretely false on this path
      Assign a = *s.wit; bool ex = s.wit->valid && holds(s.pc, nullptr, a);
      if (!ex) { Assign m; int r = solver->check(s.pc, nullptr, &m); if (r == 0) throw PathEnd{"infeasible"}; if (r == 1) { a = m; ex = holds(s.pc, nullptr, a); } if (!ex) ex = refine(s, nullptr, a); if (lastRefineUnsat) { throw PathEnd{"infeasible"}; } }
      candidate(s, label, "assert", "assertion false", a, ex); if (!ex) ++undecided[label]; throw PathEnd{"assert-failed"};
    }
    E nc = mkNot(c);
    if (s.wit->valid) { bool f = false; try { f = !evalI(c, *s.wit); } catch (EvalFail&) {} if (f) { Assign a = *s.wit; if (holds(s.pc, nc, a)) { candidate(s, label, "assert", "assertion false", a, true); continueWith(s, c); return; } } }
    if (O.verbose && getenv("SYMEX_SHOW")) fprintf(stderr, "OBLIG %s: %s\n", label.c_str(), show(c, 12).c_str());
    if (elapsed() > O.budget + 30) { truncated = true; ++undecided[label]; return; }
    if (g_log && solver->logRefuted(nc)) { ++discharged; ++ob.first; addPc(s, c); return; }
    Assign m; int r = solver->check(s.pc, nc, &m);
    if (r == 0) { ++discharged; ++ob.first; addPc(s, c); return; }
    if (r == 1) { if (holds(s.pc, nc, m)) { candidate(s, label, "assert", "assertion false", m, true); continueWith(s, c); return; } ++spurious; }
    // refinement: other models, then bit-precise floating point
    Assign m2; if (refine(s, nc, m2)) { candidate(s, label, "assert", "assertion false", m2, true); continueWith(s, c); return; }
    if (lastRefineUnsat) { ++discharged; ++ob.first; addPc(s, c); return; }
    ++undecided[label]; if (r == 1) candidate(s, label, "assert", "abstract counterexample", m, false);
    addPc(s, c);
  }
  bool lastRefineUnsat = false;
  bool refine(State& s, E nc, Assign& out) {
    lastRefineUnsat = false; if (elapsed() > O.budget) return false;
    for (unsigned k = 1; k <= 3; ++k) { int r = -1; try { r = solver->fresh(s.pc, nc, &out, 1500, k * 7919); } catch (...) { r = -1; } if (r == 1 && holds(s.pc, nc, out)) return true; }
    if (!O.fpRefine || solver->mode != M_INT) return false;
    bool uf = nc && nc->hasUF; for (E p : s.pc) uf |= p->hasUF; (void)uf;
    auto t = std::chrono::steady_clock::now(); bool res = false; ++g_stats.fpQueries;
    try {
      PathSolver fp(M_FP, O.fpTimeout); int r = fp.fresh(s.pc, nc, &out, O.fpTimeout, 0);
      if (r == 0) lastRefineUnsat = true; else if (r == 1) res = holds(s.pc, nc, out);
    } catch (EncFail& f) { } catch (z3::exception& ex) { }
    g_stats.solverTime += std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count();
    return res;
  }
  void continueWith(State& s, E c) { // after a violation carry on with the executions where the assertion holds
    std::shared_ptr<Assign> m; int r = feasible(s, c, m); if (r == 0) throw PathEnd{"assert-failed"}; if (r == 1) s.wit = m; else { auto w = std::make_shared<Assign>(*s.wit); w->valid = false; s.wit = w; } addPc(s, c);
  }
  void assume(State& s, E c) {
    if (c->isC()) { if (!c->c) throw PathEnd{"assume"}; return; }
    bool kv; if (known(s, c, kv)) { if (!kv) throw PathEnd{"assume"}; return; }
    bool okw = false; if (s.wit->valid) { try { okw = evalI(c, *s.wit); } catch (EvalFail&) {} }
    if (okw) { addPc(s, c); return; }
    std::shared_ptr<Assign> m; int r = feasible(s, c, m); if (r == 0) throw PathEnd{"assume"}; if (r == 1) s.wit = m; else { auto w = std::make_shared<Assign>(*s.wit); w->valid = false; s.wit = w; } addPc(s, c);
  }
  void fault(State& s, const S& what) {
    Assign a = *s.wit; bool ex = s.wit->valid && holds(s.pc, nullptr, a); if (!ex) { Assign m; int r = solver->check(s.pc, nullptr, &m); if (r == 0) throw PathEnd{"infeasible"}; if (r == 1) { a = m; ex = holds(s.pc, nullptr, a); } }
    S where; if (s.st.size()) { for (size_t i = s.st.size(); i-- > 0 && where.size() < 500;) { Frame& f = s.st[i]; auto* I = f.f->src[f.pc]; S loc; if (I && I->getDebugLoc()) { auto* d = I->getDebugLoc().get(); loc = d->getFilename().str() + ":" + std::to_string(d->getLine()); } where += " <- " + f.f->name.substr(0, 60) + (loc.size() ? "@" + loc : ""); } }
    ++oblig["memory-safety/termination"].first; ++obligations;
    candidate(s, "fault", "fault", what + where, a, ex); if (!ex) ++undecided["fault"]; throw PathEnd{"fault"};
  }

#include "compile.inc"
#include "interp.inc"
};
#include "builtins.inc"
#include "main.inc"
