#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] : decide one property of /repo by symbolic execution + SMT; see DESIGN.md.
   check.py --replay FILE               : replay one recorded counterexample natively (address sanitizer build)
   check.py --setup                     : build the symbolic executor"""
import sys, os, json, subprocess, shutil, time, re, hashlib, itertools, tempfile, glob, threading
from concurrent.futures import ThreadPoolExecutor, as_completed
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VERIF_REPO", "/repo"); sys.path.insert(0, V)
ENG = os.path.join(V, "build", "symex"); NCPU = int(os.environ.get("VERIF_JOBS", "8"))
import checks

def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace", **kw)

def engine_hash():
    h = hashlib.sha256()
    for f in sorted(os.listdir(os.path.join(V, "engine"))): h.update(open(os.path.join(V, "engine", f), "rb").read())
    return h.hexdigest()[:16]

def ensure_engine():
    stamp = ENG + ".stamp"; h = engine_hash()
    if os.path.exists(ENG) and os.path.exists(stamp) and open(stamp).read() == h: return
    os.makedirs(os.path.dirname(ENG), exist_ok=True)
    import fcntl
    with open(ENG + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(ENG) and os.path.exists(stamp) and open(stamp).read() == h: return
        tmp = ENG + ".new%d" % os.getpid(); r = sh(["bash", os.path.join(V, "engine", "build.sh"), tmp])
        if r.returncode: sys.exit("engine build failed:\n" + r.stderr[-3000:])
        os.rename(tmp, ENG); open(stamp, "w").write(h)

LANG = {
  "py":   dict(std="c++20", defs=["-DPYTHON_MODULE"], skip=r"(Test.*|UnitTester|rcpp_api|RcppExports)"),
  "core": dict(std="c++20", defs=["-DPYTHON_MODULE"], skip=r"(Test.*|UnitTester|rcpp_api|RcppExports|module)"),
  "r":    dict(std="gnu++17", defs=["-DSYM_R"], skip=r"(Test.*|UnitTester|module)"),
}
def incs(): return ["-I" + os.path.join(V, "model"), "-I" + os.path.join(V, "harness"), "-I" + os.path.join(REPO, "src")]
IRF = ["-O1", "-Xclang", "-disable-llvm-passes", "-DNDEBUG", "-ffp-contract=off", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-gline-tables-only", "-emit-llvm", "-w"]
NATF = ["-O1", "-DNATIVE_REPLAY", "-g1", "-DNDEBUG", "-ffp-contract=off", "-fsanitize=address", "-fno-omit-frame-pointer", "-w"]

class Build:
    """IR and native builds of the current /repo sources, in a scratch directory."""
    def __init__(self, scratch): self.d = scratch; self.lock = threading.Lock(); self.jobs = {}; self.wraps = {}
    def sources(self, lang):
        L = LANG[lang]; r = []
        for f in sorted(glob.glob(os.path.join(REPO, "src", "*.cpp"))):
            if not re.fullmatch(L["skip"], os.path.basename(f)[:-4]): r.append(f)
        return r
    def units(self, cfgs, native):
        """list of (cmd, out) compile jobs for all configs"""
        seen = {}
        for lang, harness in sorted({(c.lang, c.harness) for c in cfgs}):
            L = LANG[lang]; defs = L["defs"]
            own = open(os.path.join(V, "harness", harness + ".cpp")).read()
            self.wraps[(lang, harness)] = re.findall(r"//\s*WRAP:\s*(\S+)", own)
            m = re.search(r"//\s*SOURCES:\s*(.*)", own) ; only = set(m.group(1).split()) if m else None
            srcs = [s for s in self.sources(lang) if only is None or os.path.basename(s) in only]
            for nat in ([0, 1] if native else [0]):
                fl = NATF if nat else IRF; ext = ".o" if nat else ".bc"
                objs = []
                for s in srcs + [os.path.join(V, "harness", harness + ".cpp")] + ([os.path.join(V, "harness", "native.cpp")] if nat else [os.path.join(V, "engine", "runtime.cpp")]):
                    o = os.path.join(self.d, lang + "_" + os.path.basename(s)[:-4] + ext); objs.append(o)
                    seen[o] = ["clang++-18", "-std=" + L["std"]] + fl + defs + incs() + ["-c", s, "-o", o]
                self.jobs[(lang, harness, nat)] = objs
        return seen
    def compile(self, cfgs):
        u = self.units(cfgs, True)
        with ThreadPoolExecutor(NCPU) as ex: res = list(ex.map(lambda kv: (kv[0], sh(kv[1])), sorted(u.items(), key=lambda kv: kv[0].endswith(".o"))))
        bad = [(o, r.stderr) for o, r in res if r.returncode]
        if bad: raise RuntimeError("cannot compile %s:\n%s" % (bad[0][0], "\n".join(l for l in bad[0][1].splitlines() if "error" in l)[:2000]))
    def link(self, key):
        lang, harness, nat = key; objs = self.jobs[key]
        if nat:
            out = os.path.join(self.d, "nat_%s_%s" % (lang, harness)); r = sh(["clang++-18", "-fsanitize=address", "-Wl,--unresolved-symbols=ignore-all", "-Wl,-z,lazy"] + ["-Wl,--wrap=" + w for w in self.wraps[(lang, harness)]] + objs + ["-o", out])
        else:
            out = os.path.join(self.d, "ir_%s_%s.bc" % (lang, harness)); r = sh([ENG] + objs + ["--emit=" + out])
        if r.returncode: raise RuntimeError("link %s failed:\n%s" % (key, r.stderr[-2000:]))
        return out

def native(exe, inputs, params, timeout, scratch):
    f = tempfile.NamedTemporaryFile("w", dir=scratch, suffix=".in", delete=False)
    for k, v in inputs.items(): f.write("%s %s\n" % (k, v))
    f.close()
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=6:allocator_may_return_null=0:max_allocation_size_mb=8192", TMPDIR=scratch)
    try: r = sh([exe, f.name, str(timeout)] + ["%s=%d" % kv for kv in params.items()], timeout=timeout + 60, env=env); out, err, rc = r.stdout, r.stderr, r.returncode
    except subprocess.TimeoutExpired: out, err, rc = "FAIL hang\n", "", 4
    os.unlink(f.name)
    if rc in (126, 127): raise RuntimeError("native replay cannot run: " + err[-500:])
    fails = [l[5:] for l in out.splitlines() if l.startswith("FAIL ")]
    if "AddressSanitizer" in err:
        m = re.search(r"AddressSanitizer:? ([\w-]+)", err); fails.append("memory error: " + (m.group(1) if m else "?"))
    elif rc not in (0, 1, 3, 4) and not fails: fails.append("process ended with status %d" % rc)
    obs = [l.split(" ", 2)[1:] for l in out.splitlines() if l.startswith("OBS ")]
    return dict(fails=fails, obs=obs, rc=rc, assume=rc == 3, out=out, err=err)

def sameobs(a, b):
    """observations of the executor (hex floats, ints) against those of the native run"""
    if len(a) != len(b): return False
    for (n, v), (m, w) in zip(a, b):
        if n != m: return False
        if v == "?" or v == w: continue
        try:
            x, y = (float.fromhex(v) if "x" in v or "n" in v else float(v)), (float.fromhex(w) if "x" in w or "n" in w else float(w))
            if x == y or (x != x and y != y): continue
        except ValueError: pass
        return False
    return True

def load_known(prop):
    r = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) config=(\S+) label=/(.*?)/ inputs=/(.*?)/ (.*)", l)
            if m and m.group(1) == prop: r.append(dict(config=m.group(2), label=m.group(3), inputs=m.group(4), text=m.group(5).strip()))
    return r

def run_prop(prop, tier):
    t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1"))
    cfgs = [c for c in checks.CONFIGS if prop in c.props and (tier == "thorough" or c.tier == "quick")]
    if not cfgs: sys.exit("no configuration for " + prop)
    only = os.environ.get("VERIF_ONLY")
    if only: cfgs = [c for c in cfgs if re.search(only, c.name)]
    scratch = tempfile.mkdtemp(prefix="vp_%s_" % prop); 
    try: return _run(prop, tier, cfgs, scratch, seed, t0)
    finally: shutil.rmtree(scratch, ignore_errors=True)

def _run(prop, tier, cfgs, scratch, seed, t0):
    b = Build(scratch)
    with ThreadPoolExecutor(1) as ex:
        eng = ex.submit(ensure_engine)
        try: b.compile(cfgs)
        except RuntimeError as e: print("ERROR: " + str(e)); return 2
        eng.result()
    keys = sorted(b.jobs)
    with ThreadPoolExecutor(NCPU) as ex: outs = dict(zip(keys, ex.map(b.link, keys)))
    tb = time.time() - t0
    jobs = []
    for c in cfgs:
        split = c.split_t if tier == "thorough" and c.split_t is not None else c.split
        params = dict(c.params); params.update(c.params_t if tier == "thorough" else {})
        budget = c.tbudget if tier == "thorough" else c.budget
        combos = [dict(zip(split, vals)) for vals in itertools.product(*[list(x) for x in split.values()])] if split else [{}]
        for k in combos: jobs.append((c, dict(params, **k), budget))
    jobs.sort(key=lambda j: -j[2])
    deadline = t0 + (checks.QUICK_WALL if tier == "quick" else checks.THOROUGH_WALL)
    def run_job(j):
        c, params, budget = j; left = deadline - time.time()
        if left < 3: return c, params, None, "skipped: time"
        o = tempfile.mktemp(dir=scratch, suffix=".json")
        cmd = [ENG, outs[(c.lang, c.harness, 0)], "--noopt", "--out=" + o, "--mode=" + c.mode, "--budget=%g" % min(budget, left), "--samples=%d" % c.samples, "--seed=%d" % seed, "--covsrc=" + REPO + "/", "--maxcand=%d" % c.maxcand, "--entry=" + c.entry] + c.flags + ["--param=%s=%d" % kv for kv in params.items()]
        def lim():
            import resource; resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        try: r = sh(cmd, timeout=min(budget, left) + 120, preexec_fn=lim)
        except subprocess.TimeoutExpired: return c, params, None, "executor time-out"
        try: return c, params, json.load(open(o)), r.stderr
        except Exception as e: return c, params, None, "executor failed (%d): %s" % (r.returncode, r.stderr[-300:])
    with ThreadPoolExecutor(NCPU) as ex: results = list(ex.map(run_job, jobs))
    te = time.time() - t0 - tb
    # ---- replays
    rep = []
    for c, params, res, err in results:
        if not res: continue
        exe = outs[(c.lang, c.harness, 1)]
        for cand in res["candidates"]: rep.append((c, params, exe, cand, "cand", cand["inputs"]))
        if c.compare:
            for s in res["samples"]: rep.append((c, params, exe, s, "sample", s["inputs"]))
    # cap the number of candidates per (config, label) over all jobs
    seen = {}; rep2 = []
    for x in rep:
        if x[4] == "cand":
            k = (x[0].name, x[3]["label"], x[3]["kind"]); seen[k] = seen.get(k, 0) + 1
            if seen[k] > 40: continue
        rep2.append(x)
    with ThreadPoolExecutor(NCPU) as ex: outsr = list(ex.map(lambda x: native(x[2], x[5], x[1], x[0].hang, scratch), rep2))
    known = load_known(prop); viol = []; knownhit = {}; unconf = []; validated = 0; mismatch = []
    for x, n in zip(rep2, outsr):
        c, params, exe, item, kind, inputs = x
        if c.hangok: n["fails"] = [f for f in n["fails"] if not f.startswith("hang")]
        if kind == "sample":
            validated += 1
            if n["fails"]: viol.append((c, params, inputs, n["fails"][0], "found while replaying a witness"))
            elif n["assume"] or not sameobs([list(o) for o in item["obs"]], n["obs"]): mismatch.append(dict(config=c.name, inputs=inputs, engine=item["obs"][:40], native=n["obs"][:40])); validated -= 1
        else:
            if n["fails"]: viol.append((c, params, inputs, item["label"] if item["kind"] == "assert" else n["fails"][0], item["detail"][:400]))
            else: unconf.append(dict(config=c.name, label=item["label"], kind=item["kind"], exact=item["exact"], detail=item["detail"][:300], inputs=inputs))
    rdir = os.path.join(V, "replays", prop); shutil.rmtree(rdir, ignore_errors=True); newv = []; seenk = set()
    for c, params, inputs, label, detail in viol:
        istr = ",".join("%s=%s" % kv for kv in sorted(dict(inputs, **params).items()))
        k = next((k for k in known if re.fullmatch(k["config"], c.name) and re.search(k["label"], label) and re.search(k["inputs"], istr)), None)
        if k: knownhit[k["text"]] = knownhit.get(k["text"], 0) + 1; continue
        os.makedirs(rdir, exist_ok=True); p = os.path.join(rdir, "%s-%d.txt" % (c.name, len(newv)))
        if len(newv) < 60 or (c.name, label) not in seenk:
            with open(p, "w") as f: json.dump(dict(property=prop, config=c.name, lang=c.lang, harness=c.harness, params=params, label=label, detail=detail, inputs=inputs, hang=c.hang), f, indent=1)
        seenk.add((c.name, label)); newv.append((c, label, p, detail, istr))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    shown = set()
    for c, label, p, detail, istr in newv:
        if (c.name, label) in shown: continue
        shown.add((c.name, label)); print("  [%s] %s  %s  %s" % (c.name, label, detail[:200], istr[:300])); print("VIOLATION property=%s replay=%s" % (prop, p))
    # ---- evidence
    cov = dict(states=0, transitions=0, traces_validated_against_impl=validated, obligations=0, discharged=0, discharged_by_simplification=0, queries=0, solver_s=0.0, unknown=0, bound_cuts=0)
    fns = set(); per = []; trunc = []; und = {}; uns = {}; covers = {}; smp = []; assumptions = set()
    for c, params, res, err in results:
        d = dict(config=c.name, params=params, mode=c.mode, flags=c.flags)
        for a in c.assume: assumptions.add(a)
        if not res: d["failed"] = err; trunc.append("%s %s: %s" % (c.name, params, err)); per.append(d); continue
        cov["states"] += res["paths"]; cov["transitions"] += res["steps"]; cov["obligations"] += res["obligations"]; cov["discharged"] += res["discharged"]; cov["discharged_by_simplification"] += res["discharged_trivially"]; cov["queries"] += res["queries"]; cov["solver_s"] += res["solver_s"]; cov["unknown"] += res["unknown"]; cov["bound_cuts"] += res["bound_cuts"]
        d.update(paths=res["paths"], completed=res["completed"], truncated=res["truncated"], obligations=res["obligations"], discharged=res["discharged"], queries=res["queries"], solver_s=round(res["solver_s"], 2), wall_s=round(res["wall_s"], 2), ended=res["ended"], candidates=len(res["candidates"]))
        if res["truncated"]: trunc.append("%s %s: %d paths explored, %d states left" % (c.name, params, res["paths"], res["states_left"]))
        for k, v in res["functions"].items(): fns.add(k)
        for k, v in res["undecided"].items(): und[c.name + ": " + k] = und.get(c.name + ": " + k, 0) + v
        for k, v in res["unsupported"].items(): uns[c.name + ": " + k] = uns.get(c.name + ": " + k, 0) + v
        for k, v in res["covers"].items(): covers[c.name + ": " + k] = covers.get(c.name + ": " + k, 0) + v
        for s in res["samples"][:1]: smp.append(dict(config=c.name, params=params, inputs=s["inputs"], obs=s["obs"][:12]))
        per.append(d)
    missing = sorted({c.name + ": " + k for c in cfgs for k in c.covers} - set(covers)) 
    cov["solver_s"] = round(cov["solver_s"], 2)
    cov.update(samples=smp[:12], exhaustive=not trunc and not und and not uns, exhaustive_meaning="every path within the stated bounds was completed and every obligation decided", bounds=checks.BOUNDS.get(prop, ""), outside=checks.OUTSIDE.get(prop, ""), functions_encoded=sorted(fns), truncated=trunc[:60], undecided_obligations=und, unsupported_paths=uns, unconfirmed_candidates=unconf[:30], n_unconfirmed=len(unconf), reachability=covers, unreached_witnesses=missing, model_mismatches=mismatch[:10], n_model_mismatches=len(mismatch), known_findings=knownhit, configs=per if len(per) <= 80 else per[:80], build_s=round(tb, 1), engine_s=round(te, 1))
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=sorted(assumptions) + checks.COMMON_ASSUMPTIONS, wall_s=round(time.time() - t0, 1), violations=len(newv))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True); json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d paths, %d obligations, %d discharged (%d by simplification), %d queries, solver %.1fs, %d traces replayed, %d mismatches, %d unconfirmed, truncated %d, undecided %d, unsupported %d, wall %.1fs" % (prop, tier, cov["states"], cov["obligations"], cov["discharged"], cov["discharged_by_simplification"], cov["queries"], cov["solver_s"], validated, len(mismatch), len(unconf), len(trunc), sum(und.values()), sum(uns.values()), time.time() - t0))
    if os.environ.get("VERIF_VERBOSE"):
        for m in mismatch[:5]: print("MISMATCH", json.dumps(m)[:1500])
        for u in unconf[:10]: print("UNCONFIRMED", json.dumps(u)[:700])
        for t in trunc: print("TRUNC", t)
        for d in (und, uns): 
            for k, v in d.items(): print("UNDECIDED/UNSUPPORTED", v, k)
        for k, v in covers.items(): print("COVER", v, k)
        for m in missing: print("NOT REACHED", m)
        for d in per: print("CFG", d["config"], d["params"], {k: d.get(k) for k in ("failed", "paths", "completed", "obligations", "discharged", "queries", "solver_s", "wall_s", "ended", "truncated")})
    if cov["states"] == 0: print("ERROR: nothing was explored: " + "; ".join(trunc)[:600]); return 2
    return 1 if newv else 0

def replay(path):
    d = json.load(open(path)); scratch = tempfile.mkdtemp(prefix="vp_replay_")
    try:
        c = checks.C("replay", d["harness"], [d["property"]], lang=d["lang"]); b = Build(scratch); b.compile([c]); exe = b.link((d["lang"], d["harness"], 1))
        n = native(exe, d["inputs"], d["params"], d.get("hang", 20), scratch); print(n["out"]); print(n["err"][:3000]); print("reproduced: " + "; ".join(n["fails"]) if n["fails"] else "not reproduced"); return 1 if n["fails"] else 0
    finally: shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--setup": ensure_engine(); sys.exit(0)
    if a[0] == "--replay": sys.exit(replay(a[1]))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    sys.exit(run_prop(a[0], tier))
