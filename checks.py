"""Configurations: which harness decides which property, in which encoding and within which bounds."""
QUICK_WALL, THOROUGH_WALL = 420, 3000
class C:
    def __init__(self, name, harness, props, lang="py", mode="int", flags=(), params=None, params_t=None, split=None, split_t=None, budget=30, tbudget=600, samples=4, maxcand=4, hang=10, compare=True, tier="quick", covers=(), assume=(), entry="sym_main", hangok=False):
        self.name, self.harness, self.props, self.lang, self.mode, self.flags = name, harness, props, lang, mode, list(flags)
        self.params, self.params_t, self.split, self.split_t = params or {}, params_t or {}, split or {}, split_t
        self.budget, self.tbudget, self.samples, self.maxcand, self.hang, self.compare, self.tier = budget, tbudget, samples, maxcand, hang, compare, tier
        self.covers, self.assume, self.entry, self.hangok = list(covers), list(assume), entry, hangok
COMMON_ASSUMPTIONS = [
  "LLVM 18 lowering of the sources at -O1 without vectorisation denotes the same behaviour as the shipped gcc -O2 build (asserts disabled in both)",
  "pybind11, numpy and Rcpp are represented by the executable models in /verif/model; libstdc++ pieces outside headers by engine/runtime.cpp",
]
BOUNDS, OUTSIDE, TECH, NA = {}, {}, {}, {}
CONFIGS = []
def add(*a, **k): CONFIGS.append(C(*a, **k))

# ---- C13 flatten
BOUNDS["C13"] = "shapes {1},{4},{2,2},{3,2},{1,3},{2,1,2},{1,2,1,2},{2,1,1,2,1} with counts in [-1,2] and {2,2,2} with counts in [0,1] (thorough: [-1,2] and {2,2,2} [-1,1]); one count of up to 65537 (11 values) beside another of 0..3 in {2,2} and {1,3}, and dimensions of up to 300 categories with two occupied states (every position), and of 33000, 40000 and 70000 categories (six positions)"
add("flatten", "h_flatten", ["C13"], split={"shape": [0, 1, 2, 3, 4, 5, 7, 8]}, budget=40, tbudget=300, covers=["flattened", "rejected"])
add("flatten222", "h_flatten", ["C13"], params={"shape": 6, "lo": 0, "hi": 1}, params_t={"lo": -1, "hi": 1}, budget=40, tbudget=600, covers=["flattened"])
add("flatten_large", "h_flatten", ["C13"], params={"large": 1}, split={"lshape": range(9)}, flags=["--maxsteps=3000000000"], budget=60, tbudget=300, samples=2, covers=["flattened"])

# ---- C01, C02 qis
QHEAVY = {5, 10, 11, 14, 15, 16, 18, 19, 20, 21, 23, 24}; QDISJ = [0, 1, 2, 3, 4, 5, 6, 7, 17, 18, 19, 20, 22, 23]
QASSUME = ["chi-squared, p-value and degeneracy return constants while counts and convergence are decided (they feed back into neither); products of two symbolic reals may take any value of their interval there"]
BOUNDS["C01"] = "25 problems (1 to 4 dimensions per marginal, 2 to 4 dimensions, sizes 1..4, disjoint, nested, overlapping, cyclic, transposed); every consistent set of integer marginals with total <= 3 (<= 4 for the smaller problems; thorough: 4 and 5) with the real Sobol points, total <= 2 with skips 0,1,2,5,64, and total <= 3 (thorough 4) with arbitrary 32-bit variates in place of the Sobol points"
OUTSIDE["C01"] = "larger totals, more than 4 dimensions, totals above 2^53"
BOUNDS["C02"] = "the 14 problems of that list whose marginals share no dimension, same bounds"; OUTSIDE["C02"] = OUTSIDE["C01"]
for i in range(25):
    hv = i in QHEAVY
    for pid, what in [("C01", 1)] + ([("C02", 2)] if i in QDISJ else []):
        add("%s_%d" % ({1: "qis", 2: "qisd"}[what], i), "h_qis", [pid], flags=["--free"], params={"what": what, "scen": i, "phi": 3 if hv else 4, "skip": 0}, params_t={"phi": 4 if hv else 5}, budget=60, tbudget=900, assume=QASSUME, covers=["converged"] if what == 1 else ["independent"])
        add("%s_%d_skip" % ({1: "qis", 2: "qisd"}[what], i), "h_qis", [pid], flags=["--free"], params={"what": what, "scen": i, "phi": 2}, params_t={"phi": 3}, split={"skip": range(1, 5)}, budget=30, tbudget=300, samples=2, assume=QASSUME)
        add("%s_%d_any" % ({1: "qis", 2: "qisd"}[what], i), "h_qisv", [pid], flags=["--free"], params={"what": what, "scen": i, "phi": 2 if i in (14, 15, 16, 21) else 3}, params_t={"phi": 4}, budget=60, tbudget=900, samples=2, assume=QASSUME)

add("qis_first", "h_qisbig", ["C01", "C02"], flags=["--free"], params={"fn": 0, "draws": 1}, params_t={"draws": 2}, split={"shape": range(4), "pattern": range(12)}, budget=40, tbudget=300, samples=1, assume=QASSUME)
add("qisi_first", "h_qisbig", ["C03"], flags=["--free"], params={"fn": 1, "draws": 1}, split={"shape": range(2), "pattern": range(12)}, budget=40, tbudget=300, samples=1, assume=QASSUME)
add("int_first", "h_qisbig", ["C12"], flags=["--free"], params={"fn": 2, "draws": 1}, split={"pattern": range(14)}, budget=40, tbudget=300, samples=1, assume=QASSUME)
# ---- C07 validation
BIG = 1 << 40
BOUNDS["C07"] = "values: the 25 problems, every marginal value an integer in [-2^40,2^40] with first total in [0,2^42] (ipf also multiples of 1/4 in the same range, NaN and infinities); structure: 12 sets of marginal shapes (1 to 3 marginals, up to 5 indices), every index value in [-1,3], lists of unequal length, indices one too long or short, six seed shapes"
OUTSIDE["C07"] = "more than 4 dimensions, totals beyond 2^53"
VASSUME = ["for the value checks, reaching QIS::solve, QISI::solve or IPF<double>::solve counts as acceptance (the structure checks and C01, C03, C05 run the solution phase)"]
add("values", "h_valid", ["C07"], flags=["--free"], params={"lo": -BIG, "hi": BIG, "phi": 4 * BIG}, split={"fn": range(3), "scen": range(28)}, budget=30, tbudget=300, samples=2, hang=20, hangok=True, assume=VASSUME, covers=["accepted", "rejected"])
add("values_quarter", "h_valid", ["C07"], flags=["--free"], params={"fn": 2, "quarters": 1, "lo": -BIG, "hi": BIG, "phi": 4 * BIG}, split={"scen": range(25)}, budget=30, tbudget=300, samples=1, hang=20, hangok=True, assume=VASSUME, covers=["accepted", "rejected"])
add("structure", "h_struct", ["C07"], split={"fn": range(3), "sh": [0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11]}, budget=40, tbudget=300, samples=2, covers=["accepted", "rejected"])
add("structure_3", "h_struct", ["C07"], params={"sh": 7, "len": 0, "lo": 0, "hi": 2}, params_t={"lo": -1, "hi": 3}, split={"fn": range(3)}, split_t={"fn": range(3), "len": range(4)}, budget=40, tbudget=300, samples=2, covers=["accepted", "rejected"])

# ---- C20 array primitives
BOUNDS["C20"] = "18 shapes of 1 to 5 dimensions (up to 24 elements), element values any int64 in [-2^40,2^40], any int32 in [-2^20,2^20] or any multiple of 1/16 in [-2^16,2^16], every ordered subset of the dimensions, every coordinate of the fixed dimensions"
OUTSIDE["C20"] = "rounding of sums of doubles that are not multiples of 1/16, larger arrays"
add("step", "h_array", ["C20"], lang="core", params={"step": 1}, split={"n": range(4), "kind": range(4)}, budget=40, tbudget=300, samples=2, covers=["stepped", "ended"])
add("address", "h_array", ["C20"], lang="core", params={"address": 1}, split={"lshape": range(8)}, budget=40, tbudget=300, samples=2, covers=["addressed"])
add("array", "h_array", ["C20"], lang="core", split={"what": range(7), "shape": range(18)}, budget=40, tbudget=300, samples=2)

# ---- C26 array storage
BOUNDS["C26"] = "two arrays, every sequence of 3 (thorough 4) operations out of resize, fill, copy, move, refused resize, view of foreign storage and release, shapes {2},{1,3},{2,2},{1},{2,0} (thorough also {3,1,2},{4}), element values any 40-bit integer"
OUTSIDE["C26"] = "longer histories, failing allocations, self-copies"
add("storage", "h_store", ["C26"], lang="core", params={"shapes": 5, "steps": 3}, params_t={"shapes": 7}, split={"s0": range(5), "op00": range(7)}, split_t={"s0": range(7), "op00": range(7), "op01": range(7)}, budget=40, tbudget=900, samples=2, covers=["resized", "copied", "moved", "view", "released"])

# ---- C14, C15 layout independence and purity
BOUNDS["C14"] = "qis (symbolic marginals, totals <= 2, 2x3x2 with a transposed marginal), qisi and ipf (symbolic seeds in [1/4,4] and marginals over 2x2 and 2x3 up to 2 (thorough 4) forks per branch site in the iteration; and every marginal set with total <= 3 over 2x3x2 and an overlapping 2x2x2 problem with a fixed asymmetric seed and the real statistics), 1-d integerise (3 values, multiples of 1/4 up to 3/2 or integers up to 3, pop 0..4), n-d integerise (2x3), flatten (2x3, counts 0..2); each as C, Fortran, strided, reversed and offset arrays, two other numeric types, nested lists; index arrays as int64, strided and int32"
BOUNDS["C14"] += "; contiguous arrays with axes of length one and any stride there"; OUTSIDE["C14"] = "larger arrays, other dtypes than int32, int64, float32, float64, subclasses and buffer objects other than numpy arrays"
BOUNDS["C15"] = "the calls of C14, each repeated at once and after a failing call and after calls to every other entry point, arguments overwritten afterwards"; OUTSIDE["C15"] = "longer call histories, concurrent calls"
for pid, what in (("C14", 14), ("C15", 15)):
    P = lambda **k: dict(k, what=what)
    add("pure_qis", "h_pure", [pid], flags=["--free"], params=P(fn=0, integral=1, scen=5, phi=2, conc=0), params_t={"phi": 3}, budget=40, tbudget=400, assume=QASSUME)
    add("pure_fit_sym", "h_pure", [pid], flags=["--free", "--maxfork=2"], params=P(conc=0, phi=2), split={"fn": [1, 2], "scen": [0, 2], "integral": [0, 1]}, budget=40, tbudget=400, assume=QASSUME)
    add("pure_fit_sym4", "h_pure", [pid], flags=["--free", "--maxfork=4"], params=P(conc=0, phi=2), split={"fn": [1, 2], "scen": [0, 2], "integral": [0, 1]}, tbudget=600, assume=QASSUME, tier="thorough")
    add("pure_fit", "h_pures", [pid], params=P(conc=1, phi=2), params_t={"phi": 5}, split={"fn": [0, 1, 2], "scen": [5, 9], "integral": [0, 1]}, budget=40, tbudget=400)
    add("pure_int1", "h_pure", [pid], params=P(fn=3), split={"integral": [0, 1]}, budget=40, tbudget=400)
    add("pure_intn", "h_pure", [pid], params=P(fn=4), split={"integral": [0, 1]}, budget=40, tbudget=400)
    add("pure_flat", "h_pure", [pid], params=P(fn=5, integral=1), budget=40, tbudget=400)
    if what == 14: add("pure_unit", "h_pures", [pid], params=P(conc=1, unit=1, phi=2), params_t={"phi": 4}, split={"fn": range(6), "scen": [7], "integral": [1]}, budget=40, tbudget=400, samples=2)
    if what == 15: add("alone", "h_pures", [pid], params=P(conc=1, alone=1, plo=2, phi=2, integral=0, smax=1), params_t={"plo": 0, "phi": 3}, split={"fn": [0, 1, 2], "scen": [5], "otherfn": range(3)}, split_t={"fn": [0, 1, 2], "scen": [3, 5, 9], "otherfn": range(3)}, budget=60, tbudget=600, samples=1)
    if what == 15: add("alone_rest", "h_pures", [pid], params=P(conc=1, alone=1, integral=0, smax=2, few=1), split={"fn": [3, 4, 5], "otherfn": range(3)}, budget=60, tbudget=600, samples=1)
    if what == 15: add("pure_failing", "h_pures", [pid], params=P(conc=1, fails=1, plo=1, phi=1, integral=1, smax=1), split={"fn": [0, 1, 2], "scen": [1]}, budget=60, tbudget=400)

# ---- C21 malformed arguments
BOUNDS["C21"] = "16 shapes from zero-dimensional and empty to 4-d for each of two marginals, index arrays and integerise/flatten arguments; every index value in [-2^62,2^62]; index arrays of 0 to 4 entries for marginals of 1 to 3 dimensions, every entry in [0,2] (thorough 4); 14 extreme doubles (NaN, infinities, subnormal, largest) in each of two seed positions and in the marginals; extreme int64 marginals, skips, dimensions and populations; every memory access of the executed code is checked against its object"
OUTSIDE["C21"] = "exhaustion of memory or time by a consistent but enormous population"
add("shapes", "h_malformed", ["C21"], params={"part": 0, "nseed": 1, "lo": -(1 << 62), "hi": 1 << 62}, params_t={"nseed": 4}, split={"fn": range(3), "m0": range(16)}, budget=60, tbudget=600, samples=2, hang=20, covers=["raised"])
add("indices", "h_malformed", ["C21"], params={"part": 1}, split={"fn": range(3)}, budget=60, tbudget=300, samples=2, hang=20, covers=["raised"])
add("index_lengths", "h_malformed", ["C21"], params={"part": 6, "hi": 2}, params_t={"hi": 4}, split={"fn": range(3), "m0": range(4)}, budget=60, tbudget=600, samples=2, hang=20, covers=["raised", "returned"])
add("extreme", "h_malformed", ["C21"], params={"part": 2}, split={"fn": range(2), "x": range(14)}, budget=60, tbudget=300, samples=2, hang=20, covers=["raised"])
add("array_args", "h_malformed", ["C21"], params={"part": 3}, split={"kind": range(3)}, budget=60, tbudget=300, samples=2, hang=20, covers=["raised", "returned"])
add("sobol_args", "h_malformed", ["C21"], params={"part": 4}, budget=60, tbudget=300, samples=2, hang=20, covers=["raised", "returned"])
add("extreme_int", "h_malformed", ["C21"], params={"part": 5}, split={"fn": range(2)}, budget=60, tbudget=300, samples=2, hang=20, covers=["raised"])

# ---- C08, C09, C10 Sobol
STATE = ["far positions are entered by setting (n, x, b) of SobolData, after checking on the first points that a real generator's state has that meaning; where it has not, only points reachable by iteration are checked"]
BOUNDS["C08"] = "all 1111 dimensions: the 32 direction numbers the generator applies, every difference of two positions below 2^32 (symbolic), one step from every position (position and current point symbolic, by length and number of trailing ones; quick: three of the lengths), the first 2^8 (thorough 2^11) points counted; every second argument dimension count in 1..40 and 1100..1111 and every ninth between (thorough: all); every dimension count above 1111 rejected; Python values for every 32-bit point"
OUTSIDE["C08"] = "nothing within 32-bit positions"
SB = ["--maxsteps=3000000000"]
add("stratified", "h_sobol", ["C08"], lang="core", mode="bv", flags=SB, params={"part": 0}, split={"group": range(8)}, budget=60, tbudget=300, samples=1, assume=STATE)
add("step", "h_sobol", ["C08"], lang="core", mode="bv", flags=SB, params={"part": 1, "groups": 32}, params_t={"allL": 1}, split={"group": range(32)}, budget=90, tbudget=900, samples=1, assume=STATE)
add("dims", "h_sobol", ["C08"], lang="core", flags=SB, params={"part": 2}, params_t={"all": 1}, split={"block": range(23)}, budget=60, tbudget=600, samples=1, assume=STATE)
add("range", "h_sobol", ["C08"], lang="core", params={"part": 3}, budget=30, covers=["rejected"])
add("counted", "h_sobol", ["C08"], lang="core", flags=SB, params={"part": 4, "K": 8}, params_t={"K": 11}, split={"group": range(8)}, budget=60, tbudget=600, samples=1, covers=["counted"])
add("py_values", "h_sobolseq", ["C08"], mode="bv", params={"part": 4}, budget=60, assume=STATE)
BOUNDS["C09"] = "number of discarded points for every 32-bit argument (symbolic); the discarded points themselves for arguments 0..300 (thorough 2000) in 1 to 3 dimensions, iterator, generator and reset; qis and qisi: the number of discarded points for every skips below 2^32 (symbolic), the points for 11 skip values up to 1000 (and 65536, 65537, 70000 and 131073 in one or two problems), every consistent marginal set of four problems with total <= 2 (thorough 4)"
OUTSIDE["C09"] = "the points themselves after more than 1000 discarded ones (C08 covers the step from any position)"
add("skip_count", "h_skip", ["C09"], lang="core", mode="bv", flags=["--maxsteps=300000"], budget=60, samples=0, hang=60, assume=["in this configuration generating a point is replaced by counting it inside the executor; replays generate them all"], covers=["none", "one", "many"])
add("skip_points", "h_sobolseq", ["C09"], params={"part": 3, "nmax": 300}, params_t={"nmax": 2000}, split={"dim": range(3)}, budget=60, tbudget=600, samples=2, covers=["skipped"])
add("skip_qis", "h_skipq", ["C09"], flags=["--free"], params={"fn": 0, "phi": 2}, params_t={"phi": 4}, split={"scen": [0, 5, 9, 18]}, budget=60, tbudget=600, samples=2, assume=QASSUME, covers=["compared"])
add("skip_qisi", "h_skipq", ["C09"], params={"fn": 1, "phi": 2}, params_t={"phi": 4}, split={"scen": [0, 2, 5, 9]}, budget=60, tbudget=600, samples=2, assume=QASSUME, covers=["compared"])
add("skip_any", "h_skipn", ["C09"], flags=["--free"], split={"fn": range(2)}, budget=60, tbudget=300, samples=0, hang=120, covers=["skipped", "not skipped"], assume=["in this configuration the skipping of the generator is replaced by counting inside the executor; replays discard every point"])
for fn, sc in ((0, [0, 5]), (1, [0])): add("skip_big_%s" % ("qis", "qisi")[fn], "h_skipq", ["C09"], flags=["--free", "--maxsteps=3000000000"] if not fn else ["--maxsteps=3000000000"], params={"fn": fn, "phi": 2 - fn, "big": 1}, split={"scen": sc, "skip": range(4)}, budget=90, tbudget=600, samples=1, assume=QASSUME, covers=["compared"])
BOUNDS["C10"] = "the last six positions before exhaustion from any current point, 1 to 3 dimensions, Python iterator and scalar draws, three calls beyond; every history of 8 (thorough 10) scalar draws and resets in 1 to 4 dimensions; every interleaving of 8 (thorough 10) steps of two iterators, and of 5 (thorough 7) draws, whole points and resets of two generators"
OUTSIDE["C10"] = "longer histories"
add("exhaustion", "h_sobolseq", ["C10"], mode="bv", params={"part": 0}, budget=60, assume=STATE)
add("history", "h_sobolseq", ["C10"], params={"part": 1, "len": 8}, params_t={"len": 10}, split={"dim": range(4), "first": range(4)}, budget=60, tbudget=600, covers=["reset"])
add("interleave", "h_sobolseq", ["C10"], params={"part": 2, "len": 8}, params_t={"len": 10}, split={"d0": range(3), "d1": range(3)}, budget=60, tbudget=600, covers=["interleaved"])
add("interleave_draws", "h_sobolseq", ["C10"], params={"part": 5, "len": 5}, params_t={"len": 7}, split={"d0": range(3), "d1": range(3)}, budget=60, tbudget=600, covers=["two generators"])

# ---- C22 sampling
BOUNDS["C22"] = "1 to 4 categories; two successive draws from any frequencies up to 100000 (constrained: 1000) with any 32-bit variates; draws to depletion and beyond for every frequency vector with entries up to 2 (thorough 3), any variates; constrained draws for every first forbidden state"
OUTSIDE["C22"] = "more categories, totals above 2^21 (where the scaled variate is rounded)"
add("draw", "h_ddwr", ["C22"], lang="core", params={"what": 0, "hi": 100000, "draws": 2}, split={"n": range(4)}, budget=60, tbudget=600, covers=["depleted"])
add("deplete", "h_ddwr", ["C22"], lang="core", params={"what": 0, "hi": 2, "draws": 9, "conc": 1}, params_t={"hi": 3, "draws": 13}, split={"n": range(4)}, budget=60, tbudget=900, covers=["depleted"])
add("constrained", "h_ddwr", ["C22"], lang="core", params={"what": 1, "hi": 1000, "draws": 2}, split={"n": range(4)}, budget=60, tbudget=600, covers=["drawn", "none available"])
add("constrained_seq", "h_ddwr", ["C22"], lang="core", params={"what": 1, "hi": 2, "draws": 4, "conc": 1}, params_t={"draws": 6}, split={"n": range(4)}, budget=60, tbudget=600, covers=["drawn", "none available"])
add("replacement", "h_ddwr", ["C22"], lang="core", params={"what": 2}, budget=60, tbudget=600, covers=["replaced"])

# ---- C04, C05, C06, C24 ipf
IASSUME = ["symbolic configurations: products and quotients of two symbolic reals may take any value of their interval (C06: their logarithms add up); branches that only select values are merged instead of forked"]
IBOUND = "the 25 problems with every seed value in {1/4,..,4} (in steps of 1/4) and every consistent set of marginals in steps of 1/4 up to 3, symbolically, whenever ipf ends within 2 (thorough 3) iterations; "
ISLOW, IPOS = {16, 18, 20, 23}, {11, 13, 21, 24}
BOUNDS["C05"] = IBOUND + "also with seeds and marginals up to 250000 in five problems; to the end (up to 1000 iterations) for every consistent set of integer marginals with total <= 2 (thorough 4), divided by 1 or 3, with fixed asymmetric seeds, without and with zero cells"
OUTSIDE["C05"] = "symbolic seeds beyond the third iteration, more than 4 dimensions, marginals of huge magnitude"
BOUNDS["C04"] = IBOUND.replace("every seed value in", "at most one zero seed (anywhere; every set of zeros in 2x2 and 2x3), every other seed value in") + "to the end for the fixed seeds and zero masks of C05, and qisi for the same with four seeds with zeros"
OUTSIDE["C04"] = OUTSIDE["C05"] + "; subnormal seed values"
BOUNDS["C06"] = IBOUND.replace("marginals in steps", "positive marginals in steps") + "also with seeds and marginals up to 250000 in five problems; to the end for every consistent set of positive integer marginals with total up to 3 and fixed seeds; product formula for every consistent set of 1-d integer marginals with total <= 3 (thorough 5) in seven problems"
OUTSIDE["C06"] = OUTSIDE["C05"]
BOUNDS["C24"] = IBOUND + "under every permutation of the dimensions and with every marginal transposed or not; to the end for every consistent set of integer marginals with total <= 2 and fixed seeds; acceptance by qis, qisi and ipf: every marginal value in [-2^40,2^40] of a subset (thorough: all) of the problems"
OUTSIDE["C24"] = OUTSIDE["C05"]
SYM = ["--free", "--merge=1", "--maxfork=2"]; SYMT = ["--free", "--merge=1", "--maxfork=3"]
def ipf(pid, what, name, flags=(), params=None, scens=range(25), **k):
    add(name, "h_ipf", [pid], flags=list(flags), params=dict(params or {}, what=what), split=dict({"scen": list(scens)}, **k.pop("sp", {})), **k)
for pid, what, ex in (("C05", 5, []), ("C04", 4, []), ("C24", 24, ["--assoc"])):
    nz = {"nzeros": 1} if what == 4 else {}
    quick = [i for i in range(25) if i not in ISLOW and i not in IPOS and not (what == 4 and i in (14, 15, 19)) and not (what == 24 and i in (14, 15))]
    ipf(pid, what, "ipf_sym", SYM + ex, nz, quick, budget=60, tbudget=600, samples=2, assume=IASSUME, covers=["converged"])
    if what != 24: ipf(pid, what, "ipf_sym_pos", SYM + ex, dict(nz, plo=1), [11, 13] if what == 4 else sorted(IPOS), budget=60, tbudget=600, samples=2, assume=IASSUME, covers=["converged"])
    ipf(pid, what, "ipf_sym3", SYMT + ex, nz, range(25), budget=60, tbudget=900, samples=2, assume=IASSUME, tier="thorough")
    ipf(pid, what, "ipf_sym3_pos", SYMT + ex, dict(nz, plo=1), range(25), budget=60, tbudget=900, samples=2, assume=IASSUME, tier="thorough")
ipf("C24", 24, "ipf_sym_pos", SYM + ["--assoc"], {"plo": 1}, [13], budget=60, tbudget=600, samples=2, assume=IASSUME, covers=["converged"])
RELQ = [0, 1, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 17, 22, 24]
add("relabel", "h_relabel", ["C24"], flags=["--free"], params={"lo": -BIG, "hi": BIG, "phi": 4 * BIG}, split={"fn": range(3), "scen": RELQ}, split_t={"fn": range(3), "scen": range(25)}, budget=30, tbudget=300, samples=1, hang=20, hangok=True, assume=VASSUME, covers=["accepted", "rejected"])
ipf("C24", 24, "ipf_conc", [], {"conc": 1, "phi": 2, "pattern": 2}, [0, 1, 4, 5, 7, 10, 11, 13, 17, 22], budget=60, tbudget=600, samples=2, covers=["relabelled"])
ipf("C04", 4, "ipf_zeros", SYM, {"zeros": -1}, [0, 1, 2], budget=60, tbudget=600, samples=2, assume=IASSUME)
for pid, what in (("C04", 4), ("C05", 5)):
    ipf(pid, what, "ipf_conc", [], {"conc": 1, "phi": 2, "pattern": 2}, range(25), params_t={"phi": 4}, sp={"zeros": [8] if what == 4 else [0, 8]}, budget=60, tbudget=900, samples=1, covers=["converged"])
    ipf(pid, what, "ipf_third", [], {"conc": 1, "phi": 2, "pattern": 3, "den": 3, "zeros": 2}, [0, 2, 5, 9, 11, 13], params_t={"phi": 4}, budget=60, tbudget=900, samples=1, covers=["converged", "not converged"])
for i in ("C05", "C06"): ipf(i, int(i[1:]), "ipf_big", SYM + (["--log"] if i == "C06" else []), dict({"phi": 250000, "shi": 1000000}, **({"plo": 1} if i == "C06" else {})), [0, 2, 4, 8, 10], budget=60, tbudget=600, samples=2, assume=IASSUME, covers=["converged"])
ipf("C06", 6, "ipf_ratio", SYM + ["--log"], {"plo": 1}, [i for i in range(25) if i not in (18, 21, 23)], budget=60, tbudget=600, samples=2, assume=IASSUME, covers=["converged"])
ipf("C06", 6, "ipf_ratio3", SYMT + ["--log"], {"plo": 1}, range(25), budget=60, tbudget=900, samples=2, assume=IASSUME, tier="thorough")
ipf("C06", 6, "ipf_ratio_conc", [], {"conc": 1, "phi": 3, "plo": 3, "pattern": 2}, [0, 1, 2, 3, 4, 5, 6, 8, 9, 11, 17], params_t={"phi": 4, "plo": 2}, budget=60, tbudget=900, samples=1)
ipf("C06", 7, "ipf_product", [], {"conc": 1, "phi": 3, "pattern": 1}, [0, 1, 2, 3, 17, 22, 23], params_t={"phi": 5}, budget=60, tbudget=600, samples=1, covers=["product"])

# ---- C03, C04 (qisi), C16, C17 and large populations of C01, C02
QIH = {5, 10, 11, 24, 14, 15, 16, 18, 19, 20, 21, 23}
for i in range(25):
    hv = i in QIH
    for pid, what in [("C01", 1)] + ([("C02", 2)] if i in QDISJ else []): add("qis_hundreds_%d" % i, "h_qisi", [pid], params={"what": what, "scen": i, "qis": 1, "plo": 2 if hv else 3, "phi": 2 if hv else 3, "mult": 150, "skip": 0}, budget=60, tbudget=300, samples=1)
for pid, what in (("C01", 1), ("C02", 2)): add("qis_70000", "h_qisi", [pid], params={"what": what, "qis": 1, "plo": 2, "phi": 2, "mult": 35000, "skip": 0}, split={"scen": [0]}, flags=["--maxsteps=3000000000"], budget=90, tbudget=300, samples=1)
VARIATES = ["ipf is represented by an arbitrary non-negative array (multiples of 1/4 up to the population, zero where the seed is) and the Sobol points by arbitrary 32-bit values; statistics return constants"]
BOUNDS["C03"] = "the 25 problems with the real fits and Sobol points: every consistent set of integer marginals with total <= 3 (<= 2 for the ten larger problems; thorough: 4 and 3) and three seeds (uniform, asymmetric, with zeros), skips 0 to 64, and the same marginals times 100; any fitted solution and any variates: every consistent set of marginals with total <= 2 in 13 problems (2-d; 3-d: total <= 1, thorough 2)"
OUTSIDE["C03"] = "larger totals, more than 4 dimensions, totals above 2^53"
for i in range(25):
    hv = i in QIH
    add("qisi_%d" % i, "h_qisi", ["C03"], params={"what": 3, "scen": i, "phi": 2 if hv else 3, "skip": 0}, params_t={"phi": 3 if hv else 4}, split={"pattern": [1, 2]}, budget=60, tbudget=900, samples=1, covers=["converged"])
    add("qisi_zeros_%d" % i, "h_qisi", ["C03"], params={"what": 3, "scen": i, "phi": 2, "skip": 0, "zeros": 8, "pattern": 2}, params_t={"phi": 3}, budget=60, tbudget=900, samples=1)
    add("qisi_hundreds_%d" % i, "h_qisi", ["C03"], params={"what": 3, "scen": i, "plo": 2, "phi": 2, "mult": 130, "skip": 0, "pattern": 2}, budget=60, tbudget=300, samples=1)
add("qisi_skip", "h_qisi", ["C03"], params={"what": 3, "phi": 2, "pattern": 2}, params_t={"phi": 3}, split={"scen": [0, 5, 8, 11, 17], "skip": range(1, 5)}, budget=60, tbudget=600, samples=1)
QANY2, QANY3 = [0, 1, 2, 12, 13, 22], [3, 4, 6, 7, 8, 9, 17]
add("qisi_any", "h_qisiv", ["C03"], params={"what": 3, "phi": 2}, params_t={"phi": 3}, split={"scen": QANY2}, budget=60, tbudget=900, samples=2, assume=VARIATES, covers=["converged", "not converged"])
add("qisi_any3", "h_qisiv", ["C03"], params={"what": 3, "phi": 1}, params_t={"phi": 2}, split={"scen": QANY3 + [11]}, budget=60, tbudget=900, samples=2, assume=VARIATES, covers=["converged"])
add("qisi_zero_any", "h_qisiv", ["C04"], params={"what": 4, "phi": 2, "nzeros": 1}, params_t={"nzeros": 2}, split={"scen": [0, 12, 13, 22]}, budget=60, tbudget=900, samples=2, assume=VARIATES, covers=["not converged"])
add("qisi_zero_any3", "h_qisiv", ["C04"], params={"what": 4, "phi": 1, "nzeros": 1}, params_t={"phi": 2}, split={"scen": QANY3}, budget=60, tbudget=900, samples=2, assume=VARIATES)
add("qisi_zero", "h_qisi", ["C04"], params={"what": 4, "phi": 2, "pattern": 2, "skip": 0}, params_t={"phi": 3}, split={"scen": [0, 1, 2, 3, 4, 8, 9, 11, 13, 14, 17, 22], "zeros": [2, 8]}, budget=60, tbudget=900, samples=1)
add("qisi_zero_all", "h_qisi", ["C04"], params={"what": 4, "phi": 2, "pattern": 2, "skip": 0, "zeros": -16}, params_t={"phi": 3}, split={"scen": [0, 12, 13]}, budget=60, tbudget=900, samples=1)
BOUNDS["C16"] = "qis: the 25 problems, every consistent set of integer marginals with total <= 3 (<= 2 for the larger ones; thorough 4 and 3), and the same times 100, skips 0 and 5; qisi: the same with two asymmetric seeds, without and with zeros, compared with ipf called on the same problem"
OUTSIDE["C16"] = "larger or non-proportional totals, more than 4 dimensions"
BOUNDS["C17"] = BOUNDS["C16"].replace(", compared with ipf called on the same problem", "; the statistic recomputed from the returned counts and expectation, the p-value from the closed form for product(size-1) degrees of freedom; product(size-1) itself for all sizes up to 4096 in 1 to 5 dimensions")
OUTSIDE["C17"] = OUTSIDE["C16"]
for pid, what in (("C16", 16), ("C17", 17)):
    for i in range(25):
        hv = i in QIH
        add("qis_stats_%d" % i, "h_qisi", [pid], params={"what": what, "qis": 1, "scen": i, "phi": 2 if hv else 3, "skip": 0}, params_t={"phi": 3 if hv else 4}, budget=60, tbudget=600, samples=1)
        add("qis_stats_large_%d" % i, "h_qisi", [pid], params={"what": what, "qis": 1, "scen": i, "plo": 2, "phi": 2, "mult": 150, "skip": 3}, budget=60, tbudget=600, samples=1)
        add("qisi_stats_%d" % i, "h_qisi", [pid], params={"what": what, "scen": i, "phi": 2, "pattern": 2, "skip": 0}, params_t={"phi": 3}, budget=60, tbudget=600, samples=1)
        if i not in (16, 21): add("qisi_stats_large_%d" % i, "h_qisi", [pid], params={"what": what, "scen": i, "plo": 2, "phi": 2, "mult": 100, "pattern": 2, "skip": 0}, budget=60, tbudget=600, samples=1)
    add("qisi_stats_zeros", "h_qisi", [pid], params={"what": what, "phi": 2, "pattern": 2, "zeros": 8, "skip": 0}, split={"scen": [0, 1, 3, 4, 8, 9, 14]}, budget=60, tbudget=600, samples=1)
add("dof", "h_chi", ["C17"], lang="core", params={"part": 0}, budget=60, samples=2, covers=["dof"])
add("chi", "h_chi", ["C17"], lang="core", params={"part": 1}, split={"shape": range(5)}, budget=60, samples=2, covers=["chi-squared"])

# ---- C11, C12 integerise
BOUNDS["C11"] = "1 to 4 values: every non-negative integer vector with total 1, 2, 3, 6, 7, 8 or 10 (2 values: also 49; thorough: 3 values 49, 2 values 1000), also scaled by 2^-3 and 2^40, for each of 12 populations from 0 to 2^31-1; two values with any integers of total 7, 49, 1000, 65536, 1000003 or 2^40+1 (symbolic) for populations up to 10; two to four values around multiples of 1000000007 that differ by up to 2 (thorough 4); rejection: 1 to 3 values each from 11 classes (zero, negative, subnormal, huge, NaN, infinite), populations -3..5"
OUTSIDE["C11"] = "more values; optimality where remainders differ by less than double precision resolves (total x population beyond 2^45)"
add("int1_sym", "h_int", ["C11"], params={"part": 0, "n": 1}, split={"tot": [1, 4, 5, 6, 7, 8], "pop": [0, 1, 2, 3, 4]}, flags=["--timeout=10000"], budget=60, tbudget=300, samples=2, covers=["integerised"])
add("int1", "h_int", ["C11"], params={"part": 0, "conc": 1}, split={"n": range(4), "tot": [0, 1, 2, 3, 9, 10, 11]}, budget=60, tbudget=300, samples=1, covers=["rmse"])
add("int1_scaled", "h_int", ["C11"], params={"part": 0, "conc": 1, "n": 2}, split={"den": [-40, 3], "tot": [1, 2, 3]}, budget=60, tbudget=300, samples=1, covers=["rmse"])
add("int1_49", "h_int", ["C11"], params={"part": 0, "conc": 1, "n": 1, "tot": 4}, budget=60, tbudget=300, samples=1, covers=["rmse"])
add("int1_large", "h_int", ["C11"], params={"part": 0, "conc": 1}, split={"n": [1], "tot": [5]}, budget=60, tbudget=600, samples=1, covers=["rmse"], tier="thorough")
add("int1_49_3", "h_int", ["C11"], params={"part": 0, "conc": 1, "n": 2, "tot": 4}, budget=60, tbudget=600, samples=1, covers=["rmse"], tier="thorough")
add("int1_close", "h_int", ["C11"], params={"part": 4, "hi": 2}, params_t={"hi": 4}, split={"n": range(3), "w": range(4)}, budget=60, tbudget=300, samples=1, covers=["close values"])
add("int1_reject", "h_int", ["C11"], params={"part": 1}, split={"n": range(3)}, budget=60, tbudget=300, samples=2, covers=["accepted", "rejected"])
BOUNDS["C12"] = "acceptance: 9 shapes of 2 to 4 dimensions (3x3 the largest), every value a multiple of 2^-20 in [0,4] (symbolic), also around 10^6 and with negative values in [-1,4]; results: 13 shapes of 1 to 3 dimensions, every array of halves with whole marginals and total <= 2 (thorough 3; quarters <= 2), the same times 100 and times 70001, every array of halves with total <= 1, quarters with one value off by 99, 104 or 105 millionths of 2^20/10^6"
BOUNDS["C12"] = BOUNDS["C12"].replace("99, 104 or 105 millionths of 2^20/10^6", "99, 104 or 105 times 2^-20 (1e-4 is 104.9)")
OUTSIDE["C12"] = "larger arrays (where accumulated rounding of the marginals exceeds a half)"
add("int_accept", "h_intv", ["C12"], flags=["--free"], split={"shape": range(9)}, budget=60, tbudget=300, samples=2, hang=20, assume=["reaching QISI::solve counts as acceptance"], covers=["accepted", "rejected"])
add("int_accept_neg", "h_intv", ["C12"], flags=["--free"], params={"lo": -1 << 20}, split={"shape": range(9)}, budget=60, tbudget=300, samples=2, hang=20, assume=["reaching QISI::solve counts as acceptance"], covers=["accepted", "rejected"])
add("int_accept_big", "h_intv", ["C12"], flags=["--free"], params={"base": 1000000}, split={"shape": range(9)}, budget=60, tbudget=300, samples=2, hang=20, assume=["reaching QISI::solve counts as acceptance"], covers=["accepted", "rejected"])
add("int_whole", "h_int", ["C12"], params={"part": 2, "whole": 1, "den": 1, "phi": 2, "hi": 2}, params_t={"phi": 3, "hi": 3}, split={"shape": range(13)}, budget=60, tbudget=600, samples=1, covers=["converged"])
add("int_whole4", "h_int", ["C12"], params={"part": 2, "whole": 1, "den": 2, "phi": 2, "hi": 2}, split={"shape": [0, 1, 4, 6, 7]}, budget=60, tbudget=600, samples=1, covers=["converged"])
add("int_whole4_3d", "h_int", ["C12"], params={"part": 2, "whole": 1, "den": 2, "phi": 2, "hi": 2}, split={"shape": [2, 3, 5, 8, 9, 10]}, budget=60, tbudget=600, samples=1, tier="thorough")
add("int_any", "h_int", ["C12"], params={"part": 2, "den": 1, "phi": 1, "hi": 1}, params_t={"phi": 2, "hi": 2}, split={"shape": range(13)}, budget=60, tbudget=600, samples=1, covers=["raised"])
add("int_hundreds", "h_int", ["C12"], params={"part": 2, "whole": 1, "den": 1, "phi": 2, "hi": 2, "mult": 101}, split={"shape": range(13)}, budget=60, tbudget=600, samples=1, covers=["converged"])
add("int_70001", "h_int", ["C12"], params={"part": 2, "whole": 1, "den": 1, "phi": 1, "hi": 1, "mult": 70001}, split={"shape": [0, 6, 7, 10]}, flags=["--maxsteps=3000000000"], budget=60, tbudget=600, samples=1, covers=["converged"])
add("int_perturbed", "h_int", ["C12"], params={"part": 2, "whole": 1, "den": 2, "phi": 1, "hi": 1, "perturb": 1}, params_t={"phi": 2, "hi": 2}, split={"shape": [0, 1, 3, 4, 6, 7]}, budget=60, tbudget=600, samples=1, covers=["converged", "raised"])

# ---- C19 R interface
BOUNDS["C19"] = "qis: the 25 problems with symbolic marginals (total <= 2, disjoint ones <= 3; thorough one more) and, with the statistics, every consistent integer marginal set with total <= 2, also times 100; qisi and ipf: the same sets with two seeds, also with zeros; 1-d marginals with and without a dim attribute, integer and double storage; skips 0 to 64, and 11 up to 1000 against the later points; index lists with every value in [0,4] for 8 sets of marginal shapes, lists and indices of unequal length, six seed shapes; integerise: 13 shapes, halves with total <= 2; prob2IntFreq: up to 4 probabilities over 7 denominators, 12 populations; sobolSequence: 1 to 5 dimensions, 0 to 6 points, skips -2..40 (thorough 300); flatten: 9 shapes, counts in [-1,2], too few, enough and too many names"
OUTSIDE["C19"] = "larger instances; Rcpp itself, which is represented by a model (model/Rcpp.h)"
for i in range(25):
    hv = i in QHEAVY
    add("r_qis_sym_%d" % i, "h_rs", ["C19"], lang="r", flags=["--free"], params={"part": 0, "conc": 0, "scen": i, "phi": 3 if not hv and i in QDISJ else 2, "skip": 0, "nodim": i % 2}, params_t={"phi": 3 if hv else 4}, budget=60, tbudget=600, samples=1, assume=QASSUME, covers=["converged"])
    add("r_qis_%d" % i, "h_r", ["C19"], lang="r", params={"part": 0, "scen": i, "phi": 2, "skip": i % 5, "asnum": i % 2}, params_t={"phi": 3}, budget=60, tbudget=600, samples=1, covers=["expectation"])
    add("r_qis_hundreds_%d" % i, "h_r", ["C19"], lang="r", params={"part": 0, "scen": i, "plo": 1, "phi": 1, "mult": 170, "skip": 0}, params_t={"phi": 2}, budget=60, tbudget=600, samples=1)
    add("r_qisi_%d" % i, "h_r", ["C19"], lang="r", params={"part": 1, "scen": i, "phi": 2 if i not in QIH else 1, "skip": (i + 2) % 5, "pattern": 2, "asnum": (i + 1) % 2}, params_t={"phi": 3 if i not in QIH else 2}, budget=60, tbudget=600, samples=1, covers=["expectation"])
    add("r_qisi_zeros_%d" % i, "h_r", ["C19"], lang="r", params={"part": 1, "scen": i, "phi": 1, "skip": 0, "pattern": 3, "zeros": 2}, params_t={"phi": 2}, budget=60, tbudget=600, samples=1)
    add("r_ipf_%d" % i, "h_r", ["C19"], lang="r", flags=["--maxsteps=1000000000"], params={"part": 2, "scen": i, "phi": 2 if i not in QIH else 1, "pattern": 2, "skip": 0, "nodim": i % 2}, params_t={"phi": 3 if i not in QIH else 2}, budget=60, tbudget=600, samples=1, covers=["fitted"])
    add("r_ipf_zeros_%d" % i, "h_r", ["C19"], lang="r", flags=["--maxsteps=1000000000"], params={"part": 2, "scen": i, "plo": 1, "phi": 1, "mult": 3, "pattern": 3, "skip": 0, "zeros": 2}, params_t={"phi": 2}, budget=60, tbudget=600, samples=1)
for fn, n, sc in ((0, "qis", [0, 5, 9]), (1, "qisi", [0])): add("r_skip_%s" % n, "h_rskip", ["C19"], lang="r", params={"fn": fn, "plo": 2 + 2 * fn, "phi": 2 + 2 * fn}, params_t={"plo": 1, "phi": 4}, split={"scen": sc}, budget=60, tbudget=600, samples=1, covers=["compared"])
add("r_structure", "h_rstruct", ["C19"], lang="r", split={"fn": range(3), "sh": [0, 1, 2, 3, 4, 5, 6, 7]}, budget=40, tbudget=300, samples=1, covers=["accepted", "rejected"])
add("r_integerise", "h_r", ["C19"], lang="r", params={"part": 3}, params_t={"phi": 3}, split={"shape": range(13)}, budget=60, tbudget=600, samples=1, covers=["converged", "raised"])
add("r_integerise_hundreds", "h_r", ["C19"], lang="r", params={"part": 3, "phi": 1, "hi": 1, "mult": 202}, split={"shape": range(13)}, budget=60, tbudget=600, samples=1, covers=["converged"])
add("r_prob2", "h_r", ["C19"], lang="r", params={"part": 4}, split={"n": range(4), "tot": range(7)}, budget=60, tbudget=600, samples=1, covers=["integerised", "raised"])
add("r_sobol", "h_r", ["C19"], lang="r", params={"part": 5}, params_t={"nmax": 300}, split={"dim": range(5)}, budget=60, tbudget=600, samples=1, covers=["skipped", "raised"])
add("r_sobol_big", "h_r", ["C19"], lang="r", flags=["--maxsteps=3000000000"], params={"part": 5, "bigskip": 1}, params_t={"nmax": 300}, split={"dim": [0, 1], "bigskips": range(8)}, budget=60, tbudget=600, samples=1, covers=["skipped"])
add("r_flatten", "h_r", ["C19"], lang="r", params={"part": 6, "hi": 1}, params_t={"hi": 2}, split={"shape": [2, 3, 4, 5, 6, 7, 8]}, budget=60, tbudget=600, samples=1, covers=["flattened", "rejected"])
add("r_flatten2", "h_r", ["C19"], lang="r", params={"part": 6, "hi": 2}, split={"shape": [0, 1, 2, 4, 5]}, budget=60, tbudget=600, samples=1, covers=["flattened", "rejected"])

# ---- C18 p-value, C23 correlated variates
BOUNDS["C18"] = "perfect fit and infinite statistic: every number of degrees of freedom from 1 to 2^32-1 (symbolic); range [0,1]: every multiple of 1/16 in [0,2] and 1 to 4096 degrees of freedom whatever exp, log and lgamma return (symbolic); against the closed form: 17 degrees of freedom from 1 to 1000 with every multiple of 1/4 up to 170 and every eighth of the degrees of freedom up to 1.5 times; 11 statistics from 20 to 1e300 times the degrees of freedom"
OUTSIDE["C18"] = "non-positive degrees of freedom (a dimension of size 1); the statistic itself (C17); values between the grid points, where exp, log and lgamma cannot be reasoned about"
PV = ["libm's exp, log and lgamma are evaluated where their argument is concrete"]
add("pval_ends", "h_pval", ["C18"], lang="core", params={"part": 0}, budget=60, samples=1, covers=["ends"])
add("pval_range", "h_pvalu", ["C18"], lang="core", flags=["--free"], params={"hi": 32}, budget=60, samples=0, compare=False, covers=["bounded"], assume=["exp, log and lgamma may return any value of a wide range"])
add("pval_tail", "h_pval", ["C18"], lang="core", params={"part": 1, "hi": 680}, split={"dof": range(17)}, budget=60, samples=1, covers=["tail"], assume=PV)
add("pval_rel", "h_pval", ["C18"], lang="core", params={"part": 1, "hi": 12, "den": 8, "rel": 1}, split={"dof": range(17)}, budget=60, samples=1, covers=["tail"], assume=PV)
add("pval_far", "h_pval", ["C18"], lang="core", params={"part": 2}, split={"dof": range(17)}, budget=60, samples=1, maxcand=30, assume=PV)
BOUNDS["C23"] = "every pair of 32-bit variates and the correlations k/32 (k from -32 to 32), with the cumulative normal and its inverse arbitrary mutually inverse functions (symbolic); 9 correlations with 14 x 14 variates including 0 and 2^32-1 and the real functions; the correlations k/64, +-1e-9 and +-0.99999 with 5 x 5 variates and the real functions; 8 invalid correlations including NaN"
OUTSIDE["C23"] = "other correlations; the accuracy of the cumulative normal and its inverse"
add("correlated", "h_chol", ["C23"], lang="core", flags=["--timeout=10000"], params={"part": 0}, budget=90, tbudget=300, samples=2, compare=False, covers=["correlated"], assume=["the cumulative normal and its inverse are arbitrary functions, inverse to one another"])
add("correlated_near", "h_chol", ["C23"], lang="core", flags=["--timeout=10000"], params={"part": 2}, split={"form": range(4)}, budget=90, tbudget=300, samples=2, compare=False, covers=["correlated"])
add("correlation_range", "h_chol", ["C23"], lang="core", params={"part": 1}, budget=60, samples=1, covers=["accepted", "rejected"])
add("correlated_ends", "h_cholx", ["C23"], lang="core", budget=60, samples=2, covers=["correlated"])
add("correlated_grid", "h_cholx", ["C23"], lang="core", params={"grid": 1}, budget=60, samples=2, covers=["correlated"])
ipf("C06", 6, "ipf_near", [], {"conc": 1, "phi": 3, "plo": 3}, [0, 1, 2, 4, 5, 8, 9, 11], params_t={"phi": 4, "plo": 2}, sp={"pattern": [5, 6, 7]}, budget=60, tbudget=900, samples=1, covers=["ratio"])
ipf("C06", 6, "ipf_ratio_near", SYM + ["--log"], {"plo": 1, "slo": 4000, "shi": 4003}, [0, 1, 2, 4, 8], budget=60, tbudget=600, samples=2, assume=IASSUME, covers=["converged"])
# ---- skewed and large problems: individuals added in one state; wide ranges; fractions
BULK = [i for i in range(25) if i not in (14, 15, 16, 21)]
for pid, what, q in (("C01", 1, 1), ("C02", 2, 1), ("C03", 3, 0), ("C16", 16, 1), ("C16", 16, 0), ("C17", 17, 1), ("C17", 17, 0)):
    for b, at in ((299, 1), (70001, 0)):
        if b > 1000 and (pid in ("C16", "C17") or not q): continue
        add("bulk_%d%s" % (b, "" if q else "_qisi"), "h_qisi", [pid], params={"what": what, "qis": q, "plo": 1, "phi": 1, "bulk": b, "bulkat": at, "pattern": 2, "skip": 0}, params_t={"phi": 2} if b < 1000 else {}, split={"scen": ([i for i in BULK if pid != "C02" or i in QDISJ] if b < 1000 else [0])}, flags=["--maxsteps=3000000000"], budget=60, tbudget=600, samples=1)
add("expect_large", "h_expect", ["C16"], params_t={"phi": 4}, split={"scen": range(25)}, budget=60, tbudget=600, samples=1, covers=["expected"])
add("chi_tiny", "h_chi", ["C17"], lang="core", params={"part": 1, "tiny": 1}, split={"shape": range(5)}, budget=60, samples=2, covers=["chi-squared"])
for pid, what in (("C04", 4), ("C05", 5), ("C06", 6), ("C24", 24)):
    ipf(pid, what, "ipf_wide", ["--maxsteps=1000000000"], {"conc": 1, "plo": 2, "phi": 2, "pattern": 4}, [0, 1, 2, 3, 4, 5, 8, 9, 11, 13, 17, 22], params_t={"phi": 3}, budget=60, tbudget=900, samples=1)
    ipf(pid, what, "ipf_bulk", ["--maxsteps=1000000000"], {"conc": 1, "plo": 1, "phi": 1, "pattern": 2, "bulk": 1000003}, [0, 1, 2, 3, 4, 5, 8, 9, 11, 13, 17, 22], params_t={"phi": 2}, budget=60, tbudget=900, samples=1)
add("r_ipf_quarters", "h_r", ["C19"], lang="r", flags=["--maxsteps=1000000000"], params={"part": 2, "plo": 3, "phi": 3, "den": 4, "pattern": 2, "skip": 0}, params_t={"plo": 1, "phi": 5}, split={"scen": [0, 1, 2, 4, 5, 7, 8, 9, 13, 17]}, budget=60, tbudget=600, samples=1)
for pid, what, q in (("C01", 1, 1), ("C02", 2, 1), ("C03", 3, 0), ("C04", 4, 0), ("C16", 16, 1), ("C16", 16, 0), ("C17", 17, 1), ("C17", 17, 0)): # five and six dimensions
    add("dims5%s" % ("" if q else "_qisi"), "h_qisi", [pid], params={"what": what, "qis": q, "plo": 1, "phi": 2, "pattern": 2, "skip": 0, "zeros": 2 if pid == "C04" else 0}, params_t={"phi": 3}, split={"scen": [25, 27] if pid == "C02" else [25, 26, 27]}, budget=60, tbudget=600, samples=1)
for pid, what in (("C04", 4), ("C05", 5), ("C06", 6)): ipf(pid, what, "ipf_dims5", ["--maxsteps=1000000000"], {"conc": 1, "plo": 1, "phi": 2, "pattern": 2, "zeros": 2 if pid == "C04" else 0}, [25, 26, 27], params_t={"phi": 3}, budget=60, tbudget=900, samples=1)
for part, n in ((0, "qis"), (1, "qisi"), (2, "ipf")): add("r_%s_dims5" % n, "h_r", ["C19"], lang="r", flags=["--maxsteps=1000000000"], params={"part": part, "plo": 1, "phi": 2, "pattern": 2, "skip": 0}, params_t={"phi": 3}, split={"scen": [25, 26, 27]}, budget=60, tbudget=600, samples=1)
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C16", "C17", "C19"): BOUNDS[_p] += "; three further problems of five and six dimensions"; OUTSIDE[_p] = OUTSIDE[_p].replace("more than 4 dimensions", "more than 6 dimensions")
NA["C25"] = "the statement is about the accuracy of erf, exp and log compositions (transcendental functions, rounding included); no SMT theory available here decides it, and replacing them by arbitrary functions makes the property meaningless"
for _p, _t in {
  "C01": "; one of the individuals in one state multiplied to 299 (all but the largest problems) and 70001",
  "C02": "; 299 and 70001 individuals in one state beside one other",
  "C03": "; 299 individuals in one state beside one other",
  "C16": "; 299 individuals in one state beside one other; the expectation alone (QIS constructor) at populations up to 3 x 2^40",
  "C17": "; 299 individuals in one state beside one other; the statistic for expectations from 2^-20 to 10^6 with observed counts up to 1000 (symbolic)",
  "C04": "; seeds spread over 24 orders of magnitude; 1000003 individuals in one state beside one other", "C05": "; the same spread seeds and skewed totals as C04",
  "C06": "; the same spread seeds and skewed totals as C04", "C24": "; the same spread seeds and skewed totals as C04",
  "C19": "; ipf with marginals in quarters; sobolSequence also with skips up to 131073", "C15": "; a result computed after a series of failing calls (rejected marginals, indices, seeds, skips) of every entry point; six calls compared with the same call in a fresh process state, after each of 26 other problems (integerise, flatten: 4) solved by each of qis, qisi and ipf"}.items(): BOUNDS[_p] += _t

for _p, _t in {
  "C01": "; totals from 2^24 to 2^32-1: 12 patterns of marginals in four disjoint problems, the first draw (thorough: two) with any variates; nothing is returned before",
  "C02": "; the first draw (thorough: two) of four problems for 12 patterns of marginals of up to 2^32-1 individuals, any variates",
  "C03": "; totals from 2^24 to 2^32-1: 12 patterns of marginals in two disjoint problems, the first draw with any variates; nothing is returned before",
  "C12": "; 2x2 arrays with totals from 2^24 to 2^40 (14 patterns), the first draw; nothing is returned before",
  "C23": "; correlations +-2^-k and +-(1-2^-k) for k from 6 to 52, any variates",
  "C06": "; seeds that differ by less than one percent from flat ones, fixed (to the end) and symbolic (up to two forks per site)",
  "C10": "; points already returned are unchanged at the end of each history",
  "C20": "; one step of every iterator from any position (symbolic) in arrays of any size up to 2^40, 2^30, 2^20 and 2^15 per dimension in 1 to 4 dimensions; the address of every element (symbolic position) of eight arrays of up to 2^35 elements"}.items(): BOUNDS[_p] += _t
