#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (the text lives here so it can be reviewed and wrapped)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None,
                   **({"state":state} if state else {}))))

p("C01","qis: exact integer population, truthful convergence flag",
  "For every consistent set of integer marginals with a total below 2^32 (any number, shape, index order or overlap, and any number of skips), qis either raises an error or returns an array of non-negative integers of the implied shape whose total equals the reported population. The convergence flag is true exactly when summing that array over the dimensions absent from each marginal reproduces every marginal exactly.",
  ["inputs","configurations"],"all consistent marginals and index lists; all skip counts",
  "Tests run a dozen fixed marginal sets and look at a few sums; the pick sequence, and hence which cells are decremented, differs for every marginal vector, index layout and skip.",
  ["src/QIS.cpp","src/Microsynthesis.h","src/NDArrayUtils.h","src/Index.cpp","src/module.cpp"],
  [("sampling without replacement from the marginals","src/QIS.cpp"),("marginal decrement and negative check","src/QIS.cpp")],
  ["python qis(...) return tuple"])
p("C02","qis: independent marginals always converge",
  "When no dimension appears in more than one marginal, qis never fails and always converges, whatever the marginal values (zeros included, total below 2^32), their dimensionality, the number of skips and the quasirandom points drawn.",
  ["inputs","configurations"],"all consistent non-overlapping marginals, all quasirandom sequences",
  "Tests see only the real sequence from its start with a few vectors; a pick that lands on an exhausted category needs a specific value/remaining-count coincidence.",
  ["src/QIS.cpp","src/NDArrayUtils.h"],
  [("pick scales the variate by the remaining total","src/QIS.cpp"),("slice/remap of the already fixed dimensions","src/QIS.cpp")],
  ["python qis(...) conv flag and exceptions"])
p("C03","qisi: exact integer population, truthful convergence flag",
  "For every seed and consistent set of integer marginals, qisi either raises an error or returns non-negative integers of the seed's shape whose total equals the population. The convergence flag is true exactly when the array reproduces every marginal exactly.",
  ["inputs","configurations"],"all non-negative seeds, consistent marginals, skips",
  "Tests use unit or near-unit seeds and a handful of marginals; re-fitting is triggered only by particular remaining-count patterns.",
  ["src/QISI.cpp","src/IPF.h","src/Microsynthesis.h"],
  [("per-individual pick, decrement and re-fit","src/QISI.cpp")],
  ["python qisi(...) return tuple"])
p("C04","qisi and ipf: impossible states stay empty",
  "A state whose seed value is zero receives exactly zero in the ipf result and is never populated by qisi, converged or not; no ipf result computed from a non-negative seed and non-negative marginals (values of ordinary magnitude, neither overflowing nor vanishing) contains a negative value.",
  ["inputs","configurations"],"all seeds with any pattern of zeros, all consistent marginals",
  "No test has a zero in a seed; the zero must survive every scaling pass, re-fit and pick.",
  ["src/IPF.h","src/Microsynthesis.h","src/QISI.cpp"],
  [("multiplicative scaling","src/Microsynthesis.h"),("pick by strict cumulative comparison","src/QISI.cpp")],
  ["python ipf(...), qisi(...) result arrays"])
p("C05","ipf: convergence flag and error statistic are truthful",
  "When ipf reports convergence, every marginal of the returned array is within 1e-8 of the requested one; when it does not, at least one is not. The reported maximum error is the largest absolute difference between any marginal of the returned array and the requested value, and the reported iteration count is between 1 and 1000.",
  ["inputs","configurations"],"all seeds, all consistent marginals, any number/overlap of marginals",
  "Tests check a few converging problems; a convergence test that ignores one marginal, one cell or one sign is invisible on them.",
  ["src/IPF.h","src/Microsynthesis.h","src/NDArrayUtils.h"],
  [("rDiff and computeErrors after every scaling pass","src/IPF.h")],
  ["python ipf(...) result and stats"])
p("C06","ipf: the seed's interaction structure is preserved",
  "The ipf result is the seed multiplied by factors that each depend only on the coordinates named by one marginal, so ratios (cross-products) that the marginals do not constrain are those of the seed. For a uniform seed and one-dimensional marginals it is the product of the marginals divided by the population to the appropriate power.",
  ["inputs"],"all positive seeds and positive marginals",
  "Tests only check marginal sums, which a wrong (additive, or mis-indexed) adjustment could also satisfy.",
  ["src/IPF.h","src/Microsynthesis.h","src/Index.cpp"],
  [("rScale","src/Microsynthesis.h")],["python ipf(...) result"])
p("C07","inconsistent problems are rejected, consistent ones accepted",
  "qis, qisi and ipf raise an error, and return no result, whenever the index list and marginals do not describe one consistent problem: list lengths differ, fewer than two marginals or dimensions, index and marginal dimensionality differ, a dimension missing, repeated within a marginal or given two sizes, a negative value, unequal totals (for ipf, after rounding to the nearest whole number), unequal partial sums on a shared dimension, or a seed of the wrong shape. A problem with none of these defects is not rejected as inconsistent, for totals below 2^32.",
  ["inputs","configurations"],"all index lists and marginal values",
  "Tests try one example of some of these; acceptance and rejection must be right for every combination of values, positions and shapes.",
  ["src/Microsynthesis.h","src/IPF.h","src/QISI.cpp","src/module.cpp"],
  [("constructor validation","src/Microsynthesis.h"),("seed shape check","src/IPF.h, src/QISI.cpp")],
  ["python exceptions"])
p("C08","Sobol: every coordinate is a valid stratified sequence",
  "In each of the 1111 supported dimensions every generated value lies strictly inside (0,1), and among the points of index 0 to 2^k-1 (index 0 being the omitted origin) each interval [j/2^k,(j+1)/2^k) holds exactly one point, for every k up to 32. A coordinate's sequence does not depend on how many dimensions are generated, and dimensions outside 1..1111 are rejected.",
  ["inputs","histories"],"all dimensions, all positions below 2^32-1",
  "Tests look at the first ten points in at most 12 dimensions; there are 1111 x 2^32 values and a single wrong table entry or shift only shows far into one dimension.",
  ["src/SobolImpl.cpp","src/SobolData.h","src/Sobol.cpp","src/module.cpp"],
  [("direction numbers from polynomial and initial-value tables","src/SobolData.h, src/SobolImpl.cpp"),("Gray-code update","src/SobolImpl.cpp")],
  ["SobolSequence.__next__","C++ Sobol API"])
p("C09","skips discard exactly the documented number of points",
  "A Sobol sequence created with skips n>=1 equals the unskipped sequence with its first 2^k points discarded, 2^k being the largest power of two smaller than n (one point when n is 1), and n=0 discards none. Creation finishes for every n that fits the argument, and qis and qisi honour their skips argument as the same number of discarded points.",
  ["inputs","configurations"],"all n, all dimensions",
  "Tests use n = 0,1,2,5,10 and 12345; boundaries (powers of two, n above 2^31) are not sampled and the tests never check that qisi's skips has an effect.",
  ["src/SobolImpl.cpp","src/Sobol.cpp","src/QIS.cpp","src/QISI.cpp"],
  [("power-of-two search","src/SobolImpl.cpp")],["SobolSequence","qis/qisi results for different skips"])
p("C10","Sobol: iteration ends cleanly, resets and stays in step",
  "After 2^32-1 points a Sobol sequence ends, reporting exhaustion as the end of the iteration and never a wrong or repeated point, however often it is asked again. Drawing values one at a time yields exactly the coordinates of successive points in order, and resetting a generator restarts it with the same values as a new generator with the same skips.",
  ["histories"],"all interleavings of next, scalar draw, skip and reset; all positions",
  "Reaching exhaustion takes 2^32-1 draws; tests perform a single reset.",
  ["src/Sobol.cpp","src/SobolImpl.cpp","src/module.cpp"],
  [("n==2^32-1 guard","src/SobolImpl.cpp"),("buffer position","src/Sobol.cpp")],["SobolSequence.__next__","C++ Sobol API"])
p("C11","1-d integerise: exact total, closest integers, true rmse",
  "For every vector of non-negative values with positive finite sum and every population, the 1-d integerisation returns non-negative integers that sum exactly to the population, each less than 1 away from its exact share, no other such vector having a smaller squared error (ties at the limit of double precision aside, so for totals and populations below 2^45); the reported rmse is the root-mean-square difference from the exact shares. A negative population, negative or non-finite values, or a zero sum is rejected with an error.",
  ["inputs"],"all finite non-negative vectors, all populations",
  "Tests try three distributions and four populations; rounding of share*population is data dependent.",
  ["src/Integerise.cpp","src/module.cpp","src/rcpp_api.cpp"],
  [("largest-remainder loop","src/Integerise.cpp")],["python integerise(frac,pop), R prob2IntFreq"])
p("C12","n-d integerise: integral marginals demanded and preserved",
  "integerise of an array raises an error unless its total and all its 1-d marginal sums are whole numbers to within 1e-4. Otherwise it either raises an error because sampling failed, or the result's total is the nearest whole number to the input's total, convergence is reported exactly when every 1-d marginal sum of the result equals the rounded marginal of the input, and the reported rmse is the root-mean-square difference between result and input.",
  ["inputs"],"all non-negative arrays of any shape",
  "Tests use two or three arrays; rounding of nearly-integral sums (4.999999999) is never sampled.",
  ["src/Integerise.cpp","src/QISI.cpp"],
  [("checked rounding of marginals","src/Integerise.cpp")],["python integerise(pop), R integerise"])
p("C13","flatten lists each individual exactly once",
  "flatten returns one column per dimension, each with as many rows as the sum of the counts, and every state appears in exactly as many rows as its count, rows being ordered by state (last dimension fastest in Python). An array with a negative count is rejected.",
  ["inputs"],"all integer arrays of any shape",
  "Tests flatten two or three generated populations and count single columns only.",
  ["src/NDArrayUtils.h","src/module.cpp","src/rcpp_api.cpp"],
  [("listify","src/NDArrayUtils.h")],["python flatten, R flatten"])
p("C14","results do not depend on array memory layout or numeric type",
  "Every Python entry point gives the same result for two inputs that are equal element by element, whether they are contiguous, transposed, sliced or strided arrays, lists, or arrays of another numeric type holding the same values.",
  ["inputs","configurations"],"all layouts and dtypes of every array argument",
  "Tests pass C-contiguous arrays of the native dtype only (one integer marginal apart).",
  ["src/module.cpp"],[("array_t conversion and raw pointer access","src/module.cpp")],
  ["python ipf, qis, qisi, integerise, flatten"])
p("C15","calls are pure: arguments untouched, results repeatable",
  "No call modifies the arrays or lists passed to it, and repeating a call with equal arguments, in any order and after any other (also failed) calls, returns equal results that later calls do not alter.",
  ["inputs","histories"],"all call sequences",
  "Tests never compare arguments before and after a call or repeat a call after a different one; qis and qisi decrement their working marginals in place.",
  ["src/module.cpp","src/rcpp_api.cpp","src/NDArray.h","src/QIS.cpp","src/QISI.cpp"],
  [("marginals copied on entry, results copied on exit","src/module.cpp")],["arguments after a call; results of repeated calls"])
p("C16","expectation and population statistics are those of the problem",
  "qis reports the population (the common total of the marginals) and an expected occupancy proportional to the product of the marginals and summing to the population; qisi reports the ipf solution of the same seed and marginals as its expectation. The expectation is taken before sampling and is finite whenever the population is positive and a compatible state exists.",
  ["inputs"],"all consistent marginals and seeds",
  "Tests compare the expectation with ipf for two marginal sets.",
  ["src/QIS.cpp","src/QISI.cpp"],[("computeStateValues, scale","src/QIS.cpp"),("copy of first IPF","src/QISI.cpp")],["stats['expectation'], stats['pop']"])
p("C17","chi-squared statistic is exact and always defined",
  "The reported chi-squared statistic is the sum over states of (observed-expected)^2/expected, states with zero expectation and zero occupancy contributing nothing; it is never negative and never NaN for a converged population. The degrees of freedom used are the product of (size-1) over the dimensions.",
  ["inputs"],"all converged qis/qisi results",
  "Tests bound the statistic for fixed problems without empty categories.",
  ["src/StatFuncs.h","src/StatFuncs.cpp","src/QIS.cpp","src/QISI.cpp"],[("chiSq","src/StatFuncs.h"),("dof","src/StatFuncs.cpp")],["stats['chiSq'], stats['pValue']"])
p("C18","p-value is a tail probability",
  "For every positive number of degrees of freedom the reported p-value lies in [0,1], is 1 for a perfect fit, and tends to 0, never to 1, as chi-squared grows far beyond the degrees of freedom.",
  ["inputs"],"all chi-squared values and degrees of freedom",
  "Tests check sixteen (dof, x) pairs with x below 300 and none in the far tail.",
  ["src/StatFuncs.cpp"],[("incomplete gamma ratio","src/StatFuncs.cpp")],["stats['pValue']"])
p("C19","R functions agree with the definition on column-major data",
  "The R functions satisfy the same guarantees as the Python ones with R conventions: dimension numbers and categories start at 1 and arrays are column-major. In particular for R qis, qisi and ipf the result summed over all dimensions but those named in an index vector, in the order named, equals (for ipf, to 1e-8) the corresponding marginal when convergence is reported.",
  ["inputs","configurations"],"all marginals, seeds, index orders and shapes",
  "The R tests check single-dimension sums of a few near-symmetric problems; axis reversal errors cancel there.",
  ["src/rcpp_api.cpp","R/RcppExports.R"],[("reversal of dimensions and marginals","src/rcpp_api.cpp"),("TransposedIndex","src/Index.cpp")],
  ["R qis, qisi, ipf, integerise, flatten, prob2IntFreq, sobolSequence"])
p("C20","array primitives: reduce, slice and iteration are exact",
  "Reducing an n-dimensional array to any ordered subset of its dimensions yields, at each coordinate, the sum of exactly the elements with those coordinates; the sum, minimum and maximum of an array are those of its elements; slicing fixes any set of dimensions and keeps the others in order; iteration visits each element once in row-major (or, transposed, column-major) order.",
  ["inputs","configurations"],"all shapes, subsets and element values",
  "The C++ unit tests fill arrays with constants or one pattern in 3 or 4 dimensions.",
  ["src/NDArray.h","src/NDArrayUtils.h","src/Index.cpp"],[("offset computation","src/NDArray.h"),("index increment","src/Index.cpp")],["C++ array API"])
p("C21","malformed arguments never crash or hang",
  "No argument of the accepted Python types makes a function read or write outside its arrays, divide by zero, or loop for ever: zero-dimensional and empty arrays, zero-size or unit dimensions, out-of-range, negative or repeated indices, a marginal covering every dimension, and extreme values either work or raise an exception.",
  ["inputs","configurations"],"all shapes, index lists and values",
  "Tests contain no degenerate shape; several of these failures are silent memory errors.",
  ["src/module.cpp","src/NDArray.h","src/Microsynthesis.h","src/Index.cpp"],[("argument validation","src/module.cpp, src/Microsynthesis.h")],["process survives; exceptions"])
p("C22","sampling without replacement draws each item exactly once",
  "For every frequency vector and every sequence of 32-bit variates, drawing without replacement returns only categories with remaining count, decrements exactly that category, yields each category exactly as often as its frequency, and raises an error once depleted. A constrained draw returns an allowed category or reports that none is available without changing the distribution. Drawing with replacement returns only categories of positive frequency and leaves the distribution unchanged.",
  ["inputs","histories"],"all frequencies, all variate sequences",
  "One test draws one fixed distribution with one sequence.",
  ["src/DDWR.h"],[("cumulative search","src/DDWR.h")],["C++ distribution API"])
p("C23","correlated variates keep the first coordinate and the stated mixing",
  "A correlated pair keeps its first coordinate exactly; its second is the cumulative normal of rho*n0 + sqrt(1-rho^2)*n1, n0 and n1 being the inverse cumulative normals of the two uncorrelated coordinates. Both coordinates of the pair are monotone in their inputs up to the resolution of 2^32, never wrapping around, and a correlation that is not a number or lies outside [-1,1] is rejected.",
  ["inputs"],"all correlations, all pairs of 32-bit variates",
  "Tests sample three correlations and look only at moments of the pairs; a wrong weight near |rho|=1, or a wrapped extreme variate, is not seen.",
  ["src/StatFuncs.cpp","src/StatFuncs.h","src/Sobol.h"],
  [("Cholesky factor of the 2x2 correlation matrix","src/StatFuncs.cpp"),("conversion back to 32-bit variates","src/StatFuncs.cpp")],["C++ StatFuncs API"])
p("C24","ipf and qisi validation is blind to how axes are labelled",
  "Relabelling the dimensions of a problem, permuting the axes of the seed and the index lists accordingly, or swapping the axes of a marginal together with its index list, permutes the ipf result correspondingly and changes nothing else, to within rounding; and qis, qisi and ipf accept the relabelled problem exactly when they accept the original.",
  ["inputs","configurations"],"all permutations of axes, all seeds and marginals",
  "No test compares two labellings of one problem.",
  ["src/Microsynthesis.h","src/Index.cpp","src/IPF.h"],[("mapped indices","src/Index.cpp")],["python ipf results"])
p("C25","the normal quantile inverts the cumulative normal",
  "The inverse cumulative normal inverts the cumulative normal over (0,1) to machine precision and is monotone; at 0 and 1 it returns the most negative and most positive value.",
  ["inputs"],"all probabilities",
  "Tests sample a grid of about 200 points.",
  ["src/StatFuncs.cpp"],
  [("rational approximation plus Halley step","src/StatFuncs.cpp")],["C++ StatFuncs API"])
p("C26","array storage is owned once and keeps its shape and contents",
  "Through every sequence of construction, resizing, filling, copying, moving, viewing of foreign storage, release and destruction, an NDArray has the shape it was given and the elements last written to it, a copy is independent of its original, a moved array carries its contents over, a view is never resized or freed and refuses to be, released storage stays valid and belongs to the caller, an array without dimensions is refused, and every element is destroyed exactly once.",
  ["inputs","histories"],"all sequences of operations, shapes and contents",
  "Tests construct, resize and release single arrays; a double free, stale offset table or shared buffer needs a particular order of operations.",
  ["src/NDArray.h"],[("ownership flag, storage and offsets","src/NDArray.h"),("release to the Python array","src/module.cpp")],["C++ array API","memory errors"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80, x["id"]
        f.write(json.dumps(x)+"\n")
print(len(P))
