#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long text stays readable and reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

prop("C01", "qis conserves the population and reports convergence truthfully",
 "For every consistent set of non-negative integer marginals and every sequence of quasirandom points the sampler may be given, a population returned by qis has the shape the marginals imply, contains only non-negative integers and sums exactly to the reported (and requested) population. The reported convergence flag is true exactly when every marginal of the returned population equals the requested one. When the marginals share no dimension, or overlap only in a chain in which each marginal meets the earlier ones inside one of them, qis always succeeds and converges.",
 ["inputs", "histories", "fault_sequences"],
 "All consistent marginal sets (any number, rank, order and overlap of marginals, zeros included), all skips, and all sequences of points in (0,1)^d, including ones no Sobol prefix produces.",
 "Tests use a few dozen fixed problems and only the first points of the real Sobol sequence; the sampler's branch at every individual depends on the point drawn, so a biased, reordered or boundary point is never exercised.",
 ["src/QIS.cpp", "src/QIS.h", "src/Microsynthesis.h", "src/NDArrayUtils.h", "src/Index.cpp", "src/module.cpp"],
 [("sampling without replacement: every chosen state decrements each marginal", "src/QIS.cpp QIS::solve_m"),
  ("conditional sampling of the free dimensions of each marginal", "src/QIS.cpp sample/recursive_sample/pick"),
  ("validation of totals and partial sums", "src/Microsynthesis.h createMappings")],
 ["return value of humanleague.qis: population array, conv, pop"],
 "link-time seam on the point generator (nlopt_sobol_next); no source change",
 [("remaining marginals", "unassigned individuals per marginal cell", "src/Microsynthesis.h m_marginals")])

prop("C02", "qisi conserves population, respects seed zeros, reports conv truthfully",
 "For every consistent set of marginals, every non-negative seed and every sequence of quasirandom points, a population returned by qisi has the seed's shape, contains only non-negative integers, sums exactly to the reported (and requested) population, and never occupies a state whose seed value is zero. The reported convergence flag is true exactly when every marginal is reproduced exactly. If the initial fit of the seed to the marginals is possible, a population is always returned, approximate (convergence flag false) if need be.",
 ["inputs", "histories", "fault_sequences"],
 "All consistent marginal sets and seeds (structural zeros included), all skips, all sequences of points in (0,1)^d.",
 "The tests' handful of problems almost never reach the path where the sampled population exhausts a marginal early and the fit has to be recomputed or abandoned; which path is taken depends on each point drawn.",
 ["src/QISI.cpp", "src/QISI.h", "src/IPF.h", "src/Microsynthesis.h", "src/module.cpp"],
 [("sampling from the fitted state distribution, refitting when a state is exhausted", "src/QISI.cpp QISI::solve"),
  ("iterative proportional fit preserves zeros", "src/Microsynthesis.h rScale")],
 ["return value of humanleague.qisi: population array, conv, pop"],
 "link-time seam on the point generator; no source change",
 [("fitted solution", "remaining expected occupancy", "src/QISI.h m_ipfSolution")])

prop("C03", "integerise keeps totals, zeros and reports conv and rmse truthfully",
 "For every fractional population with integral sums along each dimension, integerise returns a non-negative integer array of the same shape and total that occupies no zero state, whatever quasirandom points it samples; its convergence flag is true exactly when every one-dimensional sum is reproduced, its rmse is the root mean square difference from the input, and it returns an approximation rather than failing part way. For one-dimensional shares and a population it returns non-negative integers that sum exactly to that population, each within one of its exact share, and no other such vector is closer to the shares (in root mean square).",
 ["inputs", "histories", "fault_sequences"],
 "All fractional arrays of any rank with integral marginal sums (up to rounding noise), all one-dimensional share vectors and populations, all sequences of sampled points.",
 "Tests integerise a few smooth arrays, for which the first sampled solution happens to converge; sparse inputs, rounding noise in the total, and unlucky points are not reached.",
 ["src/Integerise.cpp", "src/Integerise.h", "src/QISI.cpp", "src/module.cpp"],
 [("marginals rounded from partial sums and passed to the sampler", "src/Integerise.cpp Integeriser::Integeriser"),
  ("largest-remainder rounding", "src/Integerise.cpp integeriseMarginalDistribution")],
 ["return values of humanleague.integerise (both overloads)"],
 "link-time seam on the point generator; no source change")

prop("C04", "a Sobol generator's values depend only on its own history",
 "The n-th value a Sobol generator yields is the n-th point of the d-dimensional Joe-Kuo Sobol sequence, counted from the documented starting offset (the largest power of two smaller than the requested skip), for every interleaving of any number of generators of any dimensions being created, advanced, skipped, reset, dropped and garbage collected. All values lie strictly inside (0,1). When the generator cannot produce a further point it signals exhaustion (StopIteration in Python), never a wrong value, and keeps doing so while every other generator is unaffected.",
 ["histories", "schedules", "fault_sequences", "inputs"],
 "All histories of operations over any set of live generators, any dimension from 1 to 1111, any skips, any point at which the sequence ends.",
 "Tests read a few values from one generator at a time in 1 to 6 dimensions and never reach the end of a sequence.",
 ["src/Sobol.cpp", "src/Sobol.h", "src/SobolImpl.cpp", "src/SobolData.h", "src/module.cpp"],
 [("Gray-code state update per dimension", "src/SobolImpl.cpp sobol_gen"), ("power-of-two skip", "src/SobolImpl.cpp nlopt_sobol_skip"),
  ("exhaustion signalled by exception and translated to StopIteration", "src/Sobol.cpp Sobol::buf, src/module.cpp SobolGenerator::next")],
 ["values yielded by SobolSequence, StopIteration; C++ Sobol::buf/operator()/skip/reset"],
 "link-time seam on the point generator to end a sequence early; no source change",
 [("generator state", "count and current point", "src/SobolImpl.h SobolData")])

prop("C05", "calls interleaved in one Python process do not affect each other",
 "When any number of Python threads use humanleague in one process, and when a call re-enters humanleague from a callback that its own arguments trigger (array conversion, garbage collection), every call returns exactly what it returns when it is the only call in the process, and every generator continues its own sequence; a generator used by several threads gives each point to exactly one of them.",
 ["schedules", "histories", "programs"],
 "All interleavings of calls at every point where another thread or callback may run, all mixes of flatten, integerise, ipf, qis, qisi and generators.",
 "The tests make one call at a time from one thread; no test interleaves or re-enters.",
 ["src/module.cpp", "src/Sobol.cpp", "src/QIS.cpp", "src/QISI.cpp", "src/IPF.h", "src/Log.h", "src/Global.h"],
 [("no mutable state outside the call's own objects", "src/module.cpp"), ("arguments copied or kept alive for the duration of the call", "src/module.cpp toNDArray/asNDArray")],
 ["return values and exceptions of all public Python functions"],
 "compiler-inserted trace callback at every branch; no source change")

prop("C06", "solver objects on different threads do not affect each other",
 "Independent C++ solver, generator and array objects used on different threads of one process, each object on one thread, give exactly the results they give when used alone, for every preemption of those threads at any instruction. This includes threads that are the first to use the library and objects being created and destroyed while others work.",
 ["schedules", "programs", "histories"],
 "All interleavings, at the granularity of individual memory accesses, of any mix of IPF, QIS, QISI, integerise, listify and Sobol objects on up to four threads.",
 "The C++ self-tests are single threaded; hidden sharing (function statics, shared scratch buffers, lazily initialised tables) is only visible under particular preemptions.",
 ["src/QIS.cpp", "src/QISI.cpp", "src/IPF.h", "src/Integerise.cpp", "src/Sobol.cpp", "src/SobolImpl.cpp", "src/StatFuncs.cpp", "src/Index.cpp", "src/NDArray.h", "src/Log.h"],
 [("objects own all of their mutable state; statics are immutable", "src/QIS.cpp scale, src/StatFuncs.cpp constants, src/SobolData.h")],
 ["results and exceptions of IPF, QIS, QISI, Integeriser, Sobol, listify, statistics"],
 "compiler-inserted trace callbacks at every branch, load and store; no source change")

prop("C07", "running out of memory fails one call cleanly and nothing else",
 "If any single allocation of the library's own memory or of the arrays it returns, or any run of them, fails inside a humanleague call, that call either completes with its normal result or reports the failure as an out-of-memory (or its own ordinary) exception: it never crashes, hangs, returns a wrong result or loses memory. The caller's arguments, live generators and every later call behave as if the failed call had not been made.",
 ["fault_sequences", "crash_points", "inputs"],
 "All calls, all positions of the failing allocation within the call, repeated and consecutive failures, and all subsequent calls.",
 "No test makes an allocation fail.",
 ["src/module.cpp", "src/Sobol.cpp", "src/SobolImpl.cpp", "src/NDArray.h", "src/Microsynthesis.h", "src/Integerise.cpp"],
 [("RAII ownership of array storage", "src/NDArray.h"), ("checked creation of generator state", "src/SobolImpl.cpp sobol_init, src/Sobol.cpp Sobol::Sobol"),
  ("C++ exceptions translated to Python exceptions", "src/module.cpp")],
 ["exceptions and return values of all public functions; allocator balance"],
 "replaceable operator new and link-time seam on malloc; no source change",
 [("live allocations", "storage owned by solver and generator objects", "src/NDArray.h m_data, src/SobolImpl.h SobolData")])

prop("C08", "arguments are only read, and only their values matter",
 "No humanleague call modifies any array or list passed to it. Its result depends only on the values in its arguments: not on their element type, memory layout, strides, byte order, alignment, read-only flag, on whether they are arrays, nested lists or objects converted on the fly, on how long the caller keeps them alive, or on when garbage is collected; and a returned array stays valid and unchanged after arguments are mutated or freed.",
 ["inputs", "schedules", "histories"],
 "All argument representations of the same values, all lifetimes, all instants of collection and of reuse of freed buffers during and after the call.",
 "Tests pass freshly made contiguous arrays of the native type that outlive the call.",
 ["src/module.cpp", "src/NDArray.h"],
 [("conversion of arguments to contiguous arrays of the expected type", "src/module.cpp carray_t"), ("copy of marginals, view of seed held alive by the call", "src/module.cpp toNDArray/asNDArray"),
  ("copy of results", "src/module.cpp fromNDArray")],
 ["argument arrays before and after; return values"],
 "numpy allocation handler and callback arguments as scheduling points; no source change")

prop("C09", "results do not depend on earlier calls or on the state of the heap",
 "Every humanleague call is repeatable: with the same argument values it gives bit-for-bit the same result whatever calls succeeded or failed before it in the process, however often it is repeated, and whatever the recycled memory it is handed contains. It never writes outside, or uses after release, the storage it owns.",
 ["histories", "inputs", "fault_sequences"],
 "All histories of earlier calls (of any kind, valid, rejected or failed) and all heap contents and recycling orders.",
 "Tests run each problem once on a fresh heap whose recycled memory is mostly zero, so stale or uninitialised data and stray writes usually go unnoticed.",
 ["src/NDArray.h", "src/NDArrayUtils.h", "src/Index.cpp", "src/QIS.cpp", "src/QISI.cpp", "src/IPF.h", "src/Integerise.cpp", "src/SobolImpl.cpp", "src/StatFuncs.cpp"],
 [("arrays assigned before use", "src/QIS.cpp computeStateValues, src/NDArrayUtils.h reduce"), ("offsets computed from sizes", "src/NDArray.h computeOffsets"),
  ("index arithmetic stays inside the array", "src/Index.cpp")],
 ["return values bit for bit; allocator red zones and poison"],
 "replaceable operator new and link-time seam on malloc; no source change")

prop("C10", "every request ends in bounded work, and bad requests are rejected",
 "Every call returns or raises within an amount of work bounded by the size of the problem. A malformed request (inconsistent, negative or non-integral totals, mismatched lists or shapes, repeated, missing or out-of-range dimensions, empty or zero-rank arrays, invalid shares, negative, infinite or NaN seeds, negative counts, out-of-range skips or dimensions, a problem too large to store, wrong types) is always rejected with an exception: it never crashes, hangs or returns a population, and leaves the process as if it had not been made.",
 ["inputs", "fault_sequences", "histories"],
 "All requests, each class of malformation applied at any position of an otherwise valid request, alone or combined, at any point of a history of valid ones.",
 "Tests check about twenty specific invalid inputs; the space of malformed positions, and non-termination, cannot be sampled by examples without a bounded clock.",
 ["src/Microsynthesis.h", "src/module.cpp", "src/NDArray.h", "src/Integerise.cpp", "src/IPF.h", "src/Index.cpp", "src/Sobol.cpp", "src/NDArrayUtils.h"],
 [("validation of indices, sizes, totals and partial sums", "src/Microsynthesis.h constructor, createMappings"), ("validation of sizes", "src/NDArray.h checkedStorageSize"),
  ("iteration limit of the fit", "src/IPF.h s_MAXITER"), ("dimension and skip ranges", "src/Sobol.cpp")],
 ["exception or return of all public Python functions; simulated steps consumed"],
 "compiler-inserted trace callback as simulated clock; no source change")

prop("C11", "the R front end gives the same answers as the core, whenever R collects",
 "Through the R package, ipf, qis, qisi, integerise, prob2IntFreq, flatten and sobolSequence give, for every request and every garbage collection R performs during or between calls, the populations, statistics and sequences the library defines for that problem (R's column-major arrays and one-based dimensions mapped to the row-major core), with R's arguments left unmodified. Malformed requests, and allocations that fail inside the library, become R errors after which the session works on.",
 ["schedules", "inputs", "fault_sequences", "histories"],
 "All requests and histories, and all instants at which R's collector may run or a C++ allocation may fail.",
 "The R tests make single calls without collections during them, on symmetric or small problems that do not distinguish transposed results.",
 ["src/rcpp_api.cpp", "src/RcppExports.cpp", "R/RcppExports.R"],
 [("conversion between column-major R arrays and row-major core arrays", "src/rcpp_api.cpp convertArray and reversal of indices"), ("seed and index validation", "src/rcpp_api.cpp checkSeed/getDimension"),
  ("objects protected from collection while in use", "src/rcpp_api.cpp")],
 ["R return values and conditions"],
 "R's own collector schedule control and replaceable operator new; no source change")

prop("C12", "flatten lists every individual exactly once",
 "For every array of counts, flatten yields one column per dimension and one row per individual: each state appears exactly as many times as its count, no individual is lost, duplicated or moved to another state, and states appear in row-major order. This holds end to end for a population just produced by qis, qisi or integerise from any sampled points, and for a flatten that is retried after failures or interleaved with other calls.",
 ["inputs", "fault_sequences", "schedules", "histories"],
 "All count arrays of any rank and layout, all pipelines of synthesis and flatten, all failed attempts before a successful one, all interleavings.",
 "Tests flatten a few small populations once, without failures or interleaving, mostly checking lengths.",
 ["src/NDArrayUtils.h", "src/module.cpp", "src/Index.cpp"],
 [("row-major enumeration of states, one row per count", "src/NDArrayUtils.h listify"), ("population total sized in advance", "src/module.cpp flatten")],
 ["lists returned by humanleague.flatten"],
 "allocation faults, callbacks and sampled points from the simulator; no source change")

prop("C13", "each individual consumes exactly one point, starting at the requested skip",
 "A qis or qisi call (and a multidimensional integerise) that assigns N individuals over D dimensions consumes exactly N consecutive points of the D-dimensional Sobol sequence, in order, one for each individual, each individual being assigned a state selected by that point, coordinate by coordinate, from what remains of the marginals (qis) or of the fitted population (qisi, integerise) after the individuals before it; the first point consumed is determined only by the skips argument (the documented power-of-two offset). No call shares points with, or moves the position of, any other call or generator.",
 ["histories", "schedules", "inputs"],
 "All problems, skips, and histories and interleavings of solver calls and live generators.",
 "Tests only compare marginals of the result, which any points would satisfy; which points were used, and whether skips has any effect, is not observed.",
 ["src/QIS.cpp", "src/QISI.cpp", "src/Integerise.cpp", "src/Sobol.cpp", "src/SobolImpl.cpp"],
 [("one buffer of coordinates per loop over the population", "src/QIS.cpp solve_m, src/QISI.cpp solve"), ("skip applied at construction", "src/QIS.cpp, src/QISI.cpp, src/Sobol.cpp")],
 ["points delivered at the generator boundary; populations for different skips"],
 "link-time seam on the point generator records every delivery; no source change")

prop("C14", "reported statistics describe the returned population",
 "Whatever points were sampled, the statistics returned with a qis or qisi population describe that population: pop is its total, expectation is the independent-occupancy (qis) or fitted (qisi) population for the requested marginals with the same total, chiSq is the chi-squared distance of the population from that expectation, pValue is the corresponding upper-tail probability, and degeneracy is determined by the population alone. They are finite whenever the expectation is, including when some states cannot be occupied.",
 ["inputs", "histories"],
 "All consistent problems, including zero marginals and seeds with zeros, and all populations reachable by any sequence of sampled points.",
 "Tests compare statistics to constants for a few problems with well-behaved points; poorly fitting populations, zero expectations and abandoned fits are not reached.",
 ["src/QIS.cpp", "src/QISI.cpp", "src/StatFuncs.h", "src/StatFuncs.cpp", "src/module.cpp"],
 [("statistics computed from the final population", "src/QIS.cpp solve_m, src/QISI.cpp solve"), ("incomplete gamma function", "src/StatFuncs.cpp gamain/pValue")],
 ["statistics dictionary returned by humanleague.qis and humanleague.qisi"],
 "link-time seam on the point generator; no source change")

prop("C15", "ipf returns the seed fitted to the marginals and reports it truthfully",
 "For every consistent set of marginals (fractional ones included) and every non-negative finite seed of their shape, ipf returns an array of the seed's shape, finite, non-negative and zero wherever the seed is zero, which is the seed scaled to each marginal in turn, pass after pass (when converged: the seed times one factor per marginal cell, the maximum-entropy fit). maxError is the largest difference between a requested marginal and the result's, conv is true exactly when that is below the tolerance of 1e-8, iterations is the number of passes made, which stop at the first that meets the tolerance and are 1000 when none does, and pop is the marginals' total to the nearest integer. This does not depend on what memory held before, on failed allocations in earlier calls or on how the arguments are represented.",
 ["inputs", "histories", "fault_sequences"],
 "All consistent marginals of any overlap, all seeds including zeros, extreme magnitudes and ones that cannot be fitted; all states of the heap.",
 "Tests compare a few fitted arrays; the errors and sums are accumulated in work arrays whose initial contents depend on the allocator, and slow or impossible fits are hardly sampled.",
 ["src/IPF.h", "src/Microsynthesis.h", "src/NDArrayUtils.h", "src/module.cpp", "src/rcpp_api.cpp"],
 [("alternate scaling", "src/Microsynthesis.h rScale"), ("errors of a pass", "src/IPF.h computeErrors"), ("stop rule", "src/IPF.h solve")],
 ["return value of humanleague.ipf"],
 "link-time seam on the allocator; no source change")

prop("N03", "p-value and normal-distribution functions are numerically accurate",
 "The chi-squared p-value, cumulative normal and its inverse, and correlated-pair transform agree with the exact functions to their documented precision over their whole domain.",
 ["inputs"], "All arguments.", "Tests sample a few points.",
 ["src/StatFuncs.cpp"], [("incomplete gamma series and continued fraction", "src/StatFuncs.cpp")], ["C++ functions"])
prop("N04", "Sobol points are evenly distributed",
 "Every block of 2^k consecutive aligned points has the equidistribution (low discrepancy) the Sobol construction promises in every coordinate.",
 ["inputs"], "All dimensions and blocks.", "Tests compare a few values.",
 ["src/SobolImpl.cpp", "src/SobolData.h"], [("direction numbers", "src/SobolData.h")], ["SobolSequence values"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
