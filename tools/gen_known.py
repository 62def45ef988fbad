import json, os
F = [
 ("C08", "a5915d6", "ipf read marginals after the temporary arrays made to convert them (integer, list or strided input) had been freed"),
 ("C08", "d30c852", "every Python function read the storage of Fortran-ordered, strided or reversed arrays as if it were contiguous row-major"),
 ("C07", "76c83fb", "a Sobol generator whose allocation failed was used through a null pointer"),
 ("C04", "1f61169", "Sobol::reset kept the unused values of the point before the reset"),
 ("C04", "afead15", "a skip larger than 2^31 never returned"),
 ("C04", "ce1c474", "an exhausted SobolSequence raised IndexError-like errors instead of StopIteration"),
 ("C13", "fcdebe3", "qisi ignored its skips argument"),
 ("C10", "9db4e9e", "negative and oversized skips were accepted and wrapped"),
 ("C10", "d1220ea", "a dimension repeated within a marginal was accepted and read outside arrays"),
 ("C10", "630f2ae", "zero-dimensional, empty and oversized arrays were accepted and read or written out of bounds"),
 ("C01", "a58e162", "a marginal spanning every dimension made the solvers loop for ever"),
 ("C10", "6576bb0", "flatten of an array with negative counts wrote outside its columns"),
 ("C10", "ad3c47e", "negative, infinite or NaN probabilities were accepted by integerise (endless loop or wrong total)"),
 ("C03", "73215b3", "one-dimensional integerise truncated its total and could lose an individual; a total of zero divided by zero"),
 ("C14", "6d21ba6", "chiSq and pValue were NaN when a state that cannot be occupied was empty"),
 ("C14", "41e65db", "the expectation of an empty population was NaN"),
 ("C07", "e424b6a", "NDArray::resize kept a dangling pointer when the new allocation failed (double free)"),
 ("C11", "29a34a7", "the R front end read beyond the end of mismatched indices, marginals or seeds"),
 ("C11", "854b637", "R flatten read beyond the end of a short vector of category names"),
 ("C02", "1192188", "qisi and integerise threw part way when the marginals could no longer be met instead of returning an approximate population"),
 ("C07", "5847004", "constructing an array when the last of its allocations failed leaked the storage already allocated"),
 ("C10", "4ea73e8", "1-d integerise of an array with a negative total returned negative counts"),
 ("C10", "88b6f0a", "SobolSequence truncated a dimension of 2^32 or more instead of rejecting it"),
 ("C04", "2272008", "SobolSequence lost a point when memory ran out while returning it"),
 ("C10", "e0000b6", "ipf, qisi and integerise accepted seeds with negative, infinite or NaN values (ipf then reported convergence of an array of NaN)"),
 ("C11", "8c90976", "R sobolSequence with a negative dimension or length leaked memory (R error raised without unwinding); a huge dimension was allocated before it was rejected"),
 ("C11", "05f48df", "R flatten lost columns whose category names are repeated or empty"),
 ("C14", "7087bad", "the expectation of qis overflowed to NaN when there were hundreds of marginals"),
 ("C10", "00f61a2", "flatten wrote beyond its result (and crashed) when the sum of the counts overflowed"),
 ("C10", "d448290", "one-dimensional integerise ignored the shares when their sum overflowed to infinity"),
 ("C10", "3e5839d", "qis, qisi and ipf accepted marginals whose total overflowed (a population of zeros, conv True), and ipf marginals that were all NaN or infinite"),
 ("C02", "44cb500", "ipf returned NaN, and qisi failed, for feasible seeds whose values were subnormal or so large that their sum overflowed"),
 ("C07", "b5d8298", "reaching an array's data through a buffer view leaked the view and pinned the caller's array when memory ran out"),
]
W = {'heap': {'seed': 7, 'fill': 1, 'reuse': 2}, 'threads': [[{'skips': 0, 'idx': [[0], [1, 0]], 'msz': [[3], [2, 3]], 'm': [[25, 170, 18], [0, 0, 18, 25, 170, 0]], 'k': 'qis', '_hid': [0, 25, 0, 170, 18, 0], '_sizes': [3, 2]}]]}
K = [{"property": "C14", "class": "pvalue-underflow",
      "what": "qis/qisi report pValue 1.0 (instead of 0) when the incomplete gamma function underflows: chiSq/2 > dof/2 and x^a e^-x / gamma(a) < 1e-37 (e.g. qis of 3x2 marginals with chiSq 207.4, 2 degrees of freedom)",
      "why_not_repaired": "the existing R test 'simple 5D qis' requires pValue > 0.99 in exactly this region", "plan": W}]
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
json.dump({"findings": K, "fixed": ["fixed: property=%s %s %s" % f for f in F]}, open(p, "w"), indent=1)
