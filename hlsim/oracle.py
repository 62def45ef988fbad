"""Judgements on the result of one call. Each returns None (fine) or (class, message)."""
import math

from . import ref
from .util import prod, reduce_to, marg_map

GENUINE = ("bad_alloc",)


def pop_of(o):
    return sum(o["m"][0])


def qis_common(o, sizes, pop, conv, popout, iv, rsizes):
    if list(rsizes) != list(sizes):
        return ("shape", "population has shape %s, the marginals imply %s" % (list(rsizes), list(sizes)))
    if len(iv) != prod(sizes):
        return ("shape", "population has %d elements" % len(iv))
    if min(iv) < 0:
        return ("negative", "population contains %d" % min(iv))
    if sum(iv) != pop:
        return ("total", "population sums to %d, requested %d" % (sum(iv), pop))
    if popout is not None and popout != pop:
        return ("popstat", "reported population %d, requested %d" % (popout, pop))
    match = all(reduce_to(iv, sizes, i) == list(m) for i, m in zip(o["idx"], o["m"]))
    if bool(conv) != match:
        return ("conv", "conv is %s but the marginals are %s" % (bool(conv), "reproduced" if match else "not reproduced"))
    return None


def zeros(seed, iv):
    for k, (s, v) in enumerate(zip(seed, iv)):
        if s == 0.0 and v != 0:
            return ("zero", "state %d is impossible (seed 0) but occupied by %d" % (k, v))
    return None


def igr(o, conv, rmse, iv, rsizes):
    sizes, seed = o["seedsz"], o["seed"]
    if list(rsizes) != list(sizes) or len(iv) != len(seed):
        return ("shape", "result has shape %s, the input %s" % (list(rsizes), list(sizes)))
    if min(iv) < 0:
        return ("negative", "result contains %d" % min(iv))
    tot = round(math.fsum(seed))
    if sum(iv) != tot:
        return ("total", "result sums to %d, input to %d" % (sum(iv), tot))
    z = zeros(seed, iv)
    if z:
        return z
    if len(sizes) == 1:
        for a, b in zip(iv, seed):
            if abs(a - b) >= 1 + 1e-6:
                return ("far", "%d is not within one of %r" % (a, b))
        x = closest(iv, seed)
        if x:
            return x
    match = True
    for d in range(len(sizes)):
        a = reduce_to(iv, sizes, [d]) if len(sizes) > 1 else [sum(iv)]
        b = reduce_to(seed, sizes, [d]) if len(sizes) > 1 else [sum(seed)]
        if any(abs(x - y) > 0.01 for x, y in zip(a, b)):
            match = False
    if bool(conv) != match:
        return ("conv", "conv is %s but the sums are %s" % (bool(conv), "reproduced" if match else "not reproduced"))
    e = math.sqrt(math.fsum((x - y) ** 2 for x, y in zip(iv, seed)) / len(seed))
    if rmse is None or not abs(rmse - e) <= 1e-9 * max(1.0, e):
        return ("rmse", "rmse is %r, should be %r" % (rmse, e))
    return None


def ig1(o, rmse, iv):
    x, pop = o["x"], o["pop"]
    t = math.fsum(x)
    if len(iv) != len(x):
        return ("shape", "%d values for %d shares" % (len(iv), len(x)))
    if min(iv) < 0:
        return ("negative", "result contains %d" % min(iv))
    if sum(iv) != pop:
        return ("total", "result sums to %d, requested %d" % (sum(iv), pop))
    s = 0.0
    for a, b in zip(iv, x):
        e = b / t * pop
        if abs(a - e) >= 1 + 1e-6:
            return ("far", "%d is not within one of its exact share %r" % (a, e))
        s += (a - e) ** 2
    e = math.sqrt(s / len(x))
    if not abs(rmse - e) <= 1e-6 * max(1.0, e):
        return ("rmse", "rmse is %r, should be %r" % (rmse, e))
    return closest(iv, [b / t * pop for b in x])


def closest(iv, exact):
    """moving one individual anywhere else must not bring the result closer to the shares (which makes it the closest of all)"""
    r = [e - a for a, e in zip(iv, exact)]
    give = [x for x, a in zip(r, iv) if a > 0]
    if give and max(r) - min(give) > 1 + 1e-6:
        return ("closest", "a closer result exists: the values differ from their exact shares by %r to %r" % (min(give), max(r)))
    return None


def ipf(o, conv, popout, iters, maxerr, dv, rsizes, budget=1500000):
    """C15"""
    sizes, idx, m, seed = o["seedsz"], o["idx"], o["m"], o["seed"]
    if list(rsizes) != list(sizes) or len(dv) != prod(sizes):
        return ("shape", "result has shape %s, the seed %s" % (rsizes, sizes))
    total = max(math.fsum(x) for x in m)
    for x, s in zip(dv, seed):
        if not (x >= 0.0 and math.isfinite(x)):
            return ("value", "the fitted population contains %r" % x)
        if s == 0.0 and x != 0.0:
            return ("zeros", "the seed is zero where the fitted population is %r" % x)
    if popout != int(math.floor(math.fsum(m[0]) + 0.5)):
        return ("pop", "pop is %r, the marginals sum to %r" % (popout, math.fsum(m[0])))
    err, n = 0.0, len(dv)
    for i, mm in zip(idx, m):
        err = max(err, max(abs(x - y) for x, y in zip(reduce_to(dv, sizes, i), mm)))
    slack = 1e-12 + total * 2.3e-16 * (4 + n)
    if not abs(maxerr - err) <= slack:
        return ("maxError", "maxError is %r, the fitted population is %r away" % (maxerr, err))
    if bool(conv) != (maxerr < 1e-8):
        return ("conv", "conv is %s, maxError %r" % (bool(conv), maxerr))
    if not 1 <= iters <= 1000 or not conv and iters != 1000:
        return ("iterations", "%d iterations, %sconverged" % (iters, "" if conv else "not "))
    if iters * n * len(idx) > budget:
        return None
    a, errs, tame = ref.ipf_trace(sizes, idx, m, seed, iters)
    if not tame:
        return None
    for x, y in zip(dv, a):
        if not abs(x - y) <= 1e-6 * y + 1e-280:
            return ("fit", "the fitted population contains %r, %d passes of the seed over the marginals make that %r" % (x, iters, y))
    if any(e < 1e-8 - slack for e in errs[:-1]):
        return ("iterations", "%d iterations, but the tolerance was met after %d" % (iters, [e < 1e-8 - slack for e in errs].index(True) + 1))
    return None


def flat(o, cols, offset=0):
    """cols: list of columns"""
    from .util import indices
    sz, a = o["asz"], o["a"]
    pop = sum(a)
    if len(cols) != len(sz):
        return ("shape", "%d columns for %d dimensions" % (len(cols), len(sz)))
    for c in cols:
        if len(c) != pop:
            return ("rows", "a column has %d rows, the population is %d" % (len(c), pop))
    row = 0
    for ix, n in zip(indices(sz), a):
        for _ in range(n):
            got = tuple(c[row] - offset for c in cols)
            if got != ix:
                return ("row", "row %d is %s, should be %s" % (row, got, ix))
            row += 1
    return None


def degen(iv):
    """n! / prod (a_i + 1)!; None where double arithmetic leaves its range on the way"""
    lg = lo = hi = 0.0
    s = len(iv)
    for a in iv:
        if a > 150:
            return None
        lg += math.log(s) - math.lgamma(a + 2)
        s -= 1
        lo, hi = min(lo, lg), max(hi, lg)
    return math.exp(lg) if -680 < lo and hi < 680 else None


KNOWN_PV = "pvalue-underflow"


def stats(o, kind, iv, expect, chisq, pvalue, degeneracy, sizes):
    """C14; returns list of (class, message)"""
    out = []
    pop = pop_of(o)
    n = prod(sizes)
    pr = {"sizes": sizes, "idx": o["idx"], "m": o["m"]}
    if len(expect) != n:
        return [("expectation", "expectation has %d elements" % len(expect))]
    if kind == "qis":
        e = ref.qis_expectation(pr)
        if e is None:
            return []
        for k in range(n):
            if not abs(expect[k] - e[k]) <= 1e-9 * max(1.0, e[k]):
                out.append(("expectation", "expectation[%d] is %r, independent occupancy is %r" % (k, expect[k], e[k])))
                break
    else:
        e, conv, it = ref.ipf_fit(sizes, o["idx"], o["m"], o["seed"])
        if conv:
            for k in range(n):
                if not abs(expect[k] - e[k]) <= 1e-6 * max(1.0, e[k]):
                    out.append(("expectation", "expectation[%d] is %r, the fit of the seed is %r" % (k, expect[k], e[k])))
                    break
            if not abs(math.fsum(expect) - pop) <= 1e-5 * max(1, pop):
                out.append(("expectation", "expectation sums to %r, population is %d" % (math.fsum(expect), pop)))
    if not all(math.isfinite(x) for x in expect):
        return out
    # chi-squared distance of this population from the reported expectation (a state that cannot be occupied and is not adds nothing)
    impossible = any(x == 0.0 and v for x, v in zip(expect, iv))
    c = ref.chisq(iv, expect)
    if not impossible:
        # tiny expectations make the statistic ill-conditioned only in the usual relative sense
        if not (math.isfinite(chisq) and abs(chisq - c) <= 1e-7 * max(1.0, abs(c))):
            out.append(("chisq", "chiSq is %r, should be %r" % (chisq, c)))
        if not math.isfinite(pvalue):
            out.append(("finite", "pValue is %r" % pvalue))
        d = degen(iv)
        if d is not None and not abs(degeneracy - d) <= 1e-9 * d:
            out.append(("degeneracy", "degeneracy is %r, the population implies %r" % (degeneracy, d)))
        dof = prod(s - 1 for s in sizes)
        if math.isfinite(chisq) and chisq >= 0:
            if dof == 0:
                want = 1.0
            else:
                want = ref.gammq(dof / 2.0, chisq / 2.0)
            if want is not None and not abs(pvalue - want) <= 1e-5 + 1e-4 * want:
                a, x = dof / 2.0, chisq / 2.0
                arg = a * math.log(x) - x - math.lgamma(a) if x > 0 and a > 0 else 0.0
                if dof and pvalue == 1.0 and x > a and arg < -85.19:      # log(1e-37)
                    out.append((KNOWN_PV, "pValue is 1.0 for chiSq %r with %d degrees of freedom (tail probability %r)" % (chisq, dof, want)))
                else:
                    out.append(("pvalue", "pValue is %r for chiSq %r with %d degrees of freedom, should be %r" % (pvalue, chisq, dof, want)))
    return out
