"""Small executable reference models (no code shared with the library)."""
import math
import os
from fractions import Fraction

from .util import prod, reduce_to, marg_map, indices, strides

# ------------------------------------------------------------------------------------------------ Sobol
_table = None


def _load():
    global _table
    _table = []
    with open(os.path.join(os.path.dirname(__file__), "data", "joekuo.txt")) as f:
        for line in f:
            t = [int(x) for x in line.split()] if line[0] != '#' else []
            if t:
                _table.append((t[0], t[1:]))


_dirs = {}


def direction(dim):
    """32 direction numbers of (zero-based) dimension dim, as 32-bit fractions"""
    v = _dirs.get(dim)
    if v is not None:
        return v
    if dim == 0:
        v = [1 << (31 - j) for j in range(32)]
    else:
        if _table is None:
            _load()
        poly, m = _table[dim - 1]
        s = poly.bit_length() - 1
        m = list(m[:s])
        for j in range(s, 32):
            # m_j = 2 a_1 m_{j-1} ^ 4 a_2 m_{j-2} ^ ... ^ 2^s m_{j-s} ^ m_{j-s}
            x = m[j - s] ^ (m[j - s] << s)
            for k in range(1, s):
                if (poly >> (s - k)) & 1:
                    x ^= m[j - k] << k
            m.append(x)
        v = [m[j] << (31 - j) for j in range(32)]
    _dirs[dim] = v
    return v


def sobol_point(n, dim):
    """n-th point, n >= 1 (point 0 is the origin, which is never yielded)"""
    g = n ^ (n >> 1)
    out = []
    for d in range(dim):
        v = direction(d)
        x, b, j = 0, g, 0
        while b:
            if b & 1:
                x ^= v[j]
            b >>= 1
            j += 1
        out.append(x)
    return out


SOBOL_LIMIT = (1 << 32) - 1      # number of points a generator can yield in all


def skip_count(n):
    """documented: the largest power of two smaller than n (at least one point)"""
    k = 1
    while 2 * k < n:
        k *= 2
    return k


# ------------------------------------------------------------------------------------------------ statistics
def chisq(obs, exp):
    t = 0.0
    for o, e in zip(obs, exp):
        if e == 0.0:
            if o:
                return float("inf")
            continue
        t += (o - e) * (o - e) / e
    return t


def gammq(a, x):
    """upper regularised incomplete gamma; None if it cannot be decided accurately here"""
    if x < 0 or a <= 0:
        return None
    if x == 0:
        return 1.0
    if math.isinf(x):
        return 0.0
    lg = math.lgamma(a)
    if x < a + 1:
        s = t = 1.0 / a
        n = a
        for _ in range(100000):
            n += 1
            t *= x / n
            s += t
            if abs(t) < abs(s) * 1e-17:
                break
        return 1.0 - s * math.exp(-x + a * math.log(x) - lg)
    b = x + 1 - a
    c = 1e300
    d = 1 / b
    h = d
    for i in range(1, 100000):
        an = -i * (i - a)
        b += 2
        d = an * d + b
        d = 1e-300 if abs(d) < 1e-300 else d
        c = b + an / c
        c = 1e-300 if abs(c) < 1e-300 else c
        d = 1 / d
        de = d * c
        h *= de
        if abs(de - 1) < 1e-15:
            break
    e = -x + a * math.log(x) - lg
    return math.exp(e) * h if e > -745 else 0.0


def qis_expectation(pr):
    """independent occupancy: product of marginal values, scaled to the population; None if undefined"""
    sizes = pr["sizes"]
    n = prod(sizes)
    w = [1] * n
    for i, m in zip(pr["idx"], pr["m"]):
        for p, q in enumerate(marg_map(sizes, i)):
            w[p] *= m[q]
    t = sum(w)
    pop = sum(pr["m"][0])
    if pop == 0:
        return [0.0] * n
    if t == 0:
        return None
    return [float(Fraction(x * pop, t)) for x in w]


def ipf_fit(sizes, idx, m, seed, maxiter=1000, tol=1e-8):
    """iterative proportional fitting; returns (array, converged, iterations)"""
    a = list(seed)
    if math.isinf(sum(a)):
        a = [math.ldexp(x, -64) for x in a]
    maps = [marg_map(sizes, i) for i in idx]
    n = len(a)
    it = 0
    conv = False
    while it < maxiter and not conv:
        for mp, mm in zip(maps, m):
            r = [0.0] * len(mm)
            for p in range(n):
                r[mp[p]] += a[p]
            f = [(mm[j] / r[j] if r[j] != 0.0 else 0.0) for j in range(len(mm))]
            for p in range(n):
                j = mp[p]
                a[p] = a[p] * f[j] if not math.isinf(f[j]) else a[p] / r[j] * mm[j]
        err = 0.0
        for mp, mm in zip(maps, m):
            r = [0.0] * len(mm)
            for p in range(n):
                r[mp[p]] += a[p]
            for x, y in zip(r, mm):
                err = max(err, abs(x - y))
        conv = err < tol
        it += 1
    return a, conv, it


def ipf_trace(sizes, idx, m, seed, iters):
    """(array after that many passes, largest error after each pass, whether no value came near the end of the range of a double)"""
    a = list(seed)
    if math.isinf(sum(a)):
        a = [math.ldexp(x, -64) for x in a]
    maps = [marg_map(sizes, i) for i in idx]
    errs, tame = [], True
    for _ in range(iters):
        for mp, mm in zip(maps, m):
            r = [0.0] * len(mm)
            for p, j in enumerate(mp):
                r[j] += a[p]
            for p, j in enumerate(mp):
                if a[p]:
                    # the ratio alone may be out of range
                    x, e = math.frexp(a[p])
                    y, f = math.frexp(r[j])
                    try:
                        a[p] = math.ldexp(x / y * mm[j], e - f)
                    except OverflowError:
                        return a, errs, False
                    if not 1e-290 < a[p] < 1e290:
                        tame = tame and a[p] == 0.0 and mm[j] == 0.0
        err = 0.0
        for mp, mm in zip(maps, m):
            r = [0.0] * len(mm)
            for p, j in enumerate(mp):
                r[j] += a[p]
            err = max(err, max(abs(x - y) for x, y in zip(r, mm)))
        errs.append(err)
    return a, errs, tame


# ------------------------------------------------------------------------------------------------ QIS as a function of its points
class Tie(Exception):
    """a coordinate falls too close to a boundary for this model to decide"""


class DeadEnd(Exception):
    pass


def _pick(w, u):
    t = sum(w)
    x = Fraction(u, 1 << 32) * t
    run = 0
    for i, v in enumerate(w):
        run += v
        if x < run:
            if v and (run - x) * (1 << 40) < t:
                raise Tie()
            return i
        if (x - run) * (1 << 40) < t and run:
            raise Tie()
    raise DeadEnd()


def qis_model(pr, points):
    """population as a function of the points: each marginal in turn fixes its still-free dimensions, last to first, by the
    cumulative remaining count at the point's coordinate of that dimension"""
    sizes, idx = pr["sizes"], pr["idx"]
    marg = [list(m) for m in pr["m"]]
    ms = [[sizes[d] for d in i] for i in idx]
    mst = [strides(s) for s in ms]
    mix = [list(indices(s)) for s in ms]
    pop = sum(marg[0])
    st = strides(sizes)
    out = [0] * prod(sizes)
    conv = True
    for k in range(pop):
        u = points[k]
        cur = [-1] * len(sizes)
        for i, m, s, q, ixs in zip(idx, marg, ms, mst, mix):
            free = [j for j, d in enumerate(i) if cur[d] < 0]
            while free:
                j = free.pop()
                w = [0] * s[j]
                for p, ix in enumerate(ixs):
                    if all(cur[d] < 0 or cur[d] == ix[z] for z, d in enumerate(i)):
                        w[ix[j]] += m[p]
                cur[i[j]] = _pick(w, u[i[j]])
        for i, m, q in zip(idx, marg, mst):
            p = sum(cur[d] * z for d, z in zip(i, q))
            m[p] -= 1
            if m[p] < 0:
                conv = False
        out[sum(c * z for c, z in zip(cur, st))] += 1
    return out, conv


# ------------------------------------------------------------------------------------------------ QISI as a function of its points
class TooLong(Exception):
    pass


def _fpick(w, u):
    t = math.fsum(w)
    x = u / 4294967296.0 * t
    run = 0.0
    for i, v in enumerate(w):
        run += v
        if abs(run - x) <= 1e-9 * abs(t) and (v or i + 1 < len(w)):
            raise Tie()
        if x < run:
            return i
    raise DeadEnd()


def _qisi_run(sizes, idx, m, seed, points, prefix, budget):
    maps = [marg_map(sizes, i) for i in idx]
    marg = [list(x) for x in m]
    ixs = list(indices(sizes))
    n = len(seed)
    made = []

    def near(x, answer):
        """where rounding decides, either answer will do"""
        if abs(x) > 1e-9:
            return answer
        made.append(prefix[len(made)] if len(made) < len(prefix) else answer)
        return made[-1]

    def fit():
        a, _, it = ipf_fit(sizes, idx, marg, seed)
        budget[0] -= it * n * len(idx)
        if budget[0] < 0:
            raise TooLong()
        return a

    expect = fit()
    a = list(expect)
    out = [0] * n
    conv = True
    try:
        for k, u in enumerate(points):
            live = range(n)
            for d in range(len(sizes) - 1, -1, -1):
                w = [0.0] * sizes[d]
                for p in live:
                    w[ixs[p][d]] += a[p]
                c = _fpick(w, u[d])
                live = [p for p in live if ixs[p][d] == c]
            p = live[0]
            out[p] += 1
            if k + 1 == len(points):
                break
            for mp, mm in zip(maps, marg):
                mm[mp[p]] -= 1
                if mm[mp[p]] < 0:
                    conv = False
            a[p] -= 1
            neg = near(a[p], a[p] < 0)
            if neg and conv:
                a = fit()
            if not conv or sum(a) <= 0:
                if neg and not conv or (a[p] <= 0 if conv else near(a[p], a[p] <= 0)):
                    a = list(expect)
    except DeadEnd:
        out = None
    return out, made


def qisi_models(sizes, idx, m, seed, points, budget=1000000, limit=12):
    """the populations that the points may select from the fitted seed: each coordinate, last to first, selects by the cumulative remaining
    fit; an individual is taken off the fit, which is made anew from what remains of the marginals when that leaves it negative, and
    abandoned for the first fit when they can no longer be met. More than one only where rounding decides whether a state is used up"""
    budget = [budget]
    out = []
    todo = [[]]
    while todo:
        if len(out) >= limit:
            raise TooLong()
        pre = todo.pop()
        o, made = _qisi_run(sizes, idx, m, seed, points, pre, budget)
        out.append(o)
        todo += [made[:k] + [not made[k]] for k in range(len(pre), len(made))]
    return out
