"""Generators of problems and requests. Everything is a plain JSON value."""
from .util import Rng, prod, reduce_to, indices, strides, marg_map


def gen_sizes(r, big=False):
    d = r.weighted([(2, 5), (3, 6), (4, 3), (5, 1), (6, 0.4)])
    while True:
        hi = {2: 12, 3: 6, 4: 4, 5: 3, 6: 3}[d]
        if big and r.chance(0.3):
            hi *= 2
        s = [r.weighted([(1, 0.6), (2, 4), (r.rng(2, hi), 5)]) for _ in range(d)]
        if prod(s) <= (600 if big else 240):
            return s


def gen_subsets(r, d, kind):
    """lists of dimension tuples that cover 0..d-1"""
    dims = r.shuffle(range(d))
    if kind == "ones":
        return [[x] for x in (sorted(dims) if r.chance(0.5) else dims)]
    if kind == "disjoint":
        k = r.rng(2, d)
        cuts = sorted(r.shuffle(range(1, d))[:k - 1])
        return [dims[a:b] for a, b in zip([0] + cuts, cuts + [d])]
    if kind == "chain":
        out = [dims[:r.rng(1, max(1, d - 1))]]
        seen = list(out[0])
        rest = dims[len(seen):]
        while rest:
            take = r.rng(1, len(rest))
            new, rest = rest[:take], rest[take:]
            base = r.pick(out)
            share = r.shuffle(base)[:r.below(len(base) + 1)]
            out.append(r.shuffle(new + share))
            seen += new
        if r.chance(0.25) or len(out) < 2:   # one inside an earlier one
            base = r.pick(out)
            out.append(r.shuffle(base)[:r.rng(1, len(base))])
        return out
    if kind == "cycle":
        out = [[dims[i], dims[(i + 1) % d]] for i in range(d)] if d > 2 else [[dims[0], dims[1]], [dims[1], dims[0]]]
        return [r.shuffle(x) for x in out]
    if kind == "many":
        # more marginals than dimensions: subsets of others, the same ones in another order, pairs
        out = gen_subsets(r, d, r.pick(["ones", "disjoint", "chain", "cycle", "random"]))
        for _ in range(r.rng(2, 8)):
            b = r.shuffle(r.pick(out) if r.chance(0.6) else range(d))
            out.append(b[:r.weighted([(r.rng(1, len(b)), 1), (1, 1), (min(2, len(b)), 1)])])
        return r.shuffle(out)
    # random overlapping
    while True:
        k = r.weighted([(r.rng(2, 4), 3), (r.rng(5, 9), 1)])
        out = [r.shuffle(range(d))[:r.rng(1, d)] for _ in range(k)]
        if set(x for o in out for x in o) == set(range(d)):
            return out


def decomposable(idx):
    """each marginal meets the union of the earlier ones inside one of them"""
    for k in range(1, len(idx)):
        seen = set()
        for j in range(k):
            seen |= set(idx[j])
        m = set(idx[k]) & seen
        if not any(m <= set(idx[j]) for j in range(k)):
            return False
    return True


def gen_population(r, sizes, maxpop):
    n = prod(sizes)
    style = r.weighted([("sparse", 3), ("dense", 3), ("skew", 2), ("few", 1), ("one", 0.4), ("zero", 0.15), ("band", 1)])
    p = [0] * n
    pop = r.rng(1, maxpop)
    if style == "zero":
        return p
    if style == "one":
        p[r.below(n)] = r.rng(1, maxpop)
        return p
    if style == "few":
        pop = r.rng(1, 6)
    live = list(range(n))
    if style in ("sparse", "skew"):
        live = r.shuffle(live)[:max(1, r.rng(1, max(1, n // 2)))]
    if style == "band":
        st = sizes[-1]
        live = [i for i in live if (i // st + i) % 3 != 0] or live
    for _ in range(pop):
        if style == "skew" and r.chance(0.7):
            p[live[0]] += 1
        else:
            p[live[r.below(len(live))]] += 1
    return p


def gen_problem(r, maxpop=120, big=False, kinds=None):
    sizes = gen_sizes(r, big)
    kind = r.weighted(kinds or [("ones", 3), ("disjoint", 3), ("chain", 4), ("cycle", 2), ("random", 3), ("many", 1.5)])
    idx = gen_subsets(r, len(sizes), kind)
    p = gen_population(r, sizes, maxpop)
    m = [reduce_to(p, sizes, i) for i in idx]
    return {"sizes": sizes, "idx": idx, "m": m, "hidden": p, "joint": True}


def big_population(r, sizes, total):
    """total individuals, over all the states or a few of them"""
    n = prod(sizes)
    p = [0] * n
    if total > 4 * n or r.chance(0.5):
        w = [r.unit() ** r.pick([1, 3]) + 0.01 for _ in range(min(n, 4000))]
        live = list(range(n)) if n <= 4000 else [r.below(n) for _ in w]
        s = sum(w)
        for k, x in zip(live, w):
            p[k] += int(total * x / s)
    while sum(p[:64]) + sum(p[64:]) < total:
        for _ in range(total - sum(p)):
            p[r.below(n) if r.chance(0.9) else n - 1] += 1
    return p


def big_problem(r, effort=20_000_000, qisi=False, maxpop=200000):
    """problems beyond the usual sizes: long dimensions, many dimensions, large populations. effort bounds cells visited"""
    kind = r.weighted([("long", 2), ("deep", 2), ("crowd", 3), ("wide", 1.5), ("many", 0 if qisi else 0.7)])
    if kind == "long":
        sizes = r.shuffle([r.weighted([(r.rng(200, 400), 2), (r.rng(1000, 1200 if qisi else 6000), 2), (r.rng(32700, 70000), 0 if qisi else 2)]), r.rng(1, 3)])
        if r.chance(0.3) and prod(sizes) < 30000:
            sizes = r.shuffle(sizes + [2])
    elif kind == "deep":
        sizes = [r.weighted([(2, 6), (1, 0.5), (3, 1)]) for _ in range(r.rng(7, 10 if qisi else 13))]
        while prod(sizes) > (800 if qisi else 30000):
            sizes.pop()
    elif kind == "wide":
        # marginals of thousands of cells in two long dimensions
        a = r.rng(50, 200)
        sizes = [a, r.rng(3000, 20000 if qisi else 60000) // a] + [r.rng(1, 2)] * r.rng(1, 2)
    else:
        sizes = [r.rng(1, 5) for _ in range(r.rng(2, 4))]
    n = prod(sizes)
    idx = gen_subsets(r, len(sizes), r.weighted([("ones", 3), ("disjoint", 2), ("chain", 3), ("cycle", 1)]))
    if kind == "wide":
        idx = [r.shuffle([0, 1]), list(range(2, len(sizes)))]
        if len(sizes) > 3 and r.chance(0.5):
            idx = [idx[0] + [2], [3]]
        idx = r.shuffle(idx)
    if kind == "many":
        # the same marginals over and over, some in another order
        idx = idx + [r.shuffle(r.pick(idx)) for _ in range(r.rng(120, 300))]
    cells = n * len(sizes) * 3 if qisi else sum(prod(sizes[d] for d in i) * (len(i) + 1) for i in idx)
    top = max(10, min(effort // cells, maxpop))
    total = r.weighted([(r.rng(top // 2, top), 3), (r.rng(1, top), 2)])
    p = big_population(r, sizes, total)
    return {"sizes": sizes, "idx": idx, "m": [reduce_to(p, sizes, i) for i in idx], "hidden": p, "joint": True, "kind": kind}


def many_dims(r, maxpop=12):
    """ten dimensions or more, nearly all of them short"""
    d = r.rng(10, 12)
    sizes = [1] * d
    for _ in range(r.rng(3, 6)):
        sizes[r.below(d)] = r.rng(2, 3)
    p = [0] * prod(sizes)
    for _ in range(r.rng(1, maxpop)):
        p[r.below(len(p))] += 1
    idx = gen_subsets(r, d, r.weighted([("ones", 3), ("disjoint", 2)]))
    return {"sizes": sizes, "idx": idx, "m": [reduce_to(p, sizes, i) for i in idx], "hidden": p, "joint": True}


def square_problem(r, maxpop=6000):
    """two long dimensions and nothing that ties them: thousands of degrees of freedom"""
    sizes = [r.rng(15, 70), r.rng(15, 70)] + [r.rng(1, 2)] * r.below(2)
    p = big_population(r, sizes, r.rng(100, maxpop))
    idx = [[d] for d in range(len(sizes))]
    return {"sizes": sizes, "idx": idx, "m": [reduce_to(p, sizes, i) for i in idx], "hidden": p, "joint": True, "kind": "square"}


def big_skips(r, dim, work=30_000_000):
    k = 1
    while (1 << (k + 1)) * dim < work:
        k += 1
    return r.weighted([(gen_skips(r), 2), ((1 << r.rng(10, max(10, k))) + r.rng(0, 2), 2)])


def perturb_joint(r, pr):
    """keep the one-dimensional sums of every marginal, lose joint consistency"""
    pr = dict(pr, m=[list(x) for x in pr["m"]], joint=False)
    for k, i in enumerate(pr["idx"]):
        if len(i) < 2:
            continue
        ds = [pr["sizes"][d] for d in i]
        st = strides(ds)
        for _ in range(r.rng(1, 6)):
            a = [r.below(s) for s in ds]
            b = list(a)
            x, y = 0, 1
            if len(i) > 2:
                x, y = r.shuffle(range(len(i)))[:2]
            b[x] = r.below(ds[x])
            c = list(a); c[y] = r.below(ds[y])
            d = list(b); d[y] = c[y]
            fa, fb, fc, fd = (sum(p * q for p, q in zip(v, st)) for v in (a, b, c, d))
            if fa == fb or fa == fc:
                continue
            m = pr["m"][k]
            if m[fb] > 0 and m[fc] > 0:
                m[fb] -= 1; m[fc] -= 1; m[fa] += 1; m[fd] += 1
    return pr


def gen_seed(r, pr, feasible=True):
    n = prod(pr["sizes"])
    style = r.pick(["ones", "ints", "eighths"]) if pr.get("kind") == "wide" else r.weighted([("ones", 3), ("ints", 3), ("eighths", 2), ("wide", 1), ("float", 2), ("extreme", 0.5), ("span", 0.3)])
    if style == "ones":
        s = [1.0] * n
    elif style == "ints":
        s = [float(r.rng(1, 9)) for _ in range(n)]
    elif style == "eighths":
        s = [r.rng(1, 64) / 8.0 for _ in range(n)]
    elif style == "wide":
        s = [10.0 ** r.rng(-3, 3) for _ in range(n)]
    elif style == "extreme":
        # the smallest and the largest values there are
        b = r.pick([5e-324, 1e-310, 1e-300, 1e300, 1e307])
        s = [b * r.rng(1, 9) for _ in range(n)]
    elif style == "span":
        s = [10.0 ** r.rng(-40, 40) for _ in range(n)]
    else:
        s = [0.05 + r.unit() * 3 for _ in range(n)]
    z = r.weighted([(0.0, 3), (0.15, 2), (0.4, 2), (0.8, 1)]) if pr.get("kind") != "wide" else 0.0
    for i in range(n):
        if r.chance(z) and not (feasible and pr["hidden"][i] > 0):
            s[i] = 0.0
    return s


def spread(r, sizes, p, moves):
    """move binary fractions around rectangles: one-dimensional sums stay the same"""
    p = [float(x) for x in p]
    st = strides(sizes)
    for _ in range(moves):
        a = [r.below(s) for s in sizes]
        b = [r.below(s) for s in sizes]
        # a and b keep their coordinates except one swapped: 1-d sums are unchanged
        k = r.below(len(sizes))
        c, d = list(a), list(b)
        c[k], d[k] = b[k], a[k]
        fa, fb, fc, fd = (sum(x * y for x, y in zip(v, st)) for v in (a, b, c, d))
        if len({fa, fb, fc, fd}) < 4:
            continue
        q = min(p[fa], p[fb], r.rng(1, 32) / 32.0)
        if q > 0:
            p[fa] -= q; p[fb] -= q; p[fc] += q; p[fd] += q
    return p


def gen_fractional(r, dims=None, maxpop=60):
    """a fractional array with integral one-dimensional sums: integer array plus rectangle moves of binary fractions"""
    sizes = gen_sizes(r)
    if dims == 1 or (dims is None and r.chance(0.15)):
        sizes = [r.rng(1, 12)]
    n = prod(sizes)
    p = [float(x) for x in gen_population(r, sizes, maxpop)]
    st = strides(sizes)
    if len(sizes) == 1:
        pos = [i for i in range(n) if p[i] > 0]
        for _ in range(r.rng(0, 3 * n)):
            if not pos or n < 2:
                break
            a, b = r.below(n), r.below(n)
            q = min(p[a], r.rng(1, 16) / 16.0)
            if a != b and q > 0:
                p[a] -= q; p[b] += q
        return sizes, p
    return sizes, spread(r, sizes, p, r.rng(0, 3 * n))


def gen_skips(r, big=False):
    return r.weighted([(0, 5), (1, 1), (r.rng(2, 20), 3), (r.rng(20, 3000), 1.5)])


def op(k, **a):
    return dict(a, k=k)


def op_qis(pr, skips=0):
    return op("qis", skips=skips, idx=pr["idx"], msz=[[pr["sizes"][d] for d in i] for i in pr["idx"]], m=pr["m"])


def op_qisi(pr, seed, skips=0, k="qisi"):
    return op(k, skips=skips, seedsz=pr["sizes"], seed=seed, idx=pr["idx"], msz=[[pr["sizes"][d] for d in i] for i in pr["idx"]], m=pr["m"])


def ipf_scale(r):
    """marginals that are exact in few bits, or not"""
    return r.weighted([(8.0, 3), (1.0, 1), (3.0, 1), (7.3, 1), (0.37, 1), (1e5 / 7, 0.5)])


def op_ipf(pr, seed, scale=8.0):
    return op("ipf", seedsz=pr["sizes"], seed=seed, idx=pr["idx"], msz=[[pr["sizes"][d] for d in i] for i in pr["idx"]],
              m=[[v / scale for v in x] for x in pr["m"]])


def big_heap(r):
    return {"seed": r.u64() >> 1, "fill": r.below(6), "reuse": r.below(2)}


def gen_heap(r):
    return {"seed": r.u64() >> 1, "fill": r.below(6), "reuse": r.below(4)}


DRAW_MODES = 11


def gen_draw(r, p_override=0.75):
    """[mode, seed, exhaust_at]"""
    if not r.chance(p_override):
        return [0, 0, -1]
    return [r.rng(1, DRAW_MODES), r.u64() >> 1, -1]


def rand_call(r, maxpop=60, kinds=None):
    """one well-formed library call"""
    k = r.weighted(kinds or [("qis", 4), ("qisi", 3), ("igr", 2), ("ig1", 1), ("flat", 1), ("ipf", 2)])
    if k == "qis":
        pr = gen_problem(r, maxpop)
        return op_qis(pr, gen_skips(r))
    if k == "qisi":
        pr = gen_problem(r, maxpop)
        return op_qisi(pr, gen_seed(r, pr), gen_skips(r))
    if k == "ipf":
        pr = gen_problem(r, maxpop)
        return op_ipf(pr, gen_seed(r, pr), ipf_scale(r))
    if k == "igr":
        sz, p = gen_fractional(r)
        return op("igr", seedsz=sz, seed=p)
    if k == "ig1":
        n = r.rng(1, 10)
        x = [r.rng(0, 20) / 4.0 for _ in range(n)]
        if sum(x) == 0:
            x[r.below(n)] = 1.0
        return op("ig1", pop=r.rng(0, 200), x=x)
    if k == "flat":
        sz = gen_sizes(r)
        return op("flat", asz=sz, a=gen_population(r, sz, maxpop))
    raise AssertionError(k)


VARIABLE = ("qis", "qisi", "ipf", "igr", "ig1", "flat")


def variant(r, o):
    """another well-formed call that agrees with o in all but one respect"""
    k = o["k"]
    o = {x: y for x, y in o.items() if x not in ("draw", "oom", "rep", "hold", "_hid", "_feas")}
    if k in ("qis", "qisi", "ipf"):
        w = r.pick(["roll", "scale"] + (["skips"] if k != "ipf" else []) + (["seed", "seed", "seed1", "shuffle", "shuffle", "other"] if k != "qis" else []))
        if w == "skips":
            o["skips"] = r.pick([x for x in (0, 2, 3, 9, 200) if x != o["skips"]])
        elif w in ("seed", "seed1"):
            s = list(o["seed"])
            live = [j for j, x in enumerate(s) if x > 0]
            for j in (live if w == "seed" else live[:1] if r.chance(0.5) else live[-1:]):
                f = r.pick([0.25, 0.5, 2.0, 3.0])
                s[j] = s[j] * (f if s[j] < 1e306 else 0.5)
            o["seed"] = s
        elif w == "shuffle":
            # the same values in other places: the same total, the same zeros
            s = list(o["seed"])
            live = [j for j, x in enumerate(s) if x > 0]
            for j, x in zip(live, r.shuffle([s[j] for j in live])):
                s[j] = x
            o["seed"] = s
        elif w == "scale":
            f = r.pick([2, 3])
            o["m"] = [[v * f for v in x] for x in o["m"]]
        elif w == "other" and k == "qisi":
            o = op("ipf", seedsz=o["seedsz"], seed=o["seed"], idx=o["idx"], msz=o["msz"], m=[[float(v) for v in x] for x in o["m"]])
        else:
            # the categories of one dimension change places
            d = r.pick(o["idx"][0])
            n = [s for i, z in zip(o["idx"], o["msz"]) for e, s in zip(i, z) if e == d][0]
            p = r.shuffle(range(n))
            m2 = []
            for i, z, m in zip(o["idx"], o["msz"], o["m"]):
                if d in i:
                    x = i.index(d)
                    st = strides(z)[x]
                    m = [m[j + (p[j // st % n] - j // st % n) * st] for j in range(len(m))]
                m2.append(list(m))
            o["m"] = m2
            if "seed" in o and r.chance(0.7):
                st = strides(o["seedsz"])[d]
                o["seed"] = [o["seed"][j + (p[j // st % n] - j // st % n) * st] for j in range(len(o["seed"]))]
    elif k == "igr":
        s = list(o["seed"])
        sz = o["seedsz"]
        d = r.below(len(sz))
        st = strides(sz)[d]
        p = r.shuffle(range(sz[d]))
        o["seed"] = [s[j + (p[j // st % sz[d]] - j // st % sz[d]) * st] for j in range(len(s))] if r.chance(0.6) else [x * 2 for x in s]
    elif k == "ig1":
        if r.chance(0.5):
            o["pop"] = o["pop"] + r.rng(1, 9)
        else:
            o["x"] = r.shuffle(o["x"])
    elif k == "flat" and "a" in o:
        o["a"] = r.shuffle(o["a"])
    return o
