"""C10: bounded work and rejection of malformed requests."""
from .base import *
from .isolation import show
from ..util import indices

BIG = 1 << 40


def msz(pr):
    return [[pr["sizes"][d] for d in i] for i in pr["idx"]]


def malformed(r):
    """(what, op): a request that must be rejected"""
    kind = r.weighted([("qis", 4), ("qisi", 3), ("ipf", 3), ("igr", 1.5), ("ig1", 1.5), ("flat", 1), ("sobol", 1)])
    if kind in ("qis", "qisi", "ipf"):
        while True:
            pr = qisi_problem(r, 1500, 30)
            if sum(pr["m"][0]) > 1:
                break
        if kind == "qis":
            o = gen.op_qis(pr, r.small(5))
        elif kind == "qisi":
            o = gen.op_qisi(pr, gen.gen_seed(r, pr), r.small(5))
        else:
            o = gen.op_ipf(pr, gen.gen_seed(r, pr), 1.0)
        o = dict(o, idx=[list(x) for x in o["idx"]], m=[list(x) for x in o["m"]], msz=[list(x) for x in o["msz"]])
        nm = len(o["m"])
        k = r.below(nm)
        ways = ["sum", "negative", "partial", "fewidx", "fewmarg", "dimcount", "size", "gap", "negdim", "single", "empty", "repeat", "onedim", "zerorank", "zerosize", "huge", "crowd"]
        if kind in ("qis", "qisi"):
            ways += ["skips-", "skips+"]
        if kind in ("qisi", "ipf"):
            ways += ["seedrank", "seedsize", "seedvalue", "seedswap"]
        if kind == "ipf":
            ways += ["margvalue", "marginfinite"]
        ways += ["overflow"]
        for _ in range(50):
            w = r.pick(ways)
            if w == "sum":
                o["m"][k][r.below(len(o["m"][k]))] += r.rng(1, 3)
            elif w == "negative":
                j = r.below(len(o["m"][k]))
                if len(o["m"][k]) < 2:
                    continue
                d = o["m"][k][j] + r.rng(1, 3)
                o["m"][k][j] -= d
                o["m"][k][(j + 1) % len(o["m"][k])] += d
            elif w == "crowd":
                # one individual too many or in the wrong place, among very many
                f = r.pick([10**5, 10**6, 10**7, 10**9, 10**12, 10**14]) if kind == "ipf" else r.pick([10**4, 10**5, 10**6])
                top = max(sum(x) for x in o["m"])
                f = max(1, f // max(1, top))
                o["m"] = [[c * f for c in x] for x in o["m"]]
                w = r.pick(["sum", "partial"])
                if w == "sum":
                    o["m"][k][r.below(len(o["m"][k]))] += 1
            if w == "partial":
                # move an individual along a dimension shared with another marginal
                sh = [(a, x) for a in range(nm) for x in range(len(o["idx"][a]))
                      if o["msz"][a][x] > 1 and any(o["idx"][a][x] in o["idx"][b] for b in range(nm) if b != a)]
                if not sh:
                    continue
                a, x = r.pick(sh)
                from ..util import strides
                st = strides(o["msz"][a])
                live = [p for p, c in enumerate(o["m"][a]) if c > 0]
                p = r.pick(live)
                c = p // st[x] % o["msz"][a][x]
                q = p + ((c + 1) % o["msz"][a][x] - c) * st[x]
                o["m"][a][p] -= 1
                o["m"][a][q] += 1
            elif w == "fewidx":
                o["idx"] = o["idx"][:-1]
            elif w == "fewmarg":
                o["m"], o["msz"] = o["m"][:-1], o["msz"][:-1]
            elif w == "dimcount":
                if r.chance(0.5) and len(o["idx"][k]) > 1:
                    o["idx"][k] = o["idx"][k][:-1]
                else:
                    rest = [d for d in range(len(pr["sizes"]) + 1) if d not in o["idx"][k]]
                    o["idx"][k] = o["idx"][k] + [r.pick(rest)]
            elif w == "size":
                # a dimension given two sizes
                sh = [(a, x) for a in range(nm) for x in range(len(o["idx"][a])) if any(o["idx"][a][x] in o["idx"][b] for b in range(nm) if b != a)]
                if not sh:
                    continue
                a, x = r.pick(sh)
                o["msz"][a][x] += 1
                o["m"][a] = o["m"][a] + [0] * (prod(o["msz"][a]) - len(o["m"][a]))
            elif w == "gap":
                last = len(pr["sizes"]) - 1
                new = last + r.rng(1, 3)
                o["idx"] = [[new if d == last else d for d in i] for i in o["idx"]]
            elif w == "negdim":
                d0 = r.below(len(pr["sizes"]))
                new = r.pick([-1, -2, -BIG])
                o["idx"] = [[new if d == d0 else d for d in i] for i in o["idx"]]
            elif w == "single":
                o["idx"], o["m"], o["msz"] = o["idx"][:1], o["m"][:1], o["msz"][:1]
            elif w == "empty":
                o["idx"], o["m"], o["msz"] = [], [], []
            elif w == "repeat":
                # a dimension twice in a marginal that is otherwise in order: the counts are on the diagonal
                x = r.below(len(o["idx"][k]))
                at = r.rng(0, len(o["idx"][k]))
                old_z, old_m = o["msz"][k], o["m"][k]
                size = old_z[x]
                o["idx"][k] = o["idx"][k][:at] + [o["idx"][k][x]] + o["idx"][k][at:]
                o["msz"][k] = old_z[:at] + [size] + old_z[at:]
                o["m"][k] = []
                for ix in indices(o["msz"][k]):
                    rest = list(ix[:at] + ix[at + 1:])
                    flat = 0
                    for e, z in zip(rest, old_z):
                        flat = flat * z + e
                    o["m"][k].append(old_m[flat] if ix[at] == rest[x] else 0)
            elif w == "onedim":
                o["idx"] = [[0], [0]]
                o["msz"] = [[2], [2]]
                o["m"] = [[3, 4], [3, 4]]
                if "seed" in o:
                    o["seedsz"], o["seed"] = [2], [1.0, 1.0]
            elif w == "zerorank":
                o["msz"][k], o["m"][k], o["idx"][k] = [], [], []
            elif w == "zerosize":
                j = r.below(len(o["msz"][k]))
                o["msz"][k][j] = r.pick([0, 0, -1])
                o["m"][k] = []
            elif w == "huge":
                d, s = r.rng(4, 12), r.pick([1 << 12, 1 << 11])
                o["idx"] = [[x] for x in range(d)]
                o["msz"] = [[s]] * d
                o["m"] = [[1] + [0] * (s - 1)] * d
                if "seed" in o:
                    o["seedsz"], o["seed"] = [s] * d, []
            elif w == "skips-":
                o["skips"] = r.pick([-1, -7, -BIG, -(1 << 63)])
            elif w == "skips+":
                o["skips"] = r.pick([1 << 32, (1 << 32) + 5, BIG, (1 << 63) - 1])
            elif w == "seedrank":
                if r.chance(0.5) and len(o["seedsz"]) > 1:
                    s = o["seedsz"]
                    o["seedsz"] = [s[0] * s[1]] + s[2:]
                else:
                    o["seedsz"] = o["seedsz"] + [1]
            elif w == "seedsize":
                j = r.below(len(o["seedsz"]))
                o["seedsz"] = list(o["seedsz"])
                o["seedsz"][j] += r.pick([1, 2]) if o["seedsz"][j] < 2 else r.pick([-1, 1])
                o["seed"] = [1.0] * prod(o["seedsz"])
            elif w == "seedswap":
                # as many values in another shape
                z = r.shuffle(o["seedsz"])
                if z == o["seedsz"]:
                    continue
                o["seedsz"] = z
            elif w == "seedvalue":
                o["seed"] = list(o["seed"])
                o["seed"][r.below(len(o["seed"]))] = r.pick([float("nan"), float("inf"), float("-inf"), -1.0, -1e-9])
            elif w == "margvalue":
                o["m"][k][r.below(len(o["m"][k]))] = r.pick([float("nan"), float("inf"), float("-inf")])
            elif w == "marginfinite":
                # all marginals agree on it
                x = r.pick([float("nan"), float("inf"), 1e19, 1e300])
                o["idx"] = [[d] for d in range(len(pr["sizes"]))]
                o["msz"] = [[s] for s in pr["sizes"]]
                o["m"] = [[x] + [1.0] * (s - 1) for s in pr["sizes"]]
            elif w == "overflow":
                # totals that cannot be represented, and may look small or negative if that goes unnoticed
                big = r.pick([[1 << 62] * 2, [1 << 62] * 4, [1 << 62] * 3 + [(1 << 62) + r.rng(1, 9)], [(1 << 63) - 1, 1], [(1 << 63) - 1] * 2])
                o["idx"], o["msz"], o["m"] = [[0], [1]], [[len(big)]] * 2, [list(big), list(big)]
                if "seed" in o:
                    o["seedsz"], o["seed"] = [len(big)] * 2, [1.0] * len(big) ** 2
            return "%s with %s" % (kind, w), o
        return "qis of nothing", gen.op("qis", skips=0, idx=[], m=[], msz=[])
    if kind == "igr":
        while True:
            sz, p = gen.gen_fractional(r, maxpop=12)
            if prod(sz) <= 40:
                break
        w = r.pick(["total", "rows", "nan", "inf", "zerorank", "zerosize", "negtotal", "negative", "toolarge", "crowd"])
        if w == "crowd":
            # not quite integral, among very many
            if r.chance(0.5):
                sz, p = [len(p)], p
            f = float(r.pick([10**3, 10**4, 10**5, 10**6]))
            p = [x * f for x in p]
            p[r.below(len(p))] += r.pick([0.5, 0.25, 0.01, 0.001])
        elif w == "total":
            p[r.below(len(p))] += r.pick([0.5, 0.25, 0.01, 0.001])
        elif w == "negtotal":
            p = [-1.0 for _ in p]
        elif w == "toolarge":
            # one dimension: the counts returned could not be represented
            p = r.pick([[2.0 ** 31], [3e9, 2e9], [2.0 ** 32, 5.0], [2.0 ** 32 + 1.0], [1e15, 1e15, 7.0], [2.0 ** 31 - 1, 1.0], [1e18]])
            sz = [len(p)]
        elif w == "negative":
            # sums along every dimension stay integral and positive
            sz, p = r.pick([([2, 2], [-1.0, 2.0, 2.0, 1.0]), ([2, 3], [-0.5, 1.5, 1.0, 1.5, 0.5, 1.0]), ([2, 2, 2], [-1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0])])
            sz, p = list(sz), list(p)
        elif w == "rows":
            if len(sz) < 2 or min(sz) < 2:
                sz, p = [2, 2], [1.0, 1.0, 1.0, 1.0]
            from ..util import strides
            p[0] += 0.5
            p[-1] += 0.5
        elif w == "nan":
            p[r.below(len(p))] = float("nan")
        elif w == "inf":
            p[r.below(len(p))] = r.pick([float("inf"), float("-inf")])
        elif w == "zerorank":
            sz, p = [], []
        elif w == "zerosize":
            sz, p = [2, 0], []
        return "integerise with %s" % w, gen.op("igr", seedsz=sz, seed=p)
    if kind == "ig1":
        x = [float(r.rng(1, 9)) for _ in range(r.rng(1, 6))]
        w = r.pick(["neg", "nan", "inf", "empty", "zeros"])
        j = r.below(len(x))
        if w == "neg":
            x[j] = -x[j]
            if sum(x) <= 0:
                x.append(1.0 - sum(x))
        elif w == "nan":
            x[j] = float("nan")
        elif w == "inf":
            x[j] = float("inf")
        elif w == "empty":
            x = []
        else:
            x = [0.0] * len(x)
        return "integerise of shares with %s" % w, gen.op("ig1", pop=r.rng(1, 50), x=x)
    if kind == "flat":
        sz = gen.gen_sizes(r)
        a = gen.gen_population(r, sz, 20)
        w = r.pick(["negative", "zerorank", "zerosize", "overflow"])
        if w == "negative":
            if len(a) < 2:
                sz, a = [2, 2], [1, 0, 3, 1]
            j = r.below(len(a))
            a[j] = -r.rng(1, 5)
            if r.chance(0.5):
                a[(j + 1) % len(a)] += 7
        elif w == "zerorank":
            sz, a = [], []
        elif w == "overflow":
            sz, a = r.pick([([4], [1 << 62] * 4), ([2, 2], [1 << 62] * 4), ([2, 3], [1 << 62, 1 << 62, 0, 1 << 62, 1 << 62, 3]), ([3], [(1 << 63) - 1, (1 << 63) - 1, 4]), ([2], [1 << 62, 1]), ([2], [1 << 50, 1 << 50])])
            sz, a = list(sz), list(a)
        else:
            sz, a = [0, 3], []
        return "flatten with %s" % w, gen.op("flat", asz=sz, a=a)
    return "sobol dimension", gen.op("snew", n=[5, r.pick([0, 1112, 5000, (1 << 32) + 1, 1 << 32, -1]), r.small(5)])


class C10(Prop):
    id = "C10"
    worlds = ("core", "py")
    count = {"quick": 22000, "thorough": 400000}
    rule = ("C++ (two thirds) and Python requests: malformed in one of about 40 ways, which must raise; and well-formed or borderline ones "
            "(infeasible seeds, adversarial points, populations of zero, large skips), which must return or raise within a step budget computed from "
            "the problem's size; on a step clock, over recycled and randomly filled heap, followed by a call that must be unaffected; non-trivial: "
            "malformed, or at least 1000 steps were taken")
    probes = ["rejected", "wellformed.returned", "wellformed.raised", "follow"]

    def plan(self, r, tier, i):
        if i % 3 == 2:
            from . import pyprops
            return pyprops.request_plan(r, tier)
        ops = []
        for _ in range(r.rng(1, 3)):
            if r.chance(0.6):
                w, o = malformed(r)
                ops.append(dict(o, _reject=w))
            else:
                k = r.weighted([("qis", 3), ("qisi", 4), ("ipf", 2), ("igr", 2), ("ig1", 2)])
                if k == "qis":
                    pr = gen.gen_problem(r, 60)
                    if r.chance(0.4):
                        pr = gen.perturb_joint(r, pr)
                    o = mkqis(pr, r.pick([0, 1, 5, 4000]), gen.gen_draw(r))
                elif k in ("qisi", "ipf"):
                    pr = qisi_problem(r, 700, 30)
                    if r.chance(0.3):
                        pr = gen.perturb_joint(r, pr)
                    s = gen.gen_seed(r, pr, r.chance(0.4))
                    if r.chance(0.15):
                        s = [x * r.pick([0.0, 1e-300, 1e300, 1e-12]) for x in s]
                    o = mkqisi(pr, s, 0, gen.gen_draw(r)) if k == "qisi" else gen.op_ipf(pr, s)
                elif k == "igr":
                    o = dict(small_call(r, [("igr", 1)]), draw=gen.gen_draw(r))
                else:
                    n = r.rng(1, 8)
                    o = gen.op("ig1", pop=r.pick([0, 1, 7, 100000, 2000000000]), x=[10.0 ** r.rng(-12, 12) for _ in range(n)])
                opt_faults(r, o, 0.05, 0.1)
                ops.append(o)
        follow = small_call(r)
        return {"heap": gen.gen_heap(r), "threads": [ops + [dict(follow, _follow=1)]], "memlimit": 256 << 20}

    def evaluate(self, plan, ctx):
        if plan.get("world") == "py":
            from . import pyprops
            return pyprops.request_evaluate(self, plan, ctx)
        v = Verdict()
        out = self.run(v, ctx, plan)
        if out is None:
            return v
        for k, o in enumerate(plan["threads"][0]):
            res = out.res[(0, k)]
            if o.get("_reject"):
                v.nt = True
                v.facts["rejected"] += 1
                v.facts["reject." + o["_reject"]] += 1
                if res.ok:
                    v.fail("accepted", "%s was accepted: %s" % (o["_reject"], show(res)))
                elif res.exc == "unknown":
                    v.fail("exception", "%s threw something that is not an exception" % o["_reject"])
            elif o.get("_follow"):
                b = self.run(v, ctx, {"heap": BASE_HEAP, "threads": [[o]]})
                if b is None:
                    return v
                v.facts["follow"] += 1
                if b.res[(0, 0)].key() != res.key():
                    v.fail("later", "%s after these requests: %s, in a fresh process %s" % (o["k"], show(res), show(b.res[(0, 0)])))
            else:
                v.nt = v.nt or res.steps >= 1000
                v.facts["wellformed.returned" if res.ok else "wellformed.raised"] += 1
                if res.steps > 100_000_000 + core_bound(o):
                    v.fail("unbounded", "%s took %d steps" % (o["k"], res.steps))
        return v


def core_bound(o):
    from ..core import op_bound
    return op_bound(o)


PROPS = [C10]
