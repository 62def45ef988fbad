"""C01, C02, C03, C13, C14, C12 (core): results of the solvers under arbitrary points, failures and heap states."""
import collections
import math

from .base import *


class C01(Prop):
    id = "C01"
    worlds = ("core", "opt", "py")
    count = {"quick": 50000, "thorough": 1500000}
    rule = ("one plan: 0-2 calls that dirty the heap, then qis on marginals of a hidden random population (2-6 dimensions, disjoint, chained, "
            "cyclic, full-span, permuted; some only consistent in one dimension at a time), points replaced by one of 11 adversarial streams, "
            "some calls hit by generator exhaustion or allocation failure; non-trivial: qis ran with a population of at least one")
    probes = ["qis.conv", "qis.notconv", "qis.deadend", "qis.fault_exception", "qis.override", "qis.overlapping", "large"]

    def plan(self, r, tier, i):
        if self.large(tier, i):
            pr = gen.big_problem(r)
            if r.chance(0.1) and prod(pr["sizes"]) < 5000:
                pr = gen.perturb_joint(r, pr)
            o = dict(mkqis(pr, gen.big_skips(r, len(pr["sizes"])), gen.gen_draw(r, 0.3)), _joint=pr["joint"])
            return {"heap": gen.big_heap(r), "threads": [[o]], "world": "opt"}
        pre = [small_call(r) for _ in range(r.weighted([(0, 6), (1, 1), (2, 0.5)]))]
        for o in pre:
            opt_faults(r, o, 0.3, 0.2)
        pr = gen.gen_problem(r, r.weighted([(15, 3), (80, 4), (400, 0.6)]), big=tier == "thorough" or r.chance(0.1))
        if r.chance(0.12):
            pr = gen.perturb_joint(r, pr)
        o = mkqis(pr, gen.gen_skips(r), gen.gen_draw(r))
        o["_joint"] = pr["joint"]
        opt_faults(r, o, 0.05, 0.05)
        plan = {"heap": gen.gen_heap(r), "threads": [like(r, o, pre) + [o]]}
        return reps.to_py(r, plan) if i % 8 == 7 else plan

    def judge(self, v, o, res):
        sizes = o["_sizes"]
        dec = gen.decomposable(o["idx"])
        if not res.ok:
            v.facts["qis.fault_exception" if fault_events(o, res) else "qis.deadend"] += 1
            if not fault_events(o, res) and o.get("_joint", True) and dec:
                v.fail("raised", "qis raised %r on marginals that overlap only in a chain" % res.exc)
            return
        x = oracle.qis_common(o, sizes, oracle.pop_of(o), res.si[0], res.si[1], res.iv, res.sizes)
        if x:
            return v.fail(*x)
        v.facts["qis.conv" if res.si[0] else "qis.notconv"] += 1
        if not res.si[0] and o.get("_joint", True) and dec:
            v.fail("notconv", "qis did not converge on marginals that overlap only in a chain")

    def evaluate(self, plan, ctx):
        v = Verdict()
        out = self.run(v, ctx, plan)
        if out is None:
            return v
        for k, o in enumerate(plan["threads"][0]):
            if o["k"] != "qis":
                continue
            res = out.res[(0, k)]
            v.facts["large"] += plan.get("world") == "opt"
            v.facts["qis.override"] += bool((o.get("draw") or [0])[0])
            v.facts["qis.overlapping"] += len(set(d for i in o["idx"] for d in i)) < sum(len(i) for i in o["idx"])
            self.judge(v, o, res)
            if oracle.pop_of(o) > 0:
                v.nt = True
        return v


class C02(Prop):
    id = "C02"
    worlds = ("core", "opt", "py")
    count = {"quick": 12000, "thorough": 500000}
    rule = ("as C01 for qisi, with seeds of ones, integers, fractions or six orders of magnitude and 0-80% zeros (at most times only where the "
            "hidden population is empty, so that a fit exists); non-trivial: population of at least one")
    probes = ["qisi.conv", "qisi.notconv", "qisi.raised_infeasible", "qisi.fault_exception", "qisi.zeros", "large"]

    def plan(self, r, tier, i):
        if self.large(tier, i):
            pr = gen.big_problem(r, 1_500_000, True)
            o = dict(mkqisi(pr, gen.gen_seed(r, pr), gen.big_skips(r, len(pr["sizes"])), gen.gen_draw(r, 0.3)), _feas=True)
            return {"heap": gen.big_heap(r), "threads": [[o]], "world": "opt"}
        pre = [small_call(r) for _ in range(r.weighted([(0, 7), (1, 1)]))]
        for o in pre:
            opt_faults(r, o, 0.3, 0.2)
        pr = qisi_problem(r, 2500 if tier == "quick" or r.chance(0.9) else 20000, r.weighted([(8, 2), (60, 4), (200, 1)]))
        feas = r.chance(0.85)
        joint = True
        if r.chance(0.1):
            pr = gen.perturb_joint(r, pr)
        o = mkqisi(pr, gen.gen_seed(r, pr, feas), gen.gen_skips(r), gen.gen_draw(r))
        o["_feas"] = feas and pr["joint"]
        opt_faults(r, o, 0.05, 0.05)
        plan = {"heap": gen.gen_heap(r), "threads": [like(r, o, pre) + [o]]}
        return reps.to_py(r, plan) if i % 8 == 7 else plan

    def evaluate(self, plan, ctx):
        v = Verdict()
        out = self.run(v, ctx, plan)
        if out is None:
            return v
        for k, o in enumerate(plan["threads"][0]):
            if o["k"] != "qisi":
                continue
            res = out.res[(0, k)]
            pop = oracle.pop_of(o)
            v.nt = v.nt or pop > 0
            v.facts["large"] += plan.get("world") == "opt"
            v.facts["qisi.zeros"] += 0.0 in o["seed"]
            if not res.ok:
                fe = fault_events(o, res)
                v.facts["qisi.fault_exception" if fe else "qisi.raised_infeasible"] += 1
                # the hidden population may have been minimised away: a fit exists when some population fits
                if not fe and o.get("_feas", True) and all(s > 0 or not h for s, h in zip(o["seed"], o["_hid"])):
                    v.fail("raised", "qisi raised %r although the seed can be fitted" % res.exc)
                continue
            x = oracle.qis_common(o, o["_sizes"], pop, res.si[0], res.si[1], res.iv, res.sizes) or oracle.zeros(o["seed"], res.iv)
            if x:
                v.fail(*x)
            v.facts["qisi.conv" if res.si[0] else "qisi.notconv"] += 1
        return v


class C03(Prop):
    id = "C03"
    worlds = ("core", "opt", "py")
    count = {"quick": 20000, "thorough": 600000}
    rule = ("integer arrays of 1-6 dimensions spread by rectangle moves of binary fractions (integral one-dimensional sums, some with rounding "
            "noise), points replaced by adversarial streams; and one-dimensional shares with populations; some calls hit by exhaustion or allocation "
            "failure; non-trivial: the input has a non-integral value or the population is positive")
    probes = ["igr.conv", "igr.notconv", "igr.1d", "ig1", "igr.fault_exception", "large"]

    def plan(self, r, tier, i):
        if self.large(tier, i):
            if r.chance(0.35):
                n = r.weighted([(r.rng(1, 20), 2), (r.rng(100, 3000), 1)])
                x = [r.unit() ** r.pick([1, 4]) for _ in range(n)]
                o = gen.op("ig1", pop=r.weighted([(r.rng(1000000, (1 << 31) - 1), 2), ((1 << 31) - 1, 0.5), (r.rng(0, 5 * n), 1)]), x=x)
            else:
                pr = gen.big_problem(r, 1_500_000, True)
                o = gen.op("igr", seedsz=pr["sizes"], seed=gen.spread(r, pr["sizes"], pr["hidden"], r.rng(0, 3000)), draw=gen.gen_draw(r, 0.3))
            return {"heap": gen.big_heap(r), "threads": [[o]], "world": "opt"}
        pre = [opt_faults(r, small_call(r), 0.3, 0.2) for _ in range(r.weighted([(0, 8), (1, 1)]))]
        if r.chance(0.25):
            n = r.rng(1, 14)
            st = r.below(4)
            x = [[r.rng(0, 20) / 4.0, r.unit(), float(r.rng(0, 3)), r.unit() ** 6][st] for _ in range(n)]
            if sum(x) == 0:
                x[r.below(n)] = 1.0
            o = gen.op("ig1", pop=r.weighted([(r.rng(0, 12), 2), (r.rng(0, 300), 3), (r.rng(0, 1000000), 1)]), x=x)
        else:
            while True:
                sz, p = gen.gen_fractional(r, maxpop=r.weighted([(8, 2), (60, 2)]))
                if prod(sz) * (sum(p) + 1) * len(sz) <= 3000:
                    break
            if r.chance(0.2):
                p = [x + (r.unit() - 0.5) * 1e-8 if x > 0.01 else x for x in p]
            o = gen.op("igr", seedsz=sz, seed=p, draw=gen.gen_draw(r))
        opt_faults(r, o, 0.05, 0.05)
        plan = {"heap": gen.gen_heap(r), "threads": [like(r, o, pre) + [o]]}
        return reps.to_py(r, plan) if i % 8 == 7 else plan

    def evaluate(self, plan, ctx):
        v = Verdict()
        out = self.run(v, ctx, plan)
        if out is None:
            return v
        for k, o in enumerate(plan["threads"][0]):
            if o["k"] not in ("igr", "ig1"):
                continue
            res = out.res[(0, k)]
            v.facts["large"] += plan.get("world") == "opt"
            v.nt = True
            if not res.ok:
                v.facts["igr.fault_exception"] += 1
                if not fault_events(o, res):
                    v.fail("raised", "integerise raised %r" % res.exc)
                continue
            if o["k"] == "igr":
                x = oracle.igr(o, res.si[0], res.st[0], res.iv, res.sizes)
                v.facts["igr.conv" if res.si[0] else "igr.notconv"] += 1
                v.facts["igr.1d"] += len(o["seedsz"]) == 1
            else:
                x = oracle.ig1(o, res.st[0], res.iv)
                v.facts["ig1"] += 1
            if x:
                v.fail(*x)
        return v


def starts(k, skips):
    """points passed over: none by default, except that qis always passes over at least one"""
    return (0,) if skips == 0 and k != "qis" else (ref.skip_count(skips),)


def oned(o):
    """the one-dimensional sums of a fractional array, as problem"""
    sz = o["seedsz"]
    return [[d] for d in range(len(sz))], [[int(round(x)) for x in reduce_to(o["seed"], sz, [d])] for d in range(len(sz))]


def draws_seen(ctx, world):
    """do the points of a call pass the seam in this build?"""
    key = "seam_" + world
    if key not in ctx.paths:
        o = gen.op("qis", idx=[[0], [1]], msz=[[2], [2]], m=[[2, 2], [2, 2]], skips=0, _sizes=[2, 2])
        out = getattr(ctx, world)({"heap": BASE_HEAP, "threads": [[o]], "dlog": 1, "world": world})
        ctx.paths[key] = bool(out.fatal()) or any(real for _, _, real, _ in out.draws)
    return ctx.paths[key]


class C13(Prop):
    id = "C13"
    worlds = ("core", "opt", "py")
    count = {"quick": 9000, "thorough": 500000}
    rule = ("plans of 1-4 qis, qisi and integerise calls and generator advances in one process (some failing part way), with every point drawn "
            "logged at the seam; the points of each call are compared with a reference Sobol generator, the population with a reference QIS model, "
            "and the call is repeated from another start with the same points supplied; non-trivial: at least two points drawn by a checked call")
    probes = ["draws.checked", "model.checked", "qisi.model.checked", "qisi.model.choices", "supplied.checked", "pair.checked", "after_fault", "large"]

    def plan(self, r, tier, i):
        if self.large(tier, i):
            q = r.chance(0.4)
            pr = gen.big_problem(r, 1_500_000 if q else 6_000_000, q, 5000)
            k = gen.big_skips(r, len(pr["sizes"]))
            o = mkqisi(pr, gen.gen_seed(r, pr), k, gen.gen_draw(r, 0.2)) if q else mkqis(pr, k, gen.gen_draw(r, 0.2))
            return {"heap": gen.big_heap(r), "threads": [[o]], "dlog": 1, "world": "opt"}
        ops = []
        for _ in range(r.weighted([(1, 4), (2, 2), (4, 1)])):
            k = r.weighted([("qis", 5), ("qisi", 3), ("igr", 2), ("pair", 1.5), ("gen", 1), ("bad", 1)])
            if k == "qis":
                pr = gen.gen_problem(r, r.weighted([(12, 2), (50, 3)]), kinds=[("ones", 4), ("disjoint", 3), ("chain", 3), ("cycle", 1), ("random", 1)])
                ops.append(mkqis(pr, gen.gen_skips(r), gen.gen_draw(r, 0.4)))
            elif k == "qisi":
                pr = qisi_problem(r, 1200, 30)
                ops.append(mkqisi(pr, gen.gen_seed(r, pr), gen.gen_skips(r), gen.gen_draw(r, 0.3)))
            elif k == "pair":
                d = r.rng(2, 4)
                pr = {"sizes": [2] * d, "idx": [[x] for x in range(d)], "m": [[1, 1]] * d, "hidden": [1] + [0] * (2 ** d - 2) + [1]}
                ops.append(dict(mkqisi(pr, [r.rng(1, 9) / 2.0 for _ in range(2 ** d)], gen.gen_skips(r), gen.gen_draw(r, 0.6)), _pair=True))
            elif k == "igr":
                o = small_call(r, [("igr", 1)])
                o["draw"] = gen.gen_draw(r, 0.3)
                ops.append(o)
            elif k == "gen":
                ops.append(gen.op("snew", n=[0, r.rng(1, 6), r.small(50)]))
                ops.append(gen.op("sbuf", n=[0, r.rng(1, 9)]))
            else:
                ops.append(dict(opt_faults(r, small_call(r), 0.6, 0.6), _bad=True))
        if r.chance(0.3):
            src = [o for o in ops if o["k"] in ("qis", "qisi", "igr") and not o.get("_pair") and not o.get("_bad")]
            if src:
                ops.insert(0, dict(gen.variant(r, r.pick(src)), draw=gen.gen_draw(r, 0.2)))
        plan = {"heap": gen.gen_heap(r), "threads": [ops], "dlog": 1}
        return reps.to_py(r, plan) if i % 8 == 7 else plan

    def evaluate(self, plan, ctx):
        v = Verdict()
        out = self.run(v, ctx, plan)
        if out is None:
            return v
        ops = plan["threads"][0]
        # the log is a flat history of draws; generators are numbered in order of their first draw in the process
        seam = draws_seen(ctx, plan.get("world", "core"))
        byop = split_draws(plan, out, ctx, self, v)
        if byop is None:
            return v
        faulted = False
        for k, o in enumerate(ops):
            res = out.res[(0, k)]
            if o.get("_bad"):
                faulted = True
                continue
            if o["k"] not in ("qis", "qisi", "igr") or not res.ok:
                continue
            dr = byop[k]
            dim = len(o["_sizes"]) if o["k"] != "igr" else len(o["seedsz"])
            pop = oracle.pop_of(o) if o["k"] != "igr" else sum(res.iv)
            skips = o.get("skips", 0)
            if o["k"] == "igr" and dim == 1:
                continue
            v.facts["after_fault"] += faulted
            v.facts["large"] += plan.get("world") == "opt"
            v.nt = v.nt or pop > 1
            what = "%s of %d individuals in %d dimensions, skips %d" % (o["k"], pop, dim, skips)
            if not seam:
                # the points cannot be observed: the population must still be the one the sequence selects
                if o["k"] == "qis" and not o.get("_bad"):
                    self.blind(v, o, res, what, pop, dim, skips)
                continue
            # points thrown away to honour skips may or may not pass the seam; the last ones are those used
            st = [s for s in starts(o["k"], skips) if len(dr) in (pop, pop + s)]
            if not st:
                v.fail("count", "%s drew %d points" % (what, len(dr)))
                continue
            if len(set(d[0] for d in dr)) > 1:
                v.fail("generators", "%s drew from %d generators" % (what, len(set(d[0] for d in dr))))
                continue
            used = dr[len(dr) - pop:]
            if pop == 0:
                continue
            ok = False
            for s in starts(o["k"], skips):
                if used[0][1] == ref.sobol_point(s + 1, dim):
                    ok = all(u[1] == ref.sobol_point(s + 1 + n, dim) for n, u in enumerate(used))
                    if not ok:
                        n = [u[1] == ref.sobol_point(s + 1 + n, dim) for n, u in enumerate(used)].index(False)
                        v.fail("order", "%s: individual %d was not given point %d" % (what, n + 1, s + 1 + n))
                    break
            else:
                v.fail("start", "%s did not start at point %s" % (what, " or ".join(str(s + 1) for s in starts(o["k"], skips))))
                continue
            if not ok:
                continue
            v.facts["draws.checked"] += 1
            pts = [u[2] for u in used]
            if o["k"] == "qis":
                try:
                    m, c = ref.qis_model({"sizes": o["_sizes"], "idx": o["idx"], "m": o["m"]}, pts)
                    v.facts["model.checked"] += 1
                    if m != res.iv:
                        v.fail("state", "%s: the population is not the one its points select" % what)
                except ref.Tie:
                    v.facts["model.tie"] += 1
                except ref.DeadEnd:
                    v.fail("state", "%s returned although its points lead to a dead end" % what)
            elif prod(o["seedsz"]) * pop <= 1500 and not plan.get("world") == "opt":
                idx, m = (o["idx"], o["m"]) if o["k"] == "qisi" else oned(o)
                try:
                    ms = ref.qisi_models(o["seedsz"], idx, m, o["seed"], pts)
                    v.facts["qisi.model.checked"] += 1
                    v.facts["qisi.model.choices"] += len(ms) > 1
                    if res.iv not in ms:
                        if ms == [None]:
                            v.fail("state", "%s returned although its points lead to a dead end" % what)
                        else:
                            v.fail("state", "%s: the population is not the one its points select" % what)
                except ref.Tie:
                    v.facts["qisi.model.tie"] += 1
                except ref.TooLong:
                    v.facts["qisi.model.long"] += 1
            if o.get("_pair"):
                self.pair(v, o, res, pts[0], what)
            # the same points from any other start give the same result
            if o["k"] in ("qis", "qisi") and skips != 3 and pop * dim < 3000:
                o2 = dict(o, skips=0 if skips else 3, draw=[12, 0, -1], dlist=[x for p in pts for x in p])
                o2.pop("oom", None)
                out2 = self.run(v, ctx, {"heap": plan["heap"], "threads": [[o2]], "world": plan.get("world", "core")})
                if out2 is None:
                    return v
                r2 = out2.res[(0, 0)]
                v.facts["supplied.checked"] += 1
                if r2.key() != res.key():
                    v.fail("points", "%s: the same points supplied from another start give another result" % what)
        return v

    def blind(self, v, o, res, what, pop, dim, skips):
        s, = starts("qis", skips)
        if s * dim > 200000:
            return
        try:
            m, c = ref.qis_model({"sizes": o["_sizes"], "idx": o["idx"], "m": o["m"]}, [ref.sobol_point(s + 1 + n, dim) for n in range(pop)])
            v.facts["blind.checked"] += 1
            if m != res.iv:
                v.fail("state", "%s: the population is not the one its points select" % what)
        except (ref.Tie, ref.DeadEnd):
            pass

    def pair(self, v, o, res, u, what):
        """two individuals with complementary attributes: the first point selects one of the 2^(d-1) pairs from the fitted seed"""
        d = len(o["_sizes"])
        e = res.dv
        fixed = {}
        for j in range(d - 1, -1, -1):
            w = [0.0, 0.0]
            for p in range(2 ** d):
                bits = [(p >> (d - 1 - q)) & 1 for q in range(d)]
                if all(bits[q] == b for q, b in fixed.items()):
                    w[bits[j]] += e[p]
            x = u[j] / 4294967296.0 * (w[0] + w[1])
            if abs(x - w[0]) < 1e-9 * (w[0] + w[1]):
                return
            fixed[j] = 0 if x < w[0] else 1
        s = sum(fixed[j] << (d - 1 - j) for j in range(d))
        v.facts["pair.checked"] += 1
        want = [0] * 2 ** d
        want[s] += 1
        want[2 ** d - 1 - s] += 1
        if res.iv != want:
            v.fail("state", "%s: the first point selects state %d, which is empty" % (what, s))


def split_draws(plan, out, ctx, prop, v):
    """draws by operation: each op is one stretch of the log. [[(generator, real, delivered)]] per op"""
    # the number of draws of each op is known from a log mark: ops log a pseudo draw with dimension 0
    cur, by = -1, collections.defaultdict(list)
    for tid, gid, real, got in out.draws:
        if not real:
            cur += 1
            continue
        by[cur].append((gid, real, got))
    return by


class C14(Prop):
    id = "C14"
    worlds = ("core", "opt", "py")
    count = {"quick": 22000, "thorough": 500000}
    rule = ("qis and qisi calls under adversarial points (as C01/C02); every returned statistic is recomputed from the returned population, the "
            "requested marginals and the seed; non-trivial: a population was returned for at least one individual")
    probes = ["pvalue.checked", "impossible_states", "expectation.zero", "large"]

    def plan(self, r, tier, i):
        if self.large(tier, i):
            q = r.chance(0.4)
            pr = gen.big_problem(r, 1_500_000 if q else 6_000_000, q)
            k = gen.gen_skips(r)
            o = mkqisi(pr, gen.gen_seed(r, pr), k, gen.gen_draw(r, 0.3)) if q else mkqis(pr, k, gen.gen_draw(r, 0.3))
            return {"heap": gen.big_heap(r), "threads": [[o]], "world": "opt"}
        if i % 150 == 75:
            return {"heap": gen.big_heap(r), "threads": [[mkqis(gen.square_problem(r), gen.gen_skips(r), gen.gen_draw(r, 0.5))]], "world": "opt"}
        pre = [opt_faults(r, small_call(r), 0.3, 0.2) for _ in range(r.weighted([(0, 8), (1, 1)]))]
        if r.chance(0.6):
            pr = gen.gen_problem(r, r.weighted([(10, 2), (60, 4), (400, 1)]))
            o = mkqis(pr, gen.gen_skips(r), gen.gen_draw(r, 0.6))
        else:
            pr = qisi_problem(r, 1500, r.weighted([(10, 2), (60, 4)]))
            o = mkqisi(pr, gen.gen_seed(r, pr), gen.gen_skips(r), gen.gen_draw(r, 0.6))
        plan = {"heap": gen.gen_heap(r), "threads": [like(r, o, pre) + [o]]}
        return reps.to_py(r, plan) if i % 8 == 7 else plan

    def evaluate(self, plan, ctx):
        v = Verdict()
        out = self.run(v, ctx, plan)
        if out is None:
            return v
        for k, o in enumerate(plan["threads"][0]):
            res = out.res[(0, k)]
            if o["k"] not in ("qis", "qisi") or not res.ok:
                continue
            pop = oracle.pop_of(o)
            v.nt = v.nt or pop > 0
            if res.si[1] != sum(res.iv):
                v.fail("pop", "pop is %d, the population has %d" % (res.si[1], sum(res.iv)))
            v.facts["large"] += plan.get("world") == "opt"
            v.facts["pvalue.checked"] += 1
            v.facts["expectation.zero"] += 0.0 in res.dv
            v.facts["impossible_states"] += any(e == 0.0 and x for e, x in zip(res.dv, res.iv))
            for c, m in oracle.stats(o, o["k"], res.iv, res.dv, res.st[0], res.st[1], res.st[2], o["_sizes"]):
                if c == oracle.KNOWN_PV:
                    v.known.append((c, m))
                else:
                    v.fail(c, m)
            v.facts["stat." + o["k"]] += 1
        return v


class C15(Prop):
    id = "C15"
    worlds = ("core", "opt", "py")
    count = {"quick": 13000, "thorough": 500000}
    rule = ("0-2 calls that dirty the heap, then ipf on the marginals of a hidden population (as C01, also scaled to fractions) and a seed (as C02, "
            "sometimes one that cannot be fitted), some calls hit by allocation failure, in C++ and through Python with arguments in any representation; "
            "what is returned is recomputed and compared with a reference fit of as many passes; non-trivial: a population was returned for at least one individual")
    probes = ["ipf.conv", "ipf.notconv", "ipf.zeros", "ipf.fault_exception", "ipf.overlapping", "ipf.fractional", "large"]

    def plan(self, r, tier, i):
        if self.large(tier, i):
            pr = gen.big_problem(r, maxpop=r.pick([1000, 200000]))
            o = gen.op_ipf(pr, gen.gen_seed(r, pr), r.pick([1.0, 8.0]))
            return {"heap": gen.big_heap(r), "threads": [[o]], "world": "opt"}
        pre = [opt_faults(r, small_call(r), 0.3, 0.2) for _ in range(r.weighted([(0, 6), (1, 1), (2, 0.5)]))]
        pr = gen.gen_problem(r, r.weighted([(8, 2), (60, 4), (1000, 1)]), big=r.chance(0.1))
        if r.chance(0.1):
            pr = gen.perturb_joint(r, pr)
        o = gen.op_ipf(pr, gen.gen_seed(r, pr, r.chance(0.85)), gen.ipf_scale(r))
        opt_faults(r, o, 0.08, 0)
        plan = {"heap": gen.gen_heap(r), "threads": [like(r, o, pre) + [o]]}
        return reps.to_py(r, plan) if i % 6 == 5 else plan

    def evaluate(self, plan, ctx):
        v = Verdict()
        out = self.run(v, ctx, plan)
        if out is None:
            return v
        for k, o in enumerate(plan["threads"][0]):
            if o["k"] != "ipf":
                continue
            res = out.res[(0, k)]
            if not res.ok:
                if not fault_events(o, res):
                    v.fail("raised", "ipf raised %r" % res.exc)
                v.facts["ipf.fault_exception"] += 1
                continue
            v.nt = v.nt or oracle.pop_of(o) > 0
            v.facts["large"] += plan.get("world") == "opt"
            v.facts["ipf.conv" if res.si[0] else "ipf.notconv"] += 1
            v.facts["ipf.zeros"] += 0.0 in o["seed"]
            v.facts["ipf.fractional"] += any(x != int(x) for x in o["m"][0])
            v.facts["ipf.overlapping"] += len(set(d for i in o["idx"] for d in i)) < sum(len(i) for i in o["idx"])
            x = oracle.ipf(o, res.si[0], res.si[1], res.si[2], res.st[0], res.dv, res.sizes)
            if x:
                v.fail(*x)
        return v


PROPS = [C01, C02, C03, C13, C14, C15]
