"""C07: allocation failures. C12: flatten."""
from .base import *
from .sobol import gen_ops, judge_generators
from .isolation import show


class C07(Prop):
    id = "C07"
    worlds = ("core", "py")
    count = {"quick": 20000, "thorough": 250000}
    rule = ("a call is run once to count its allocations, then in one process with generators alive: the call with failures placed at chosen or "
            "random allocations (single, runs, or each with a probability), again and again, then unharmed; outcome of a failing call: its normal "
            "result or an exception; everything else as if it had not been made; no block is kept by repeating a failing call; two fifths through "
            "Python, failing the library's working memory and the arrays it returns; non-trivial: at least one failure fired inside a call")
    probes = ["oom.raised", "oom.hit", "after", "leak.checked", "gen.points"]

    def plan(self, r, tier, i):
        if i % 5 >= 3:
            from . import pyprops
            return pyprops.oom_plan(r, tier)
        o = small_call(r) if r.chance(0.8) else gen.op("snew", n=[3, r.rng(1, 50), r.small(30)])
        if o["k"] in ("qis", "qisi", "igr") and r.chance(0.2):
            o["draw"] = gen.gen_draw(r)
        pos = []
        for _ in range(r.rng(2, 14)):
            pos.append(r.weighted([(("one", r.unit()), 5), (("run", r.unit(), r.rng(2, 6)), 1), (("all", r.unit()), 1),
                                   (("ppm", r.pick([500, 5000, 50000, 300000]), r.u64() >> 1), 1), (("early", r.rng(1, 30)), 3), (("same", 0), 2)]))
        gens = gen_ops(r, 5, slots=2, maxdim=10, maxskip=50)
        for k, x in enumerate(gens):
            if r.chance(0.25):
                gens[k] = dict(x, oom=[r.rng(1, 5), r.pick([1, 1, 3]), 0, 0])
        for _ in range(r.rng(0, 2)):
            # a live generator for which nothing may change
            gens.append(gen.op("sreset", n=[r.below(2), r.pick([0, 0, r.small(30)])], oom=[r.rng(1, 5), 1, 0, 0]))
        return {"heap": gen.gen_heap(r), "op": o, "pos": pos, "gens": gens,
                "more": gen_ops(r, 3, slots=2, maxdim=10, maxskip=50) if r.chance(0.3) else [gen.op("sbuf", n=[0, 2]), gen.op("sbuf", n=[1, 2])]}

    @staticmethod
    def resolve(pos, allocs):
        out = []
        for p in pos:
            if p[0] == "one":
                out.append([1 + int(p[1] * allocs), 1, 0, 0])
            elif p[0] == "run":
                out.append([1 + int(p[1] * allocs), p[2], 0, 0])
            elif p[0] == "all":
                out.append([1 + int(p[1] * allocs), 1 << 40, 0, 0])
            elif p[0] == "ppm":
                out.append([0, 0, p[1], p[2]])
            elif p[0] == "early":
                out.append([p[1], 1, 0, 0])
            else:
                out.append(out[-1] if out else [1, 1, 0, 0])
        return out

    def evaluate(self, plan, ctx):
        if plan.get("world") == "py":
            from . import pyprops
            return pyprops.oom_evaluate(self, plan, ctx)
        v = Verdict()
        o = solo(plan["op"])
        b = self.run(v, ctx, {"heap": BASE_HEAP, "threads": [[o]]})
        if b is None:
            v.viol = None
            v.facts["solo_abnormal"] += 1
            return v
        base = b.res[(0, 0)]
        faults = self.resolve(plan["pos"], base.allocs)
        ops = list(plan["gens"]) + [dict(o, oom=f) for f in faults] + [o] + list(plan["more"]) + [o]
        out = self.run(v, ctx, {"heap": plan["heap"], "threads": [ops]})
        if out is None:
            return v
        g = len(plan["gens"])
        for k, f in enumerate(faults):
            res = out.res[(0, g + k)]
            v.facts["oom.hit"] += res.fired > 0
            v.nt = v.nt or res.fired > 0
            if res.ok or not base.ok:
                if res.ok:
                    v.facts["oom.survived"] += res.fired > 0
                if not res.fired or res.ok:
                    if res.key() != base.key():
                        v.fail("result", "%s under allocation failure %s: %s, normally %s" % (o["k"], f, show(res), show(base)))
            else:
                v.facts["oom.raised"] += 1
                if not res.fired:
                    v.fail("raised", "%s raised %r although no allocation of its own failed" % (o["k"], res.exc))
                elif res.exc == "unknown":
                    v.fail("exception", "%s under allocation failure %s threw something that is not an exception" % (o["k"], f))
            if k and faults[k - 1] == f and o["k"] != "snew":
                v.facts["leak.checked"] += 1
                if res.live > 0 and out.res[(0, g + k - 1)].live > 0:
                    v.fail("leak", "%s under allocation failure %s keeps %d blocks every time" % (o["k"], f, res.live))
        for k in range(g + len(faults), len(ops)):
            if ops[k] is o and o["k"] != "snew":
                v.facts["after"] += 1
                res = out.res[(0, k)]
                if res.key() != base.key():
                    v.fail("later", "%s after failed calls: %s, normally %s" % (o["k"], show(res), show(base)))
        judge_generators(v, ops, out, 0, "around failed calls: ")
        return v

    def shrinks(self, plan):
        if "pos" not in plan:
            yield from shrink_generic(plan)
            return
        n = len(plan["pos"])
        for a in range(n):
            if n > 1:
                yield dict(plan, pos=plan["pos"][:a] + plan["pos"][a + 1:])
        if plan["gens"]:
            yield dict(plan, gens=[])
        if plan["more"]:
            yield dict(plan, more=[])
        from ..runner import shrink_op
        for o in shrink_op(plan["op"]):
            yield dict(plan, op=o)
        yield from shrink_generic(plan)


class C12(Prop):
    id = "C12"
    worlds = ("core", "opt", "py")
    count = {"quick": 24000, "thorough": 300000}
    rule = ("a population (generated, or sampled by qis, qisi or integerise from adversarial points) is flattened, with attempts that fail on "
            "allocation before it and other calls between, over recycled heap; rows are compared with the row-major listing of the counts; a quarter "
            "end to end through Python with any array representation; non-trivial: at least two individuals")
    probes = ["flat.checked", "flat.sampled", "flat.failed", "flat.large", "large"]

    def plan(self, r, tier, i):
        if self.large(tier, i):
            pr = gen.big_problem(r, 10_000_000)
            return {"heap": gen.big_heap(r), "src": None, "flat": gen.op("flat", asz=pr["sizes"], a=pr["hidden"]), "fails": [], "between": [],
                    "threads": None, "big": 1}
        if i % 4 == 3:
            from . import pyprops
            return pyprops.flat_plan(r, tier)
        src = None
        if r.chance(0.5):
            src = small_call(r, [("qis", 3), ("qisi", 2), ("igr", 2)])
            src["draw"] = gen.gen_draw(r)
            f = gen.op("flat")
        else:
            sz = gen.gen_sizes(r, True) if r.chance(0.85) else [r.rng(1, 30)]
            f = gen.op("flat", asz=sz, a=gen.gen_population(r, sz, r.weighted([(20, 2), (150, 3), (3000, 0.5)])))
        return {"heap": gen.gen_heap(r), "src": src, "flat": f, "fails": [[r.rng(1, 12), 1, 0, 0] for _ in range(r.below(4))],
                "between": [opt_faults(r, small_call(r), 0.3, 0.2)] if r.chance(0.3) else [], "threads": None}

    def evaluate(self, plan, ctx):
        if plan.get("world") == "py":
            from . import pyprops
            return pyprops.flat_evaluate(self, plan, ctx)
        v = Verdict()
        f = plan["flat"]
        if plan["src"]:
            o = self.run(v, ctx, {"heap": plan["heap"], "threads": [[plan["src"]]]})
            if o is None:
                return v
            res = o.res[(0, 0)]
            if not res.ok:
                return v
            f = gen.op("flat", asz=res.sizes, a=res.iv)
            v.facts["flat.sampled"] += 1
            if min(res.iv) < 0:
                return v
        ops = [dict(f, oom=x) for x in plan["fails"]] + plan["between"] + [f]
        out = self.run(v, ctx, {"heap": plan["heap"], "threads": [ops]}, "opt" if plan.get("big") else "core")
        v.facts["large"] += bool(plan.get("big"))
        if out is None:
            return v
        for k, o in enumerate(ops):
            if o["k"] != "flat":
                continue
            res = out.res[(0, k)]
            if not res.ok:
                v.facts["flat.failed"] += 1
                if not res.fired:
                    v.fail("raised", "flatten raised %r" % res.exc)
                continue
            nc, rows = res.sizes
            cols = [res.iv[j * rows:(j + 1) * rows] for j in range(nc)]
            v.facts["flat.checked"] += 1
            v.facts["flat.large"] += rows > 1000
            x = oracle.flat(o, cols)
            if x:
                v.fail(*x)
        v.nt = sum(f["a"]) >= 2
        return v

    def shrinks(self, plan):
        if "flat" not in plan:
            yield from shrink_generic(plan)
            return
        if plan["fails"]:
            yield dict(plan, fails=plan["fails"][1:])
        if plan["between"]:
            yield dict(plan, between=[])
        f = plan["flat"]
        if plan["src"] is None:
            for j, c in enumerate(f["a"]):
                if c:
                    yield dict(plan, flat=dict(f, a=f["a"][:j] + [c // 2] + f["a"][j + 1:]))


PROPS = [C07, C12]
