"""C06: C++ threads under the seeded scheduler. C09: histories and heap states."""
from .base import *
from .sobol import gen_ops, judge_generators


class C06(Prop):
    id = "C06"
    count = {"quick": 6000, "thorough": 150000}
    rule = ("2-4 (now and then up to 8) real threads, each with 1-6 of its own solver calls, generator histories and failing calls, parked and released one at a time by a "
            "seeded scheduler that may preempt at every control-flow edge and memory access of the library (mean slice 3 to 20000 steps), first use "
            "included; every result must equal that of the same thread alone; non-trivial: at least four preemptions inside calls; distinct by the "
            "sequence of (code location, from, to) switches")
    probes = ["preempted", "first_use_race", "oom_in_company", "slice.tiny"]
    assumptions = Prop.assumptions + ["threads switch at instrumented edges and accesses: sequentially consistent interleavings of the library's code, no weak-memory reorderings"]

    def plan(self, r, tier, i):
        nt = r.weighted([(2, 6), (3, 2), (4, 1), (r.rng(5, 8), 0.25)])
        same = r.chance(0.3)
        th = []
        for t in range(nt):
            ops = []
            for _ in range(r.rng(1, 4 if nt < 5 else 2)):
                w = r.weighted([("call", 4), ("gen", 2), ("bad", 0.5)])
                if w == "call":
                    c = [x for ys in th + [ops] for x in ys if x["k"] in gen.VARIABLE and "_ok" in x]
                    o = dict(gen.variant(r, r.pick(c)) if c and r.chance(0.35) else small_call(r), _ok=1)
                    if o["k"] in ("qis", "qisi", "igr") and r.chance(0.3):
                        o["draw"] = gen.gen_draw(r)
                    ops.append(o)
                elif w == "gen":
                    ops += gen_ops(r, r.rng(2, 7), slots=2, maxdim=12, maxskip=60)
                else:
                    ops.append(opt_faults(r, small_call(r), 0.7, 0.5))
            if r.chance(0.08):
                o = r.pick(ops)
                o["oom"] = [r.rng(1, 40), 1, 0, 0]
            th.append(ops)
        if same:
            th = [th[0]] * nt
        return {"heap": gen.gen_heap(r), "threads": th, "_mt": 1,
                "sched": {"seed": r.u64() >> 1, "mean": r.weighted([(3, 1), (30, 2), (300, 3), (3000, 3), (20000, 1)]), "ppm": r.pick([0, 100000, 600000]), "hot": r.weighted([(0, 2), (500, 1), (10000, 2), (200000, 1)])}}

    def evaluate(self, plan, ctx):
        v = Verdict()
        solos = []
        for ops in plan["threads"]:
            o = self.run(v, ctx, {"heap": BASE_HEAP, "threads": [ops]})
            if o is None:
                # broken even alone: other properties report it, here there is nothing to compare with
                v.viol = None
                v.facts["solo_abnormal"] += 1
                return v
            solos.append(o)
        out = ctx.core(plan)
        v.h.append(out.hash_key())
        if out.switches:
            v.plan2 = dict(plan, sched=dict(plan["sched"], list=out.switches))
        f = out.fatal()
        if f:
            v.fail(f, "threads together: " + out.describe_fatal())
            return v
        inside = sum(1 for s in out.switches if s[0] == 0)
        v.facts["preempted"] += inside
        v.facts["slice.tiny"] += (plan.get("sched") or {}).get("mean", 0) <= 30
        v.facts["first_use_race"] += bool(out.switches and inside and out.switches[1:] and out.switches[1][0] == 0)
        v.nt = inside >= 4
        v.key = out.ilhash
        for t, ops in enumerate(plan["threads"]):
            for k, o in enumerate(ops):
                a, b = out.res[(t, k)], solos[t].res[(0, k)]
                v.facts["oom_in_company"] += a.fired > 0
                if a.key() != b.key():
                    v.fail("differs", "thread %d, %s (operation %d): %s when interleaved, %s alone" % (t, o["k"], k, show(a), show(b)))
                    return v
        return v


def show(r):
    if not r.ok:
        return "raised " + r.exc[:120]
    s = "returned %s" % (r.iv[:12] if r.iv else [x for x in (r.dv or [])[:6]],)
    if r.st:
        s += " %s" % (r.st,)
    if r.si:
        s += " %s" % (r.si,)
    return s


def bad_call(r):
    from .requests import malformed
    return malformed(r)[1]


class C09(Prop):
    id = "C09"
    worlds = ("core", "opt", "py")
    count = {"quick": 6000, "thorough": 250000}
    rule = ("histories of 3-12 calls in one process (solvers, flatten, generators; some made to fail by exhaustion, allocation failure or a malformed "
            "argument; repeats included) over a simulated heap with 6 fill patterns and 4 recycling policies and guarded blocks; every call that is not "
            "hit by a fault must return bit for bit what it returns in a fresh process with a zeroed heap, and repeated calls must not accumulate "
            "blocks; a tenth through Python; non-trivial: at least three successful calls")
    probes = ["after_failure", "repeat", "leak.checked", "reused", "large"]

    def plan(self, r, tier, i):
        if self.large(tier, i):
            # a large problem, after a small one, over a heap full of something else
            q = r.chance(0.5)
            pr = gen.big_problem(r, 1_000_000 if q else 10_000_000, q)
            o = mkqisi(pr, gen.gen_seed(r, pr), 0) if q else mkqis(pr, 0)
            pre = [small_call(r, [("qis", 1), ("qisi", 1)]) for _ in range(r.rng(0, 2))]
            return {"heap": gen.big_heap(r), "threads": [pre + [o] + ([dict(o)] if r.chance(0.3) else [])], "world": "opt"}
        if i % 10 == 9:
            from . import pyprops
            return pyprops.history_plan(r, tier)
        if r.chance(0.01):
            # a long history of a few small calls, repeated over and over
            few = [gen.rand_call(r, 12, [("qis", 4), ("qisi", 0.7), ("igr", 1), ("ig1", 1), ("flat", 1), ("ipf", 0.7)]) if r.chance(0.8) else bad_call(r)
                   for _ in range(r.rng(1, 4))]
            n = r.pick([40, 150, 400, 1100])
            if any(o["k"] in ("qisi", "ipf", "igr") for o in few):
                n = min(n, 40)
            ops = [dict(r.pick(few)) for _ in range(n)]
            return {"heap": gen.gen_heap(r), "threads": [ops]}
        ops = []
        for _ in range(r.rng(3, 9)):
            w = r.weighted([("call", 5), ("gen", 1), ("bad", 1), ("mal", 1), ("rep", 2), ("var", 3)])
            if w == "call":
                o = dict(small_call(r), _ok=1)
                if r.chance(0.3):
                    o["draw"] = gen.gen_draw(r)
                ops.append(o)
            elif w == "gen":
                ops += gen_ops(r, r.rng(2, 6), slots=2, maxdim=12, maxskip=60)
            elif w == "bad":
                ops.append(opt_faults(r, small_call(r), 0.7, 0.5))
            elif w == "mal":
                ops.append(bad_call(r))
            elif w == "var" and ops:
                # a call that differs from an earlier one in a single respect
                c = [o for o in ops if o["k"] in gen.VARIABLE and "_ok" in o]
                if c:
                    ops.append(dict(gen.variant(r, r.pick(c)), _ok=1))
            elif ops:
                c = [o for o in ops if o["k"][0] != "s"]
                if c:
                    ops += [solo(r.pick(c))] * r.rng(1, 3)
        return {"heap": gen.gen_heap(r), "threads": [ops]}

    def evaluate(self, plan, ctx):
        if plan.get("world") == "py":
            from . import pyprops
            return pyprops.history_evaluate(self, plan, ctx)
        v = Verdict()
        ops = plan["threads"][0]
        out = self.run(v, ctx, plan)
        if out is None:
            return v
        failed = False
        seen = {}
        for k, o in enumerate(ops):
            res = out.res[(0, k)]
            if o["k"][0] == "s":
                continue
            hk = h64(solo(o))
            v.facts["reused"] += plan["heap"]["reuse"] in (0, 3)
            if not res.fired:
                if hk in seen:
                    base = seen[hk]
                    v.facts["repeat"] += 1
                else:
                    b = self.run(v, ctx, {"heap": BASE_HEAP, "threads": [[solo(o)]]}, plan.get("world"))
                    if b is None:
                        return v
                    base = seen[hk] = b.res[(0, 0)]
                v.facts["after_failure"] += failed
                if base.key() != res.key():
                    v.fail("differs", "%s (operation %d): %s here, %s in a fresh process" % (o["k"], k, show(res), show(base)))
                    return v
            failed = failed or not res.ok
            # blocks kept by a call that has been made before
            prev = [j for j in range(k) if ops[j]["k"] == o["k"] and h64(ops[j]) == h64(o)]
            if len(prev) >= 2:
                v.facts["leak.checked"] += 1
                if res.live > 0 and out.res[(0, prev[-1])].live > 0:
                    v.fail("leak", "%s keeps %d blocks every time it is called (%s)" % (o["k"], res.live, show(res)))
        judge_generators(v, ops, out, 0, "between other calls: ")
        v.facts["large"] += plan.get("world") == "opt"
        v.nt = sum(1 for x in out.res.values() if x.ok) >= 3 or plan.get("world") == "opt"
        return v


PROPS = [C06, C09]
