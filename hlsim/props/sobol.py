"""C04: generators against the reference sequence."""
from .base import *


class GenModel:
    """what a slot must yield next"""

    def __init__(self, dim, skip):
        self.dim = dim
        self.n = ref.skip_count(skip) if skip > 0 else 0
        self.part = None              # values of the current point still to be handed out by operator()
        self.ended = False

    def point(self):
        self.n += 1
        return ref.sobol_point(self.n, self.dim)


def gen_ops(r, nops, slots=4, maxdim=40, maxskip=3000):
    """a random history of generator operations that never uses a generator half way through a point in two ways"""
    ops = []
    st = {}
    for _ in range(nops):
        s = r.below(slots)
        if s not in st or r.chance(0.08):
            d = r.weighted([(r.rng(1, 6), 5), (r.rng(1, maxdim), 2), (r.rng(1, 1111), 0.3)])
            k = r.weighted([(0, 3), (1, 1), (r.rng(2, 70), 3), (r.rng(2, maxskip), 1), (1 << r.rng(1, 9), 1), ((1 << r.rng(1, 9)) + 1, 1)])
            if d > 100:
                k = min(k, 40)
            ops.append(gen.op("snew", n=[s, d, k]))
            st[s] = [d, 0]
            continue
        d, used = st[s]
        k = r.weighted([("sbuf", 5), ("sop", 4), ("sskip", 1), ("sreset", 1), ("sdel", 0.5)])
        if used % d and k in ("sbuf", "sskip"):
            k = "sop"
        if k == "sbuf":
            ops.append(gen.op("sbuf", n=[s, r.rng(1, 12 if d < 100 else 2)]))
        elif k == "sop":
            c = r.weighted([(r.rng(1, 2 * d + 3), 2), (d - used % d, 2)])
            st[s][1] += c
            ops.append(gen.op("sop", n=[s, c]))
        elif k == "sskip":
            ops.append(gen.op("sskip", n=[s, r.weighted([(0, 0.5), (1, 1), (r.rng(2, 300), 3)])]))
        elif k == "sreset":
            st[s][1] = 0
            ops.append(gen.op("sreset", n=[s, r.weighted([(0, 3), (r.rng(1, 200), 3)])]))
        else:
            del st[s]
            ops.append(gen.op("sdel", n=[s]))
        o = ops[-1]
    return ops


def judge_gen(v, slots, o, res, what=""):
    """advance the model by one operation and compare"""
    k, n = o["k"], o["n"]
    s = n[0]
    fired = res.fired > 0
    g = slots.get(s)
    if g is not None and g.part and k in ("sbuf", "sskip"):
        slots[s] = None                          # half a point used (a reset before it may have failed): what comes next isn't specified
        return
    if not res.ok:
        if getattr(res, "part", None) and g is not None:
            # Python: points yielded before the call that failed
            for j in range(0, len(res.part), g.dim):
                if res.part[j:j + g.dim] != g.point():
                    return v.fail("value", "%sgenerator of dimension %d: point %d differs from the sequence" % (what, g.dim, g.n))
        if "bad_alloc" in res.exc and fired:
            v.facts["gen.oom"] += 1
            return
        ex = (o.get("draw") or [0, 0, -1])[2]
        if g is not None and k in ("sbuf", "sop") and (g.ended or ex >= 0):
            if "out_of_range" not in res.exc:
                v.fail("exhaust", "%sexhaustion is signalled by %r" % (what, res.exc))
            v.facts["gen.exhausted" if not g.ended else "gen.stays_exhausted"] += 1
            g.ended = True
            return
        if k == "snew" and not 1 <= n[1] <= 1111:
            return
        v.fail("raised", "%s%s raised %r" % (what, k, res.exc))
        return
    if k == "snew":
        slots[s] = GenModel(n[1], n[2])
        return
    if k == "sdel":
        slots.pop(s, None)
        return
    g = slots.get(s)
    if g is None:
        return
    if k == "sreset":
        slots[s] = GenModel(g.dim, n[1])
        v.facts["gen.reset"] += 1
    elif k == "sskip":
        g.n += ref.skip_count(n[1])
        v.facts["gen.skip"] += 1
    elif k == "sbuf":
        if g.ended:
            return v.fail("exhaust", "%san exhausted generator yielded a point" % what)
        want = []
        for _ in range(n[1]):
            want += g.point()
        v.facts["gen.points"] += n[1]
        if 0 in res.iv:
            v.fail("range", "%sa value is 0" % what)
        if res.iv != want:
            j = [a == b for a, b in zip(res.iv, want)].index(False) if len(res.iv) == len(want) else 0
            v.fail("value", "%sgenerator of dimension %d: point %d differs from the sequence" % (what, g.dim, g.n - n[1] + 1 + j // g.dim))
    elif k == "sop":
        if g.ended:
            return v.fail("exhaust", "%san exhausted generator yielded a value" % what)
        want = []
        for _ in range(n[1]):
            if not g.part:
                g.part = g.point()
            want.append(g.part.pop(0))
        v.facts["gen.values"] += n[1]
        if res.iv != want:
            v.fail("value", "%sgenerator of dimension %d: wrong value near point %d" % (what, g.dim, g.n))


class C04(Prop):
    id = "C04"
    worlds = ("core", "opt", "py")
    count = {"quick": 7000, "thorough": 300000}
    rule = ("histories of 6-40 operations (create, next point, next value, skip, reset, drop) on up to 6 interleaved generators of 1-1111 dimensions, "
            "mixed with solver calls, exhaustion and allocation failures at the seams, in C++ (two thirds) and through Python's SobolSequence under "
            "garbage collection; some histories reach 2^10 to 2^31 points along (in up to 2^28 coordinates); plus one run to real exhaustion after 2^32-1 points; every value is compared with an independent construction from "
            "the Joe-Kuo table; non-trivial: at least three generator operations yielded values")
    probes = ["gen.exhausted", "gen.stays_exhausted", "gen.reset", "gen.skip", "gen.oom", "gen.values", "gen.points", "calls.between", "deep"]

    def deep(self, r):
        """a history that reaches far along the sequence: every power of two from 2^10 to 2^29, in as many dimensions as that allows"""
        if r.chance(0.08):
            # beyond half of what there is, in few coordinates
            k, d = r.pick([(30, 1), (30, 2), (30, 3), (31, 1), (31, 2)])
            ops = [gen.op("snew", n=[0, d, (1 << k) + r.rng(1, (1 << k) - 1)]), gen.op("sbuf", n=[0, r.rng(1, 5)])]
            j = 25
            while j > 2:
                ops.append(gen.op("sskip", n=[0, (1 << j) + r.rng(1, 1 << j)]))
                ops.append(gen.op("sbuf", n=[0, r.rng(1, 3)]))
                j -= r.rng(1, 6)
            return {"heap": gen.big_heap(r), "threads": [ops], "world": "opt"}
        ops, left = [], self.reach
        for s in range(r.rng(1, 3)):
            k = r.rng(10, 29)
            top = max(1, min(1111, left >> k))
            if top == 1:
                k = min(k, max(10, left.bit_length() - 2))
            d = r.weighted([(r.rng(1, top), 2), (top, 1), (min(top, r.rng(2, 8)), 2)])
            left = max(1 << 10, left - (d << k))
            ops.append(gen.op("snew", n=[s, d, r.pick([0, (1 << k) + 1, (1 << k) + r.rng(1, 1 << k), 1 << (k + 1)])]))
            n = 0 if ops[-1]["n"][2] == 0 else ref.skip_count(ops[-1]["n"][2])
            if n == 0:
                ops.append(gen.op("sskip", n=[s, (1 << k) + 1]))
            ops.append(gen.op("sbuf", n=[s, r.rng(1, 5)]))
            if r.chance(0.5):
                # up to the next power of two and across it
                j = k
                while j > 2:
                    j -= 1
                    ops.append(gen.op("sskip", n=[s, 1 << (j + 1)]))
                    if r.chance(0.1):
                        ops.append(gen.op("sbuf", n=[s, 1]))
                ops.append(gen.op("sbuf", n=[s, 12]))
            if r.chance(0.3):
                ops.append(gen.op("sreset", n=[s, r.small(20)]))
                ops.append(gen.op("sbuf", n=[s, 3]))
            if r.chance(0.2):
                # a long stretch without skips
                d = r.rng(1, 3)
                ops += [gen.op("snew", n=[s + 10, d, r.small(9)]), gen.op("sbuf" if r.chance(0.5) else "sop", n=[s + 10, d * r.rng(1000, 24000 if r.chance(0.3) else 4000)])]
        return {"heap": gen.big_heap(r), "threads": [ops], "world": "opt"}

    nlarge = {"quick": 96, "thorough": 6000}
    reach = 1 << 28

    def plan(self, r, tier, i):
        if self.large(tier, i):
            return self.deep(r)
        if i % 3 == 2:
            from . import pyprops
            return pyprops.sobol_plan(r, tier)
        if r.chance(0.03):
            # many at once
            ops = gen_ops(r, r.rng(60, 160), slots=r.rng(20, 70), maxdim=r.pick([4, 8]), maxskip=300)
        else:
            ops = gen_ops(r, r.rng(6, 40), slots=r.rng(1, 6), maxdim=r.pick([8, 60, 400]), maxskip=3000 if tier == "quick" else 60000)
        out = []
        for o in ops:
            if o["k"] in ("sbuf", "sop") and r.chance(0.03):
                o["draw"] = [0, 0, r.small(o["n"][1])]
            elif r.chance(0.06):
                o["oom"] = [r.rng(1, 4), r.rng(1, 3), 0, 0]
            out.append(o)
            if r.chance(0.12):
                out.append(opt_faults(r, small_call(r, [("qis", 2), ("qisi", 1), ("igr", 1)]), 0.2, 0.2))
        # an exhausted generator is only dropped or replaced afterwards
        return {"heap": gen.gen_heap(r), "threads": [out]}

    def evaluate(self, plan, ctx):
        if plan.get("world") == "py":
            from . import pyprops
            return pyprops.sobol_evaluate(self, plan, ctx)
        v = Verdict()
        out = self.run(v, ctx, plan)
        if out is None:
            return v
        judge_generators(v, plan["threads"][0], out, 0)
        v.facts["deep"] += plan.get("world") == "opt"
        v.nt = v.facts["gen.points"] + v.facts["gen.values"] >= 3
        return v

    def special(self, tier, seed, ctx, paths):
        """real exhaustion: a one-dimensional generator is taken to its last points by skips of 2^31, 2^30, ... 2^2 (uninstrumented build)"""
        ops = [gen.op("snew", n=[0, 1, (1 << 32) - 1])]
        ops += [gen.op("sskip", n=[0, 1 << k]) for k in range(31, 2, -1)]
        ops += [gen.op("sbuf", n=[0, 1])] * 5 + [gen.op("snew", n=[1, 1, 0]), gen.op("sbuf", n=[1, 3])]
        plan = {"heap": BASE_HEAP, "threads": [ops], "opt": 1}
        o = ctx.opt(plan)
        v = Verdict()
        f = o.fatal()
        if f == "timeout":
            return {"coverage": {"real_exhaustion": "not reached: too slow here"}}
        if f:
            v.fail(f, o.describe_fatal())
        else:
            got = [o.res[(0, k)] for k in range(len(ops))]
            n = 1 + 29
            base = (1 << 32) - 4
            for j in range(3):
                if not got[n + j].ok or got[n + j].iv != ref.sobol_point(base + j + 1, 1):
                    v.fail("value", "wrong point %d before exhaustion" % (base + j + 1))
            for j in (3, 4):
                if got[n + j].ok or "out_of_range" not in got[n + j].exc:
                    v.fail("exhaust", "draw %d after 2^32-1 points did not signal exhaustion: %s" % (j - 2, got[n + j].exc or got[n + j].iv))
            if not got[-1].ok or got[-1].iv != sum((ref.sobol_point(k, 1) for k in (1, 2, 3)), []):
                v.fail("value", "another generator is affected by exhaustion")
        if v.viol:
            return {"viol": v.viol, "plan": plan}
        return {"coverage": {"real_exhaustion": "reached after 2^32-1 points: 3 last points right, then exhausted twice, others unaffected"}}


def judge_generators(v, ops, out, tid, what=""):
    slots = {}
    for k, o in enumerate(ops):
        res = out.res[(tid, k)]
        if o["k"] in ("snew", "sbuf", "sop", "sskip", "sreset", "sdel"):
            g = slots.get(o["n"][0])
            if g is not None and g.ended and o["k"] in ("sskip", "sreset"):
                slots.pop(o["n"][0])         # beyond what the seam can represent
                slots[o["n"][0]] = None
                continue
            if o["n"][0] in slots and slots[o["n"][0]] is None and o["k"] not in ("snew", "sdel"):
                continue
            judge_gen(v, slots, o, res, what)
        else:
            v.facts["calls.between"] += 1


PROPS = [C04]
