"""The Python front end: C05, C08, and the Python shares of C04, C07, C09, C10 and C12."""
from .base import *
from .isolation import show
from .sobol import gen_ops, judge_generators
from ..pyworld import PRes

COMP_PY = ("real: CPython 3.12, numpy 2, pybind11, module.cpp and the whole library (g++ -O1), threads, reference counting and garbage collector; "
           "simulated: which Python thread runs when, what happens inside callbacks, when garbage is collected, heap of the library and of numpy arrays, "
           "their failures, delivered points")


def plain(o):
    """the call itself: no representation, faults, callbacks or company"""
    return {k: x for k, x in o.items() if k not in ("oom", "rep", "nest", "cbgc", "gcafter", "hold", "keep", "again", "shared", "save", "res", "cyc") and not k.startswith("_")}


def is_call(o):
    return o["k"] in ("qis", "qisi", "ipf", "igr", "ig1", "flat", "raw", "ut")


def fresh(prop, v, ctx, o, cache):
    """the call alone in a new process"""
    hk = h64(o)
    if hk not in cache:
        b = prop.run(v, ctx, {"heap": BASE_HEAP, "threads": [[o]], "world": "py"})
        cache[hk] = None if b is None else b.res[(0, 0)]
    return cache[hk]


def walk(out, threads):
    """results in the order in which the calls of each thread ended: (tid, path, op, result)"""
    for key, res in out.res.items():
        tid = key[0]
        path = list(key[1:])
        o = threads[tid][path[0]]
        for j in range(2, len(path), 2):
            o = o["nest"][path[j]]
        yield tid, path, o, res


def side_effects(v, o, res, what=""):
    if res.mod:
        v.fail("argument", "%s%s: %s" % (what, o["k"], res.mod))
    if res.chg:
        v.fail("result_changed", "%s%s: %s" % (what, o["k"], res.chg))
    if res.odd:
        v.fail("result_form", "%s%s: %s" % (what, o["k"], res.odd))
    if res.raised == "SystemError":
        v.fail("exception", "%s%s: broken exception: %s" % (what, o["k"], res.exc))


def py_gens(r, n, slots=3, cyc=True):
    """generator histories as Python sees them"""
    out = []
    for o in gen_ops(r, n, slots=slots, maxdim=30, maxskip=400):
        if o["k"] == "sreset":
            o = {"k": "sbuf", "n": [o["n"][0], 1]}
        if o["k"] in ("sop", "sskip"):
            o = {"k": "sbuf", "n": [o["n"][0], 1 + o["n"][1] % 5]}
        if o["k"] == "sdel" and cyc and r.chance(0.5):
            o = dict(o, cyc=1)
        out.append(o)
        if r.chance(0.08):
            out.append({"k": "gc"})
    return out


def judge_all_generators(v, out, threads, what=""):
    """generator calls of each thread, nested ones included, against the model"""
    from .sobol import judge_gen
    slots = [dict() for _ in threads]
    for tid, path, o, res in walk(out, threads):
        if o["k"] in ("snew", "sbuf", "sdel") and o["n"][0] < 100:
            judge_gen(v, slots[tid], o, res, what)


def judge_shared(v, out, threads, sgen):
    """generators used by several threads: together they must be given every point once, each of them in order"""
    for g, (dim, skip) in enumerate(sgen):
        start = ref.skip_count(skip) if skip > 0 else 0
        got = []
        for tid, path, o, res in walk(out, threads):
            if o["k"] == "sbuf" and o["n"][0] == 100 + g:
                if not res.ok:
                    return v.fail("shared_gen", "thread %d: a generator shared by threads raised %r" % (tid, res.exc))
                got += [(tid, res.iv[j:j + dim]) for j in range(0, len(res.iv), dim)]
        want = {tuple(ref.sobol_point(start + 1 + j, dim)): j for j in range(len(got))}
        v.facts["gen.shared_points"] += len(got)
        last = {}
        for tid, x in got:
            j = want.pop(tuple(x), None)
            if j is None:
                return v.fail("shared_gen", "threads sharing a generator of dimension %d were not given its first %d points once each" % (dim, len(got)))
            if j < last.get(tid, -1):
                return v.fail("shared_gen", "thread %d was given points of a shared generator out of order" % tid)
            last[tid] = j


class C05(Prop):
    id = "C05"
    worlds = ("py",)
    count = {"quick": 5000, "thorough": 200000}
    components = COMP_PY
    rule = ("1-3 (now and then up to 7) Python threads in one process, each making 1-4 solver calls and generator steps whose arguments call back (__array__, __index__, "
            "__float__, finalisers of temporaries): a callback may switch threads, collect garbage and call humanleague again (two levels, now and then up to eight); threads may "
            "also share argument objects; wherever the library lets go of the interpreter lock, it may be preempted at any instruction; every call is "
            "compared bit for bit with the same call alone, every generator with its reference; non-trivial: a nested call or a thread switch inside a call happened")
    probes = ["nested", "switched", "callback.gc", "gen.points", "shared", "gen.shared_points"]
    assumptions = ["g++ -O1 build with coverage callbacks (binding layer excepted) behaves as the shipped build does",
                   "with the interpreter lock held no other Python thread runs, so threads switch only in callbacks, between calls and wherever the library releases it"]

    def call(self, r, depth=0, like=None, deepest=2):
        w = r.weighted([("call", 5), ("gen", 3)])
        if w == "gen":
            o = r.pick([{"k": "snew", "n": [r.below(2), r.rng(1, 12), r.pick([0, 0, r.small(40)])]}, {"k": "sbuf", "n": [r.below(2), r.rng(1, 4)]},
                        {"k": "sbuf", "n": [r.below(2), r.rng(1, 4)]}])
        elif like and like["k"] in gen.VARIABLE and r.chance(0.4):
            o = gen.variant(r, {x: y for x, y in like.items() if x not in ("nest", "cbgc")})
        else:
            o = small_call(r)
        o["rep"] = reps.rep(r, o, True)
        if is_call(o) and r.chance(0.3):
            o["hold"] = 1
        if depth < deepest and r.chance(0.6 if depth == 0 else 0.3 if deepest < 3 else 0.8):
            o["nest"] = [self.call(r, depth + 1, o, deepest) for _ in range(r.rng(1, 2) if deepest < 3 else 1)]
            if o["k"] == "qis" or o["k"] == "qisi" or o["k"] == "ipf":
                # make sure something calls back
                m = o["rep"]["m"]
                m[r.below(len(m))] = r.pick(["lazy", "tmp", "lazy.f8.F", "tmp.O"])
            elif o["k"] in ("igr", "ig1", "flat"):
                o["rep"]["seed"] = r.pick(["lazy", "tmp", "lazy.F"])
            elif o["k"] == "snew":
                o["rep"]["int"] = "ix"
        if r.chance(0.15):
            o["cbgc"] = 1
        if r.chance(0.2) and is_call(o) and o["k"] in ("qis", "qisi", "igr") and not o.get("nest"):
            o["draw"] = gen.gen_draw(r)
        return o

    def plan(self, r, tier, i):
        nt = r.weighted([(1, 2), (2, 5), (3, 2), (r.rng(4, 7), 0.25)])
        first = small_call(r) if r.chance(0.5) else None
        deepest = r.rng(3, 8) if r.chance(0.05) else 2
        th = [[{"k": "snew", "n": [0, r.rng(1, 8), r.small(20)]}] * (r.chance(0.5)) + [self.call(r, 0, first, deepest) for _ in range(r.rng(1, 4 if nt < 4 and deepest < 3 else 2))] for _ in range(nt)]
        if nt > 1 and r.chance(0.2):
            th = [th[0]] * nt
        p = {"world": "py", "heap": gen.gen_heap(r), "threads": th,
             "sched": {"seed": r.u64() >> 1, "mean": r.weighted([(30, 1), (1000, 2), (20000, 1)]), "ppm": r.pick([300000, 700000, 1000000])}}
        if nt > 1 and r.chance(0.3):
            sh = []
            for t in range(nt):
                for k, o in enumerate(th[t]):
                    if is_call(o) and not o.get("nest") and r.chance(0.6):
                        if sh and r.chance(0.6):
                            s = r.below(len(sh))
                            th[t] = th[t][:k] + [dict(plain(sh[s]), shared=s)] + th[t][k + 1:]
                        else:
                            so = plain(o)
                            so["rep"] = reps.rep(r, o)
                            sh.append(so)
                            th[t] = th[t][:k] + [dict(plain(o), shared=len(sh) - 1)] + th[t][k + 1:]
            if sh:
                p["shared"] = sh
        if r.chance(0.4):
            p["gc"] = [r.rng(1, 10), 2, 2]
        if nt > 1:
            p["_mt"] = 1
            if r.chance(0.3):
                p["sgen"] = [[r.weighted([(r.rng(1, 6), 2), (r.rng(1, 80), 1)]), r.pick([0, r.small(40)])] for _ in range(r.rng(1, 2))]
                p["threads"] = th = [list(t) for t in th]
                for t in th:
                    for _ in range(r.rng(1, 3)):
                        o = {"k": "sbuf", "n": [100 + r.below(len(p["sgen"])), r.rng(1, 6)]}
                        # on its own, or from inside another call
                        host = [x for x in t if x.get("nest")]
                        if host and r.chance(0.3):
                            k = t.index(r.pick(host))
                            t[k] = dict(t[k], nest=t[k]["nest"] + [o])
                        else:
                            t.insert(r.below(len(t) + 1), o)
        return p

    def evaluate(self, plan, ctx):
        v = Verdict()
        th = plan["threads"]
        out = self.run(v, ctx, plan)
        if out is None:
            # abnormal: is it so without company?
            if len(th) > 1 or any(o.get("nest") for t in th for o in t):
                bad = v.viol
                for t in th:
                    v.viol = None
                    if self.run(v, ctx, dict(plan, threads=[[{k: x for k, x in o.items() if k != "nest"} for o in t]], sched=None)) is None:
                        v.viol = None
                        v.facts["solo_abnormal"] += 1
                        return v
                v.viol = bad
            else:
                v.viol = None
            return v
        if out.switches:
            v.plan2 = dict(plan, sched=dict(plan["sched"], list=out.switches))
        inside = sum(1 for s in out.switches if s[0] in (0, 1))
        v.facts["switched"] += inside
        cache = {}
        for tid, path, o, res in walk(out, th):
            v.facts["nested"] += len(path) > 1
            v.facts["callback.gc"] += bool(o.get("cbgc"))
            v.facts["shared"] += o.get("shared") is not None
            v.nt = v.nt or len(path) > 1 or inside > 1
            where = "thread %d, operation %s: " % (tid, "/".join(str(x) for x in path))
            side_effects(v, o, res, where)
            if is_call(o):
                b = fresh(self, v, ctx, plain(o), cache)
                if b is None:
                    v.viol = None
                    v.facts["solo_abnormal"] += 1
                    return v
                if b.key() != res.key():
                    v.fail("differs", "%s%s: %s, %s alone" % (where, o["k"], show(res), show(b)))
        judge_all_generators(v, out, th)
        judge_shared(v, out, th, plan.get("sgen") or [])
        if len(th) > 1:
            v.key = h64([out.ilhash, h64([sorted(plain(o).items(), key=str) for t in th for o in t])])
        return v


class C08(Prop):
    id = "C08"
    worlds = ("core", "py")
    count = {"quick": 4000, "thorough": 150000}
    components = COMP_PY
    rule = ("one call passed in 3-8 other ways: 22 element types, 13 memory layouts, lists, tuples, rows, objects converted on the fly (temporaries with "
            "finalisers), keywords, numpy integers, one object in several places, the same objects again; with garbage collections, recycled poisoned "
            "storage under numpy and the library, and arguments overwritten and freed after the call; results must be bit for bit those of plain arrays "
            "and agree with the C++ core, arguments must be unchanged, results must stay valid; non-trivial: at least two other representations accepted")
    probes = ["variants", "again", "held", "core.agrees", "layout.nontrivial"]
    assumptions = C05.assumptions

    def plan(self, r, tier, i):
        o = gen.rand_call(r, 30, None) if r.chance(0.25) else small_call(r)
        if o["k"] in ("ipf", "qisi") and prod(o["seedsz"]) * len(o["m"]) > 400:
            o = small_call(r)
        large = r.chance(0.03)
        if large:
            # results of thousands of elements
            while True:
                sz = [r.rng(2, 110) for _ in range(r.rng(2, 3))]
                if 1000 <= prod(sz) <= 9000:
                    break
            c = [0] * prod(sz)
            for _ in range(r.rng(1, 12)):
                c[r.below(len(c))] += 1
            ix = [[d] for d in range(len(sz))]
            pr = {"sizes": sz, "idx": ix, "m": [reduce_to(c, sz, i) for i in ix], "hidden": c, "joint": True}
            k = r.weighted([("qis", 3), ("ipf", 2), ("qisi", 1), ("flat", 1)])
            if k == "qisi" and prod(sz) > 2500:
                k = "qis"
            o = mkqis(pr, r.small(9)) if k == "qis" else gen.op("flat", asz=sz, a=c) if k == "flat" else \
                gen.op_ipf(pr, [1.0] * len(c), 1.0) if k == "ipf" else mkqisi(pr, [float(r.rng(1, 3)) for _ in c], r.small(9))
        elif r.chance(0.06):
            from .requests import malformed
            while True:
                w, o = malformed(r)
                if py_able(o) and o["k"] != "snew":
                    break
        if o["k"] in ("qis", "qisi", "igr") and r.chance(0.4):
            o["draw"] = gen.gen_draw(r)
        o = plain(o)
        ops = [dict(o, hold=1)]
        for j in range(2 if large else r.rng(3, 8)):
            w = r.weighted([("rep", 7), ("again", 1), ("other", 0.7)])
            if w == "other":
                ops.append(dict(small_call(r), _other=1))
            elif w == "again" and any("keep" in x for x in ops):
                ops.append(dict(o, again=r.pick([x["keep"] for x in ops if "keep" in x])))
            else:
                n = dict(o, rep=reps.rep(r, o, r.chance(0.3)))
                if r.chance(0.25):
                    n["keep"] = j
                if r.chance(0.6):
                    n["hold"] = 1
                if r.chance(0.2):
                    n["cbgc"] = 1
                if r.chance(0.2):
                    n["gcafter"] = 1
                ops.append(n)
        if r.chance(0.25):
            # points must stay as they were given too
            k = r.below(len(ops) + 1)
            ops.insert(k, {"k": "snew", "n": [0, r.rng(1, 5), r.small(9)], "_other": 1})
            for _ in range(r.rng(1, 3)):
                k = r.rng(k + 1, len(ops))
                ops.insert(k, {"k": "sbuf", "n": [0, r.rng(1, 3)], "hold": 1, "_other": 1})
        p = {"world": "py", "heap": gen.gen_heap(r), "threads": [ops]}
        if r.chance(0.3):
            p["gc"] = [r.rng(1, 10), 2, 2]
        return p

    def evaluate(self, plan, ctx):
        v = Verdict()
        ops = plan["threads"][0]
        out = self.run(v, ctx, plan)
        if out is None:
            return v
        base = None
        for k, o in enumerate(ops):
            if o.get("_other"):
                continue
            b = fresh(self, v, ctx, plain(o), {})
            if b is None:
                return v
            base = b
            c = ctx.core({"heap": BASE_HEAP, "threads": [[plain(o)]]})
            if not c.fatal() and c.res:
                cr = c.res[(0, 0)]
                v.facts["core.agrees"] += 1
                if cr.ok != base.ok or cr.ok and not agree(o, cr, base):
                    v.fail("core", "%s: %s in Python, %s in the core" % (o["k"], show(base), show(cr)))
            break
        n = 0
        for k, o in enumerate(ops):
            res = out.res[(0, k)]
            side_effects(v, o, res, "operation %d: " % k)
            if o.get("_other"):
                continue
            v.facts["again"] += o.get("again") is not None
            v.facts["held"] += bool(o.get("hold"))
            if o.get("rep"):
                v.facts["variants"] += 1
                v.facts["layout.nontrivial"] += any(t in str(o["rep"]) for t in ("neg", "str", ".F", ".T", ".un", "bc"))
                n += res.ok
            same = res.key() == base.key() if base.ok else not res.ok
            if not same:
                v.fail("differs", "%s passed as %s: %s, %s from plain arrays" % (o["k"], o.get("rep") or "the same objects again", show(res), show(base)))
        v.nt = n >= 2
        return v

    def shrinks(self, plan):
        ops = plan["threads"][0]
        for k, o in enumerate(ops):
            rp = o.get("rep")
            if not rp:
                continue
            for f in list(rp):
                yield dict(plan, threads=[ops[:k] + [dict(o, rep={a: b for a, b in rp.items() if a != f})] + ops[k + 1:]])
                if isinstance(rp[f], list):
                    for j, x in enumerate(rp[f]):
                        if x:
                            yield dict(plan, threads=[ops[:k] + [dict(o, rep=dict(rp, **{f: rp[f][:j] + [None] + rp[f][j + 1:]}))] + ops[k + 1:]])
        yield from shrink_generic(plan)


def close(a, b):
    return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(abs(a), abs(b)) or abs(a - b) < 1e-13


def agree(o, c, p):
    """core and Python results of one call"""
    if o["k"] == "ipf":
        return c.sizes == p.sizes and all(close(x, y) for x, y in zip(c.dv, p.dv)) and c.si[0] == p.si[0]
    if o["k"] == "igr" and len(p.si) == 0:
        return c.sizes == p.sizes and c.iv == p.iv
    ci, ps = list(c.si), list(p.si)
    return c.sizes == p.sizes and c.iv == p.iv and ci[:len(ps)] == ps and len(c.dv) == len(p.dv) and all(close(x, y) for x, y in zip(c.dv, p.dv)) and \
        all(close(x, y) for x, y in zip(c.st, p.st))


def py_able(o):
    """can the request be put in terms of numpy arrays?"""
    shapes = list(o.get("msz") or [])
    for s, x in zip(o.get("msz") or [], o.get("m") or []):
        if not s or min(s) < 1 or prod(s) != len(x):
            return False
    if "seedsz" in o and (not o["seedsz"] or min(o["seedsz"]) < 1 or prod(o["seedsz"]) != len(o["seed"])):
        return False
    if "asz" in o and (not o["asz"] or min(o["asz"]) < 1 or prod(o["asz"]) != len(o["a"])):
        return False
    if o["k"] == "ig1" and not o["x"]:
        return False
    return True


# ------------------------------------------------------------------------------------------------ C04
def sobol_plan(r, tier):
    nt = r.weighted([(1, 4), (2, 1)])
    th = []
    for _ in range(nt):
        ops = []
        for o in py_gens(r, r.rng(5, 25), slots=r.rng(1, 5)):
            if o["k"] == "sbuf" and r.chance(0.05):
                o["draw"] = [0, 0, r.small(o["n"][1])]
            elif o["k"] in ("snew", "sbuf") and r.chance(0.1):
                o["oom"] = [r.rng(1, 8), r.rng(1, 3), 0, 0]
            if o["k"] == "snew" and r.chance(0.03):
                o["n"] = [o["n"][0], r.rng(1, 4), (1 << r.rng(10, 18)) + r.rng(0, 3)]
            if o["k"] == "snew" and r.chance(0.3):
                o["rep"] = reps.rep(r, o)
            if o["k"] == "sbuf" and r.chance(0.4):
                o["hold"] = 1
            ops.append(o)
            if r.chance(0.12):
                c = opt_faults(r, small_call(r, [("qis", 2), ("qisi", 1), ("igr", 1)]), 0.2, 0.2)
                if r.chance(0.4):
                    c["rep"] = reps.rep(r, c, True)
                    c["cbgc"] = r.below(2)
                    c["nest"] = [{"k": "sbuf", "n": [r.below(3), r.rng(1, 3)]}]
                    c.pop("oom", None)
                    c.pop("draw", None)
                ops.append(c)
        th.append(ops)
    p = {"world": "py", "heap": gen.gen_heap(r), "threads": th, "sched": {"seed": r.u64() >> 1, "mean": 300, "ppm": 600000}}
    if r.chance(0.3):
        p["gc"] = [r.rng(1, 10), 2, 2]
    return p


def sobol_evaluate(self, plan, ctx):
    v = Verdict()
    out = self.run(v, ctx, plan)
    if out is None:
        return v
    if out.switches:
        v.plan2 = dict(plan, sched=dict(plan["sched"], list=out.switches))
    judge_all_generators(v, out, plan["threads"], "Python: ")
    for tid, path, o, res in walk(out, plan["threads"]):
        if res.chg and o["k"] == "sbuf":
            v.fail("value", "a point returned earlier changed afterwards")
        v.facts["calls.between"] += is_call(o)
    v.facts["py"] += 1
    v.nt = v.facts["gen.points"] >= 3
    return v


# ------------------------------------------------------------------------------------------------ C07
def oom_plan(r, tier):
    o = small_call(r)
    if r.chance(0.15):
        o = {"k": "snew", "n": [3, r.rng(1, 40), r.small(30)]}
    if o["k"] in ("qis", "qisi", "igr") and r.chance(0.2):
        o["draw"] = gen.gen_draw(r)
    if r.chance(0.6):
        o["rep"] = reps.rep(r, o)
    pos = []
    for _ in range(r.rng(2, 8)):
        pos.append(r.weighted([(("one", r.unit()), 5), (("run", r.unit(), r.rng(2, 6)), 1), (("all", r.unit()), 1),
                               (("ppm", r.pick([500, 5000, 50000, 300000]), r.u64() >> 1), 1), (("early", r.rng(1, 30)), 3), (("same", 0), 2), (("late", r.rng(0, 25)), 2)]))
    return {"world": "py", "heap": gen.gen_heap(r), "op": o, "pos": pos, "gens": py_gens(r, 3, 2, False), "threads": None,
            "more": [{"k": "sbuf", "n": [0, 2], "oom": [r.rng(1, 4), 1, 0, 0]}, {"k": "sbuf", "n": [1, 2]}, {"k": "sbuf", "n": [0, 2]}]}


def oom_evaluate(self, plan, ctx):
    v = Verdict()
    o = {k: x for k, x in plan["op"].items() if k != "oom"}
    b = self.run(v, ctx, {"heap": BASE_HEAP, "threads": [[dict(o, oom=[1 << 60, 1, 0, 0])]], "world": "py"})
    if b is None:
        v.viol = None
        v.facts["solo_abnormal"] += 1
        return v
    base = b.res[(0, 0)]
    pos = [["one", 1 - p[1] / max(1, base.allocs) - 1e-9] if p[0] == "late" else p for p in plan["pos"]]
    faults = self.resolve(pos, base.allocs)
    ops = list(plan["gens"]) + [dict(o, oom=f) for f in faults] + [o] + list(plan["more"]) + [o]
    out = self.run(v, ctx, {"heap": plan["heap"], "threads": [ops], "world": "py"})
    if out is None:
        return v
    g = len(plan["gens"])
    for k, f in enumerate(faults):
        res = out.res[(0, g + k)]
        side_effects(v, o, res)
        v.facts["oom.hit"] += res.fired > 0
        v.facts["py.oom.hit"] += res.fired > 0
        v.nt = v.nt or res.fired > 0
        if res.ok or not base.ok:
            v.facts["oom.survived"] += res.fired > 0 and res.ok
            if (not res.fired or res.ok) and res.key() != base.key():
                v.fail("result", "Python %s under allocation failure %s: %s, normally %s" % (o["k"], f, show(res), show(base)))
        else:
            v.facts["oom.raised"] += 1
            if not res.fired:
                v.fail("raised", "Python %s raised %r although no allocation of its own failed" % (o["k"], res.exc))
            elif res.raised not in ("MemoryError", "TypeError", "ValueError", "RuntimeError", "IndexError", "OverflowError"):
                v.fail("exception", "Python %s under allocation failure %s raised %s" % (o["k"], f, res.exc))
        if k and faults[k - 1] == f and o["k"] != "snew":
            v.facts["leak.checked"] += 1
            if res.live > 0 and out.res[(0, g + k - 1)].live > 0:
                v.fail("leak", "Python %s under allocation failure %s keeps %d blocks every time" % (o["k"], f, res.live))
    for k in range(g + len(faults), len(ops)):
        if ops[k] is o and o["k"] != "snew":
            v.facts["after"] += 1
            res = out.res[(0, k)]
            if res.key() != base.key():
                v.fail("later", "Python %s after failed calls: %s, normally %s" % (o["k"], show(res), show(base)))
    judge_generators(v, ops, out, 0, "Python, around failed calls: ")
    return v


# ------------------------------------------------------------------------------------------------ C09
def history_plan(r, tier):
    ops = []
    for _ in range(r.rng(3, 9)):
        w = r.weighted([("call", 5), ("gen", 1), ("bad", 1), ("mal", 1), ("rep", 2), ("var", 3)])
        if w == "var":
            c = [o for o in ops if o["k"] in gen.VARIABLE and "_ok" in o]
            if c:
                ops.append(dict(gen.variant(r, r.pick(c)), _ok=1))
        elif w == "call":
            o = dict(small_call(r), _ok=1)
            if r.chance(0.3):
                o["draw"] = gen.gen_draw(r)
            ops.append(o)
        elif w == "gen":
            ops += py_gens(r, r.rng(2, 6), 2)
        elif w == "bad":
            ops.append(opt_faults(r, small_call(r), 0.7, 0.5))
        elif w == "mal":
            ops.append(py_malformed(r)[1])
        else:
            c = [o for o in ops if is_call(o)]
            if c:
                ops += [solo(r.pick(c))] * r.rng(1, 3)
        if r.chance(0.03):
            ops += [{"k": "ut"}] * r.rng(1, 3)
    return {"world": "py", "heap": gen.gen_heap(r), "threads": [[dict(o, rep=reps.rep(r, o)) if r.chance(0.5) and py_able(o) else o for o in ops]]}


def history_evaluate(self, plan, ctx):
    v = Verdict()
    ops = plan["threads"][0]
    out = self.run(v, ctx, plan)
    if out is None:
        return v
    failed = False
    cache = {}
    for k, o in enumerate(ops):
        res = out.res[(0, k)]
        if not is_call(o):
            continue
        v.facts["reused"] += plan["heap"]["reuse"] in (0, 3)
        if not res.fired:
            q = solo(o)
            v.facts["repeat"] += h64(q) in cache
            b = fresh(self, v, ctx, q, cache)
            if b is None:
                return v
            v.facts["after_failure"] += failed
            if b.key() != res.key():
                v.fail("differs", "Python %s (operation %d): %s here, %s in a fresh process" % (o["k"], k, show(res), show(b)))
                return v
        failed = failed or not res.ok
        prev = [j for j in range(k) if ops[j]["k"] == o["k"] and h64(ops[j]) == h64(o)]
        if len(prev) >= 2:
            v.facts["leak.checked"] += 1
            if res.live > 0 and out.res[(0, prev[-1])].live > 0:
                v.fail("leak", "Python %s keeps %d blocks every time it is called (%s)" % (o["k"], res.live, show(res)))
    judge_all_generators(v, out, [ops], "Python, between other calls: ")
    v.nt = sum(1 for x in out.res.values() if x.ok) >= 3
    return v


# ------------------------------------------------------------------------------------------------ C10
def py_malformed(r):
    from .requests import malformed
    if r.chance(0.5):
        while True:
            w, o = malformed(r)
            if py_able(o):
                return "Python " + w, o
    I = {"l": [{"np": [0]}, {"np": [1]}]}
    M = {"l": [{"np": [3, 4]}, {"np": [2, 5]}]}
    F = {"l": [{"np": [3, 4], "dt": "f8"}, {"np": [2, 5], "dt": "f8"}]}
    S = {"np": [1, 1, 1, 1], "dt": "f8", "sz": [2, 2]}
    bad = r.pick([{"none": 1}, "x", {"obj": 1}, {"raise": 1}, {"badarr": 1}, {"d": 1}, {"cyc": 1}, {"l": ["a", "b"]}, {"l": [{"l": [1, 2]}, {"l": [4]}]}])
    n0 = {"np": 3}
    badn = r.pick(["x", {"none": 1}, {"big": 70}, {"raise": 1}, {"np": [1, 2]}, 1.5, {"obj": 1}, {"nan": 1}])
    fn = r.pick(["qis", "qis", "qisi", "qisi", "ipf", "integerise", "flatten", "SobolSequence"])
    if fn == "qis":
        a = r.pick([[bad, M], [I, bad], [I, {"l": [{"np": [3, 4]}, bad]}], [{"l": [{"np": [0]}, bad]}, M], [I, M, badn], [I], [], [I, M, 1, 2], [I, M, -1],
                    [I, {"l": [n0, n0]}], [{"l": [{"np": 0}, {"np": 1}]}, M], [I, {"l": [{"zeros": [0]}, {"zeros": [0]}]}], [I, {"l": [{"zeros": [2, 0]}, {"zeros": [0]}]}],
                    [{"l": [{"zeros": [0]}, {"np": [1]}]}, M], [I, {"l": []}], [{"l": []}, {"l": []}], [{"l": [{"np": [0], "sz": [1, 1]}, {"np": [1]}]}, M]])
    elif fn in ("qisi", "ipf"):
        m = M if fn == "qisi" else F
        a = r.pick([[bad, I, m], [S, bad, m], [S, I, bad], [S, I, {"l": [{"np": [3, 4]}, bad]}], [n0, I, m], [{"zeros": [0, 2], "dt": "f8"}, I, m], [{"zeros": [2, 2, 1], "dt": "f8"}, I, m],
                    [{"zeros": [4], "dt": "f8"}, I, m], [S, I], [S], [S, {"l": []}, {"l": []}], [S, I, {"l": [n0, n0]}], [{"np": [1, 1, 1, 1, 1, 1], "dt": "f8", "sz": [2, 3]}, I, m],
                    [S, I, m] + ([badn] if fn == "qisi" else [3])])
    elif fn == "integerise":
        f = {"np": [1, 2, 3], "dt": "f8"}
        a = r.pick([[bad], [n0], [{"zeros": [0], "dt": "f8"}], [{"zeros": [0, 3], "dt": "f8"}], [f, -r.rng(1, 5)], [f, badn], [f, {"big": 40}], [bad, 5], [n0, 5], [{"zeros": [0], "dt": "f8"}, 5],
                    [{"zeros": [3], "dt": "f8"}, 5], [S, 5], [], [f, 3, 4], [{"np": [0.5, 0.25], "dt": "f8"}], [{"np": [1, 2], "dt": "f8"}, 1 << 31],
                    [{"l": [1.0, {"nan": 1}]}, 5], [{"l": [1.0, {"nan": 1}]}], [{"l": [0.5, -0.5, 1.0]}, 5], [{"np": [1e308, 1e308, 1.0], "dt": "f8"}, 10]])
    elif fn == "flatten":
        a = r.pick([[bad], [n0], [{"zeros": [0]}], [{"zeros": [0, 2]}], [], [{"np": [1, -1, 2]}], [{"np": [3, -1], "sz": [2, 1]}], [{"np": [1, 2]}, 3],
                    [{"np": [1 << 62] * 4}], [{"np": [1 << 62] * 4, "sz": [2, 2]}], [{"np": [1 << 62, 1 << 62, 1 << 62, (1 << 62) + 3]}]])
    else:
        a = r.pick([[0], [1112], [-1], [badn], [2, badn], [2, -1], [2, {"big": 32}], [{"big": 33}], [{"big": 64}], [], [1, 2, 3], [{"big": 32}, 1]])
    return "Python %s of %s" % (fn, str(a)[:160]), {"k": "raw", "fn": fn, "args": a}


def request_plan(r, tier):
    ops = []
    for _ in range(r.rng(2, 6)):
        if r.chance(0.75):
            w, o = py_malformed(r)
            if o["k"] != "raw" and o["k"] != "snew" and r.chance(0.5):
                o = dict(o, rep=reps.rep(r, o))
            ops.append(dict(o, _reject=w))
            if r.chance(0.15):
                ops += [ops[-1]] * 2
        else:
            o = small_call(r)
            o["draw"] = gen.gen_draw(r)
            o["rep"] = reps.rep(r, o)
            ops.append(opt_faults(r, o, 0.05, 0.1))
    return {"world": "py", "heap": gen.gen_heap(r), "threads": [ops + [dict(small_call(r), _follow=1)]], "memlimit": 256 << 20}


def request_evaluate(self, plan, ctx):
    v = Verdict()
    out = self.run(v, ctx, plan)
    if out is None:
        return v
    ops = plan["threads"][0]
    for k, o in enumerate(ops):
        res = out.res[(0, k)]
        side_effects(v, o, res)
        if o.get("_reject"):
            v.nt = True
            v.facts["rejected"] += 1
            v.facts["rejected.py"] += 1
            if res.ok:
                v.fail("accepted", "%s was accepted: %s" % (o["_reject"], show(res)))
            if k >= 2 and ops[k - 1] is o and ops[k - 2] is o or k >= 2 and h64(ops[k - 1]) == h64(o) == h64(ops[k - 2]):
                v.facts["leak.checked"] += 1
                if res.live > 0 and out.res[(0, k - 1)].live > 0:
                    v.fail("leak", "%s keeps %d blocks every time" % (o["_reject"], res.live))
        elif o.get("_follow"):
            b = fresh(self, v, ctx, plain(o), {})
            if b is None:
                return v
            v.facts["follow"] += 1
            if b.key() != res.key():
                v.fail("later", "Python %s after these requests: %s, in a fresh process %s" % (o["k"], show(res), show(b)))
        else:
            v.facts["wellformed.returned" if res.ok else "wellformed.raised"] += 1
    return v


# ------------------------------------------------------------------------------------------------ C12
def flat_plan(r, tier):
    ops = []
    for j in range(r.rng(1, 3)):
        if r.chance(0.5):
            src = small_call(r, [("qis", 3), ("qisi", 2), ("igr", 2)])
            src["draw"] = gen.gen_draw(r)
            ops.append(dict(src, save=j, rep=reps.rep(r, src)))
            f = {"k": "flat", "res": j, "_src": len(ops) - 1}
            for _ in range(r.below(3)):
                ops.append(dict(f, oom=[r.rng(1, 20), 1, 0, 0]))
        else:
            sz = gen.gen_sizes(r, True) if r.chance(0.85) else [r.rng(1, 30)]
            f = gen.op("flat", asz=sz, a=gen.gen_population(r, sz, r.weighted([(20, 2), (150, 3), (2000, 0.5)])))
            for _ in range(r.below(3)):
                ops.append(dict(f, oom=[r.rng(1, 20), 1, 0, 0]))
            if r.chance(0.7):
                f = dict(f, rep=reps.rep(r, f, r.chance(0.3)))
        if r.chance(0.2):
            ops.append(opt_faults(r, small_call(r), 0.3, 0.2))
        ops.append(dict(f, hold=1))
    return {"world": "py", "heap": gen.gen_heap(r), "threads": [ops]}


def flat_evaluate(self, plan, ctx):
    v = Verdict()
    ops = plan["threads"][0]
    out = self.run(v, ctx, plan)
    if out is None:
        return v
    for k, o in enumerate(ops):
        if o["k"] != "flat":
            continue
        res = out.res[(0, k)]
        if "_src" in o:
            src = out.res[(0, o["_src"])]
            if not src.ok:
                continue
            o = dict(o, asz=src.sizes, a=src.iv)
            v.facts["flat.sampled"] += 1
            if min(src.iv) < 0:
                continue
        side_effects(v, o, res)
        if not res.ok:
            v.facts["flat.failed"] += 1
            if not res.fired:
                v.fail("raised", "Python flatten raised %r" % res.exc)
            continue
        nc = res.sizes[0]
        rows = res.sizes[1]
        if res.meta[2] != 1 and nc > 1:
            v.fail("form", "columns of different lengths")
            continue
        cols = [res.iv[j * rows:(j + 1) * rows] for j in range(nc)]
        v.facts["flat.checked"] += 1
        v.facts["flat.large"] += rows > 1000
        x = oracle.flat(o, cols)
        if x:
            v.fail(x[0], "Python: " + x[1])
        v.nt = v.nt or rows >= 2
    return v


PROPS = [C05, C08]
