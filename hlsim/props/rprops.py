"""C11: the R front end, in a real R session whose collections and library allocations are simulated."""
from .. import rworld
from .base import *

REAL_R = ("real: the package's C++ sources, its R code, Rcpp and R itself; simulated: when R collects garbage (gctorture schedules, finalisers, explicit "
          "collections), the library's heap and its failures, exhaustion of the generator and delivered points where overridden; reference: the C++ core in its own process")


def rrep(r, o):
    rep = {}
    if r.chance(0.3):
        rep["named"] = 1
    if r.chance(0.5):
        rep["idx"] = [r.pick(["", "d", "r"]) for _ in o.get("idx", [])]
    if r.chance(0.7):
        rep["m"] = ["".join(r.pick(["", c]) for c in "dvntx") for _ in o.get("m", [])]
    if r.chance(0.6):
        s = "".join(r.pick(["", c]) for c in "nx") + ("v" if r.chance(0.5) and o["k"] == "flat" else "") + ("d" if o["k"] == "flat" and r.chance(0.3) else "")
        if o["k"] != "flat" and all(x == int(x) for x in o.get("seed", [0.5])) and r.chance(0.5):
            s += "i"
        rep["seed"] = s
    if r.chance(0.5):
        rep["noskip"] = 1
    if r.chance(0.2):
        rep["int"] = "d"
    if o["k"] == "flat" and r.chance(0.5):
        # repeated, empty, prefixes of one another, more than needed
        n = len(o["asz"])
        w = r.below(4)
        rep["names"] = [r.pick(["a", "b", ""]) for _ in range(n)] if w == 0 else ["x" * (1 + (n - j if w == 1 else j)) for j in range(n)] if w < 3 else \
            ["k%d" % (j * 7 % 11) for j in range(n + 2)]
    return rep


def gct(r):
    return [r.weighted([(1, 1), (2, 1), (5, 2), (17, 3), (60, 2)]), r.weighted([(0, 1), (r.rng(1, 40), 3), (r.rng(40, 400), 1)])]


def call(r):
    k = r.weighted([("solve", 9), ("sob", 2), ("ig1", 2), ("flat", 2)])
    if k == "sob":
        return gen.op("sob", n=[r.weighted([(r.rng(1, 8), 5), (r.rng(1, 120), 1), (1111, 0.2)]), r.rng(0, 12), r.pick([0, 0, 1, 2, r.rng(1, 300), 1000])])
    if k == "ig1":
        n = r.rng(1, 9)
        w = [r.small(30) for _ in range(n)]
        q = 1
        while q < sum(w) + 1:
            q *= 2
        w[r.below(n)] += q - sum(w)
        if r.chance(0.4):
            # only nearly one in total
            w[0] += 1
            q = sum(w)
        return gen.op("ig1", x=[x / q for x in w], pop=r.weighted([(r.rng(0, 40), 4), (r.rng(0, 100000), 1)]))
    if k == "flat":
        sz = gen.gen_sizes(r)
        return gen.op("flat", asz=sz, a=gen.gen_population(r, sz, r.weighted([(10, 2), (60, 1)])))
    if r.chance(0.06):
        # more dimensions than there are digits
        pr = gen.many_dims(r)
        k = r.weighted([("qis", 2), ("qisi", 1), ("ipf", 1.5)])
        o = mkqis(pr, gen.gen_skips(r)) if k == "qis" else mkqisi(pr, gen.gen_seed(r, pr), r.small(9)) if k == "qisi" else gen.op_ipf(pr, gen.gen_seed(r, pr), 1.0)
    else:
        o = small_call(r, [("qis", 5), ("qisi", 3), ("igr", 2), ("ipf", 2)])
    if o["k"] in ("qis", "qisi", "igr") and r.chance(0.4):
        o["draw"] = gen.gen_draw(r, 0.7)
    if o["k"] == "ipf":
        o["_sizes"] = o["seedsz"]
    if o.get("skips", 0) > 2 ** 31 - 1:
        o["skips"] = 77
    return o


def c(v, dbl=False):
    return rworld.rvec(v, dbl)


def malformed(r):
    """(what, function, R arguments): requests that must be rejected"""
    good_i, good_m = ["c(1L)", "c(2L)"], ["c(2L,3L,1L)", "c(4L,2L)"]
    seed = "array(c(1,2,3,4,5,6),dim=c(3L,2L))"
    if r.chance(0.3):
        good_i, good_m = ["c(1L,2L)", "c(2L,3L)"], ["array(1:4,dim=c(2L,2L))", "array(c(1L,2L,2L,5L),dim=c(2L,2L))"]
        seed = "array(c(1,2,3,4,5,6,7,8),dim=c(2L,2L,2L))"
    fn = r.pick(["qis", "qisi", "ipf"])
    i, m, sk = list(good_i), list(good_m), None
    w = r.pick(["few_m", "few_i", "negative", "total", "range0", "rangebig", "rangeneg", "idxna", "dup", "dupfar", "seedswap", "idxlen", "skipneg", "skipna", "seedneg", "seednan", "seedshape",
                "seednodim", "mna", "mempty", "type", "none", "shared", "sobol", "p2i", "flat", "igr"])
    bad = r.pick(["'a'", "NULL", "sum", "new.env()", "quote(x)", "list(list())", "as.name('q')"])
    if w == "few_m":
        m = m[:1]
    elif w == "few_i":
        i = i[:1]
    elif w == "negative":
        m[0] = "{z<-%s;z[1]<-z[1]-20L;z[2]<-z[2]+20L;z}" % m[0]
    elif w == "total":
        m[r.below(2)] = "{z<-%s;z[2]<-z[2]+1L;z}" % m[r.below(1)]
        m = [good_m[0], "{z<-%s;z[2]<-z[2]+1L;z}" % good_m[1]]
    elif w in ("range0", "rangebig", "rangeneg", "idxna"):
        v = {"range0": "0L", "rangebig": r.pick(["7L", "1000L", "2147483647L"]), "rangeneg": r.pick(["-1L", "-5L", "-2147483647L"]), "idxna": "NA_integer_"}[w]
        j = r.below(2)
        i[j] = "{z<-%s;z[length(z)]<-%s;z}" % (i[j], v)
    elif w == "dup":
        i, m = ["c(1L,1L)", "c(2L)"], ["array(c(1L,2L,3L,0L),dim=c(2L,2L))", "c(2L,4L)"]
        seed = "array(c(1,2,3,4),dim=c(2L,2L))"
    elif w == "dupfar":
        i, m = ["c(1L,2L,1L)", "c(3L)"], ["{z<-array(0L,dim=c(2L,3L,2L));z[1,,1]<-c(1L,2L,0L);z[2,,2]<-c(2L,1L,1L);z}", "c(4L,3L)"]
        seed = "array(1,dim=c(2L,3L,2L))"
    elif w == "seedswap":
        fn = r.pick(["qisi", "ipf"])
        i, m, seed = ["c(1L)", "c(2L)"], ["c(2L,3L,1L)", "c(4L,2L)"], "array(c(1,2,3,4,5,6),dim=c(2L,3L))"
    elif w == "idxlen":
        j = r.below(2)
        i[j] = r.pick(["c(%s,3L)" % i[j], "integer(0)"])
    elif w in ("skipneg", "skipna"):
        fn = r.pick(["qis", "qisi"])
        sk = {"skipneg": r.pick(["-1L", "-2147483647L", "-1"]), "skipna": r.pick(["NA_integer_", "NA", "3e9"])}[w]
    elif w in ("seedneg", "seednan", "seedshape", "seednodim"):
        fn = r.pick(["qisi", "ipf"])
        seed = {"seedneg": "-" + seed, "seednan": "{z<-%s;z[%d]<-%s;z}" % (seed, r.rng(1, 4), r.pick(["NaN", "NA", "Inf"])),
                "seedshape": r.pick(["array(1,dim=c(2L,3L,2L,2L))", "array(1,dim=c(3L,3L))", "array(1,dim=c(6L))", "array(1,dim=c(2L,2L,4L))", "array(numeric(0),dim=c(0L,2L))"]),
                "seednodim": r.pick(["c(1,2,3,4,5,6)", "numeric(0)"])}[w]
    elif w == "mna":
        j = r.below(2)
        m[j] = "{z<-%s;z[1]<-NA;z}" % m[j]
    elif w == "mempty":
        j = r.below(2)
        m[j] = r.pick(["integer(0)", "array(integer(0),dim=c(0L,2L))", "array(integer(0),dim=c(0L))"])
    elif w == "type":
        j = r.below(4)
        if j == 0:
            i[r.below(2)] = bad
        elif j == 1:
            m[r.below(2)] = bad
        elif j == 2:
            fn = r.pick(["qisi", "ipf"])
            seed = bad
        else:
            fn, sk = r.pick(["qis", "qisi"]), r.pick(["'a'", "NULL", "c(1L,2L)", "sum", "list()"])
    elif w == "none":
        i, m = [], []
    elif w == "shared":
        i, m = ["c(1L,2L)", "c(2L)"], ["array(c(1L,2L,3L,4L),dim=c(2L,2L))", "c(3L,3L,4L)"]
        seed = "array(c(1,2,3,4),dim=c(2L,2L))"
    if w == "sobol":
        return "sobolSequence", "sobolSequence", "list(%s)" % r.pick(["0L,3L", "-1L,3L", "1112L,1L", "2L,-1L", "2L,3L,-1L", "NA,3L", "2L,NA", "2L,3L,NA", "'a',3L", "2L,'b'", "100000L,2L", "NULL,3L", "2147483647L,1L"])
    if w == "p2i":
        return "prob2IntFreq", "prob2IntFreq", "list(%s)" % r.pick(["c(0.5,0.6),10L", "c(-0.5,1.5),10L", "c(NaN,1),10L", "c(NA,1),10L", "c(0.5,0.5),-1L", "c(0.5,0.5),NA", "numeric(0),10L", "c(Inf,0.5),10L",
                                                                    "'a',10L", "c(0.5,0.5),'b'", "c(0.5,0.5),3e9", "NULL,3L", "c(0.5,0.4),0L"])
    if w == "flat":
        return "flatten", "flatten", "list(%s)" % r.pick(["array(c(1L,-1L),dim=c(2L)),'a'", "array(1:4,dim=c(2L,2L)),'a'", "array(c(1L,NA),dim=c(2L)),'a'", "sum,'a'", "'x','a'", "array(c(3L,-1L,-1L,2L),dim=c(2L,2L)),c('a','b')",
                                                          "integer(0),'a'", "array(integer(0),dim=c(0L,2L)),c('a','b')", "c(2147483647L,2147483647L),'a'", "array(1:4,dim=c(2L,2L)),character(0)", "array(1:4,dim=c(2L,2L)),sum"])
    if w == "igr":
        return "integerise", "integerise", "list(%s)" % r.pick(["c(1,2,3)", "array(c(0.5,0.25,0.5,0.5),dim=c(2L,2L))", "array(c(NaN,1,1,1),dim=c(2L,2L))", "array(c(-1,2,2,1),dim=c(2L,2L))", "array(c(Inf,1,1,1),dim=c(2L,2L))",
                                                                "array(numeric(0),dim=c(0L,2L))", "'a'", "NULL", "array(c(0.3,0.3),dim=c(2L))", "sum", "array(c(NA,1,1,1),dim=c(2L,2L))"])
    a = ["list(%s)" % ",".join(i), "list(%s)" % ",".join(m)]
    if fn != "qis":
        a.insert(0, seed)
    if fn != "ipf" and sk is not None:
        a.append(sk)
    return "%s(%s)" % (fn, w), fn, "list(%s)" % ",".join(a)



def near(a, b):
    if a != a or b != b:
        return a != a and b != b
    return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-9)


class Bad(Exception):
    pass


def field(val, name, types, dim="any", n=None):
    x = val.get(name) if val.t == "list" else None
    if x is None:
        raise Bad("no element %r" % name)
    if x.t not in types:
        raise Bad("%s is of type %s" % (name, x.t))
    if n is not None and len(x.v) != n:
        raise Bad("%s has length %d" % (name, len(x.v)))
    if dim != "any" and x.d != dim and not (x.d is None and len(dim) == 1):
        raise Bad("%s has dimensions %s, not %s" % (name, x.d, dim))
    return x.v


INT, NUM = ("integer", "double"), ("integer", "double", "logical")


def compare(v, o, res, co, cres):
    """an R result against the core's for the mirrored problem, and against the property's own terms"""
    k, val = o["k"], res.val
    if k == "sob":
        d, n, s = o["n"]
        if val.t != "double" or val.d != [n, d]:
            raise Bad("sobolSequence(%d,%d) returned %s %s" % (d, n, val.t, val.d))
        st = 0 if s == 0 else ref.skip_count(s)
        for j in range(n):
            p = ref.sobol_point(st + 1 + j, d)
            if any(val.v[j + n * q] != p[q] / 4294967296.0 for q in range(d)):
                raise Bad("sobolSequence(%d,%d,%d): row %d is not point %d of the sequence" % (d, n, s, j + 1, st + 1 + j))
        v.facts["sob.checked"] += 1
        return
    if k == "flat":
        names = ((o.get("rrep") or {}).get("names") or ["C%d" % j for j in range(len(o["asz"]))])[:len(o["asz"])]
        # (R makes names unique where they are not)
        if "data.frame" not in val.c or len(val.n) != len(names) or (len(set(names)) == len(names) and "" not in names and val.n != names):
            raise Bad("flatten returned %s with columns %s" % (val.c, val.n))
        cols = [x.v for x in val.v]
        x = oracle.flat(o, cols, 1)
        if x:
            raise Bad(x[1])
        v.facts["flat.checked"] += 1
        return
    if k == "ig1":
        f, e = field(val, "freq", INT), field(val, "rmse", NUM, n=1)
        if sum(o["x"]) != 1.0 or any(x * 1048576.0 != int(x * 1048576.0) for x in o["x"]):
            # ties may be decided by rounding
            x = oracle.ig1(o, e[0], [int(x) for x in f])
            if x:
                raise Bad("prob2IntFreq: " + x[1])
        elif [int(x) for x in f] != cres.iv or not near(e[0], cres.st[0]):
            raise Bad("prob2IntFreq returned %s rmse %r, the core %s rmse %r" % (f[:12], e[0], cres.iv[:12], cres.st[0]))
        v.facts["ig1.checked"] += 1
        return
    sz = list(reversed(cres.sizes))
    n = prod(sz)
    if k == "ipf":
        pop = field(val, "result", ("double",), sz, n)
        for a, b in zip(pop, cres.dv):
            if not near(a, b):
                raise Bad("ipf: the fitted population differs from the core's (%r, %r)" % (a, b))
        got = [field(val, "conv", NUM, n=1)[0], field(val, "pop", NUM, n=1)[0], field(val, "iterations", NUM, n=1)[0]]
        want = cres.si
        if [int(x) for x in got] != want or not (near(field(val, "maxError", NUM, n=1)[0], cres.st[0]) or field(val, "maxError", NUM, n=1)[0] < 1e-9 and cres.st[0] < 1e-9):
            raise Bad("ipf: conv, pop, iterations, maxError %s %r, the core's %s %r" % (got, field(val, "maxError", NUM)[0], want, cres.st[0]))
        v.facts["ipf.checked"] += 1
        return
    pop = field(val, "result", INT, sz, n)
    if [None if x is None else int(x) for x in pop] != cres.iv:
        raise Bad("%s: the population differs from the core's" % k)
    conv = field(val, "conv", NUM, n=1)[0]
    if bool(conv) != bool(cres.si[0]):
        raise Bad("%s: conv is %s, the core's %s" % (k, conv, cres.si[0]))
    if k == "igr":
        if not near(field(val, "rmse", NUM, n=1)[0], cres.st[0]):
            raise Bad("integerise: rmse %r, the core's %r" % (field(val, "rmse", NUM)[0], cres.st[0]))
        v.facts["igr.checked"] += 1
        return
    # judged on the R arrays themselves: dimensions, order and marginals as the user stated them
    x = oracle.qis_common(o, o["_sizes"], oracle.pop_of(o), conv, field(val, "pop", NUM, n=1)[0], rowmajor(pop, sz), sz)
    if x:
        raise Bad("%s: %s" % (k, x[1]))
    if k == "qisi":
        x = oracle.zeros(o["seed"], rowmajor(pop, sz))
        if x:
            raise Bad("qisi: " + x[1])
    for a, b in zip(field(val, "expectation", ("double",), sz, n), cres.dv):
        if not near(a, b):
            raise Bad("%s: the expectation differs from the core's (%r, %r)" % (k, a, b))
    for q, nm in enumerate(("chiSq", "pValue", "degeneracy")):
        if nm == "degeneracy" and val.get(nm) is None:
            continue                                   # not among the documented results
        a = field(val, nm, NUM, n=1)[0]
        if not near(a, cres.st[q]):
            raise Bad("%s: %s is %r, the core's %r" % (k, nm, a, cres.st[q]))
    v.facts[k + ".checked"] += 1


def rowmajor(v, sizes):
    return rworld.colmajor(v, list(reversed(sizes)))


class C11(Prop):
    id = "C11"
    worlds = ("core", "r")
    count = {"quick": 1800, "thorough": 40000}
    wall = {"quick": 200, "thorough": 3000}
    components = REAL_R
    assumptions = ["collections happen at R allocations (gctorture schedules) and between calls; R's own allocations do not fail",
                   "g++ build at -O1 with coverage callbacks behaves as the shipped build does"]
    rule = ("1-6 requests to one R session (all exported functions; integer, double, named, dimnamed, table and compact arguments, positional or by name), "
            "some repeated, some with one failing library allocation, some malformed, some run from finalisers; garbage collected at every n-th R "
            "allocation from a random one on; every answer compared with the core's for the mirrored problem and with the request's own marginals; "
            "non-trivial: at least one answer was checked")
    probes = ["qis.checked", "qisi.checked", "ipf.checked", "igr.checked", "ig1.checked", "sob.checked", "flat.checked", "rejected", "oom.raised", "tortured", "finalised", "leak.checked"]

    def plan(self, r, tier, i):
        ops = []
        mode = r.weighted([("plain", 3), ("oom", 2), ("gc", 4), ("bad", 3), ("fin", 1)])
        for _ in range(r.rng(1, 4) if mode != "gc" else r.rng(1, 2)):
            o = call(r)
            o["rrep"] = rrep(r, o)
            if r.chance(0.5):
                o["hold"] = 1
            if mode == "gc" and r.chance(0.85):
                o["gct"] = gct(r)
            if mode == "oom":
                f = [r.weighted([(r.rng(1, 10), 2), (r.rng(1, 60), 2), (r.rng(1, 300), 1)]), 1, 0, 0]
                q = dict(o, oom=f)
                q.pop("hold", None)
                ops += [q] * r.pick([1, 1, 2]) + ([o] if r.chance(0.8) else [])
                continue
            if mode == "bad" and r.chance(0.8):
                what, fn, code = malformed(r)
                b = {"k": "raw", "fn": fn, "code": code, "_reject": what}
                if r.chance(0.15):
                    b["gct"] = gct(r)
                ops += [b] * r.pick([1, 1, 2])
            if mode == "fin" and r.chance(0.7):
                o["fin"] = 1
            ops.append(o)
            if r.chance(0.1):
                ops.append({"k": "gc"})
            if r.chance(0.05):
                ops += [{"k": "ut"}] * 2
        if mode == "fin":
            o = call(r)
            ops.append(dict(o, gct=gct(r)))
        return {"world": "r", "heap": gen.gen_heap(r), "threads": [ops]}

    def evaluate(self, plan, ctx):
        v = Verdict()
        ops = plan["threads"][0]
        core_ops, at = [], {}
        for k, o in enumerate(ops):
            if o["k"] not in ("raw", "gc", "sob", "flat", "ut"):
                at[k] = len(core_ops)
                core_ops.append(rworld.mirror(o))
        cout = None
        if core_ops:
            cout = ctx.core({"heap": BASE_HEAP, "threads": [core_ops]})
            v.h.append(cout.hash_key())
            if cout.fatal():
                # broken without R: other properties report it
                v.facts["core_abnormal"] += 1
                return v
        out = self.run(v, ctx, plan, "r")
        if out is None:
            return v
        ut = None
        for k, o in enumerate(ops):
            if o["k"] == "gc":
                continue
            res = out.res.get((0, k))
            if res is None:
                v.fail("lost", "operation %d (%s) was never carried out" % (k, o["k"]))
                return v
            what = "R %s (operation %d)" % (o.get("_reject") or o["k"], k)
            v.facts["tortured"] += bool(o.get("gct"))
            v.facts["finalised"] += bool(o.get("fin"))
            if res.mod:
                v.fail("modified", "%s modified its arguments" % what)
            if res.chg:
                v.fail("changed", "%s: the value returned changed later" % what)
            # the same request twice running: memory must not accumulate
            if k and ops[k - 1] is o or k and ops[k - 1] == o:
                v.facts["leak.checked"] += 1
                if res.live > 0 and out.res[(0, k - 1)].live > 0 and not o.get("fin"):
                    v.fail("leak", "%s keeps %d blocks every time" % (what, res.live))
            if o["k"] == "ut":
                v.facts["selftest"] += 1
                if ut is not None and ut != res.key():
                    v.fail("selftest", "%s: %s, and earlier in the session %s" % (what, res.key(), ut))
                ut = res.key()
                continue
            if o["k"] == "raw":
                v.facts["rejected"] += not res.ok
                v.nt = True
                if res.ok:
                    v.fail("accepted", "%s was accepted and returned %s" % (what, res.raw[:300]))
                continue
            if res.fired:
                v.facts["oom.fired"] += 1
                if not res.ok:
                    v.facts["oom.raised"] += 1
                    v.nt = True
                    continue
            cres = cout.res[(0, at[k])] if k in at else None
            if cres is not None and not cres.ok:
                if res.ok:
                    v.fail("accepted", "%s returned although the core raises %r" % (what, cres.exc))
                continue
            if not res.ok:
                ex = (o.get("draw") or [0, 0, -1])[2] >= 0
                if not ex:
                    v.fail("raised", "%s raised %r" % (what, res.exc))
                continue
            try:
                compare(v, o, res, core_ops[at[k]] if k in at else None, cres)
                v.nt = True
            except Bad as e:
                v.fail("answer", "%s: %s" % (what, e))
        return v


PROPS = [C11]
