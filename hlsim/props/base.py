from .. import gen, oracle, ref, reps
from ..runner import Verdict, shrink_generic
from ..util import Rng, h64, prod, reduce_to

REAL_CORE = "real: every C++ source of the solvers, generators and arrays (QIS, QISI, IPF, Integerise, Sobol, SobolImpl, NDArray, Index, StatFuncs), instrumented; real: pthreads, libstdc++; simulated: thread schedule, heap and its failures, exhaustion of the generator, delivered points where overridden"


class Prop:
    worlds = ("core",)
    count = {"quick": 4000, "thorough": 200000}
    wall = {"quick": 300, "thorough": 3000}
    nlarge = {"quick": 64, "thorough": 3000}
    minimise_s = 45
    components = REAL_CORE
    assumptions = ["clang build at -O1 with coverage callbacks behaves as the shipped build does",
                   "heap faults and points are injected at link-time seams (operator new/malloc and nlopt_sobol_next)"]
    probes = []
    shrinks = staticmethod(shrink_generic)

    def large(self, tier, i):
        """is plan i one of the few large ones?"""
        n = max(1, self.count[tier] // self.nlarge[tier])
        return i % n == n // 2

    def run(self, v, ctx, plan, world=None):
        """run a plan; abnormal ends become the verdict. Returns the outcome or None"""
        world = world or plan.get("world", "core")
        o = getattr(ctx, world)(plan)
        v.h.append(o.hash_key())
        f = o.fatal()
        if f:
            v.fail(f, o.describe_fatal())
            return None
        return o


def solo(o):
    """the op alone, without faults"""
    return {k: x for k, x in o.items() if k != "oom"}


BASE_HEAP = {"seed": 7, "fill": 1, "reuse": 2}


def faultfree(op):
    d = op.get("draw") or [0, 0, -1]
    return not any(op.get("oom") or [0]) and d[2] < 0


def opt_faults(r, o, p_oom=0.08, p_ex=0.06):
    """sometimes make the call fail part way"""
    if r.chance(p_oom):
        o["oom"] = r.pick([[r.rng(1, 60), 1, 0, 0], [r.rng(1, 400), r.rng(1, 3), 0, 0], [0, 0, r.pick([300, 3000, 30000]), r.u64() >> 1]])
    if r.chance(p_ex):
        d = o.get("draw") or [0, 0, -1]
        o["draw"] = [d[0], d[1], r.small(60)]
    return o


def mkqis(pr, skips, draw=None):
    o = gen.op_qis(pr, skips)
    o["_hid"], o["_sizes"] = pr["hidden"], pr["sizes"]
    if draw:
        o["draw"] = draw
    return o


def mkqisi(pr, seed, skips, draw=None):
    o = gen.op_qisi(pr, seed, skips)
    o["_hid"], o["_sizes"] = pr["hidden"], pr["sizes"]
    if draw:
        o["draw"] = draw
    return o


def qisi_problem(r, limit=2500, maxpop=60, kinds=None):
    while True:
        pr = gen.gen_problem(r, maxpop, kinds=kinds)
        if prod(pr["sizes"]) * len(pr["m"]) * (sum(pr["m"][0]) + 1) <= limit:
            return pr


def small_call(r, kinds=None):
    """a quick well-formed call of any kind, for histories and company"""
    k = r.weighted(kinds or [("qis", 4), ("qisi", 3), ("igr", 2), ("ig1", 1), ("flat", 1), ("ipf", 2)])
    if k == "qis":
        pr = gen.gen_problem(r, 25)
        return mkqis(pr, gen.gen_skips(r))
    if k == "qisi":
        pr = qisi_problem(r, 500, 15)
        return mkqisi(pr, gen.gen_seed(r, pr), gen.gen_skips(r))
    if k == "igr":
        while True:
            sz, p = gen.gen_fractional(r, maxpop=12)
            if prod(sz) <= 30:
                return gen.op("igr", seedsz=sz, seed=p)
    if k == "ipf":
        pr = qisi_problem(r, 400, 30)
        return gen.op_ipf(pr, gen.gen_seed(r, pr), gen.ipf_scale(r))
    return gen.rand_call(r, 20, [(k, 1)])


def like(r, o, pre, p=0.12):
    """sometimes, calls before o that differ from it in one respect"""
    if r.chance(p):
        pre += [dict(gen.variant(r, o), _feas=False) for _ in range(r.rng(1, 2))]
    return pre


def fault_events(o, res):
    """did anything injected happen to this call?"""
    return res.fired > 0 or (o.get("draw") or [0, 0, -1])[2] >= 0
