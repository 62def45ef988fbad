"""Campaigns: seeded plans -> simulated runs -> verdicts; confirmation, minimisation and replay of violations; evidence."""
import collections
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

from . import build, core
from .util import Rng, h64

VERIF = build.VERIF
OUT = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.json")


class HarnessError(Exception):
    pass


class Verdict:
    __slots__ = ("viol", "known", "nt", "key", "facts", "h", "sample", "plan2")

    def __init__(self):
        self.viol = None                     # (class, message)
        self.known = []                      # [(class, message)]
        self.nt = False                      # non-trivial?
        self.key = None                      # what distinguishes this run
        self.facts = collections.Counter()
        self.h = []                          # history, for reproduction
        self.sample = None
        self.plan2 = None                    # the plan with its schedule made explicit, for minimisation

    def fail(self, cls, msg):
        if self.viol is None:
            self.viol = (cls, msg)

    def digest(self):
        return h64([self.viol and self.viol[0], self.h])


class Ctx:
    """one worker's simulated worlds"""

    def __init__(self, paths):
        self.paths = paths
        self._core = self._py = self._r = self._opt = None
        self.nruns = 0
        self.longest = {}                    # world: [seconds, steps] of the longest run

    def timed(self, world, ex, plan):
        t = time.time()
        try:
            o = ex.run(plan)
        except (RuntimeError, OSError):
            o = None
        if o is None or o.status == -1:
            # lost to the machine (out of memory, stalled), not to the plan: a run depends on nothing but its plan, so once more
            if ex.p is not None:
                ex.p.kill()
                ex.p.wait()
                ex.p = None
            try:
                o = ex.run(plan)
            except (RuntimeError, OSError) as e:
                raise HarnessError("%s world: %s" % (world, e))
        m = self.longest.setdefault(world, [0, 0])
        m[0] = max(m[0], round(time.time() - t, 2))
        m[1] = max(m[1], o.steps)
        return o

    def core(self, plan):
        if self._core is None:
            self._core = core.Core(self.paths["core"])
        self.nruns += 1
        o = self.timed("core", self._core, plan)
        if o.status == -1:
            raise HarnessError("core executor: wall-clock watchdog")
        return o

    def opt(self, plan):
        """the same executor, without per-instruction scheduling points: for problems far larger than the others"""
        if self._opt is None:
            self._opt = core.Core(self.paths["opt"])
        self.nruns += 1
        o = self.timed("opt", self._opt, plan)
        if o.status == -1:
            raise HarnessError("large-problem executor: wall-clock watchdog")
        return o

    def py(self, plan):
        if self._py is None:
            from . import pyworld
            self._py = pyworld.Py(self.paths["py"])
        self.nruns += 1
        o = self.timed("py", self._py, plan)
        if o.status == -1:
            raise HarnessError("python world: wall-clock watchdog")
        return o

    def r(self, plan):
        if self._r is None:
            from . import rworld
            self._r = rworld.R(self.paths["r"])
        self.nruns += 1
        o = self.timed("r", self._r, plan)
        if o.status == -1:
            raise HarnessError("R world: wall-clock watchdog")
        return o

    def stats(self):
        out, covs = collections.Counter(), {}
        for w, c in (("core", self._core), ("opt", self._opt), ("py", self._py), ("r", self._r)):
            if c is not None:
                s, cov = c.stats()
                for k, v in s.items():
                    out[w + "." + k] += v
                covs[w] = cov
        return out, covs

    def close(self):
        for c in (self._core, self._opt, self._py, self._r):
            if c is not None:
                c.close()
        self._core = self._opt = self._py = self._r = None


def make_paths(worlds):
    p = {}
    with ThreadPoolExecutor(4) as ex:
        fs = {w: ex.submit({"core": build.core, "opt": build.core_opt, "py": build.py, "r": build.r}[w]) for w in worlds}
    for w, f in fs.items():
        try:
            p[w] = f.result()
        except build.BuildError as e:
            # the executor no longer matches the library's classes: what can be reached through Python still can
            if w not in ("core", "opt") or "py" not in worlds:
                raise
            p["core_error"] = str(e)
    return p


def plan_for(prop, seed, tier, i):
    if not getattr(prop, "py_only", False):
        return prop.plan(Rng(seed, prop.id, i), tier, i)
    for j in range(i * 64, i * 64 + 64):
        p = prop.plan(Rng(seed, prop.id, j), tier, j)
        if p.get("world") == "py":
            return p
    raise HarnessError("no plan for the Python world alone")


def worker(prop, seed, tier, n, w, nw, paths, conn, stop_at, deadline):
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    ctx = Ctx(paths)
    evals = 0
    facts, keys, known, samples = collections.Counter(), set(), {}, []
    ils = set()
    try:
        i = w
        while i < n:
            if i > stop_at.value or time.time() > deadline:
                break
            plan = plan_for(prop, seed, tier, i)
            v = prop.evaluate(plan, ctx)
            evals += 1
            facts.update(v.facts)
            if v.nt:
                keys.add(v.key or h64(plan))
            for c, m in v.known:
                known.setdefault(c, (i, m))
            if v.nt and len(samples) < 2:
                samples.append({"index": i, "plan": v.sample or brief(plan)})
            if v.viol:
                with stop_at.get_lock():
                    stop_at.value = min(stop_at.value, i)
                conn.send(("viol", i, plan, v.viol))
                break
            i += nw
        st, cov = ctx.stats()
        nr = ctx.nruns
        ctx.close()
        conn.send(("done", evals, nr, facts, keys, known, samples, st, cov, ctx.longest))
    except BaseException as e:
        conn.send(("error", w, "plan %d: %s\n%s" % (i, e, traceback.format_exc())))
    conn.close()


def brief(x, depth=0):
    """a readable, bounded version of a plan for the evidence file"""
    if isinstance(x, dict):
        return {k: brief(v, depth + 1) for k, v in x.items() if not k.startswith("_")}
    if isinstance(x, list):
        if len(x) > 24:
            return [brief(v, depth + 1) for v in x[:24]] + ["... %d in all" % len(x)]
        return [brief(v, depth + 1) for v in x]
    return x


# ------------------------------------------------------------------------------------------------ minimisation
def shrink_generic(plan):
    """candidate plans, simplest first"""
    th = plan.get("threads")
    if th is not None:
        if len(th) > 1 and not plan.get("_keepthreads"):
            for t in range(len(th)):
                if len(th) > 2 or not plan.get("_mt"):
                    yield dict(plan, threads=th[:t] + th[t + 1:], sched=dict(plan.get("sched") or {}, list=None))
        for t in range(len(th)):
            ops = th[t]
            n = len(ops)
            step = n // 2
            while step >= 1:
                for a in range(0, n, step):
                    new = ops[:a] + ops[a + step:]
                    if new or len(th) > 1:
                        yield dict(plan, threads=th[:t] + [new] + th[t + 1:])
                step //= 2
        s = plan.get("sched") or {}
        lst = s.get("list")
        if lst:
            n = len(lst)
            step = max(1, n // 2)
            while True:
                for a in range(0, n, step):
                    yield dict(plan, sched=dict(s, list=lst[:a] + lst[a + step:]))
                if step == 1:
                    break
                step //= 2
        for t in range(len(th)):
            for k, o in enumerate(th[t]):
                for o2 in shrink_op(o):
                    yield dict(plan, threads=th[:t] + [th[t][:k] + [o2] + th[t][k + 1:]] + th[t + 1:])
    h = plan.get("heap")
    if h and (h["fill"] != 1 or h["reuse"] != 0):
        yield dict(plan, heap={"seed": 1, "fill": 1, "reuse": 0})


def shrink_op(o):
    if o.get("oom") and any(o["oom"]):
        yield {k: v for k, v in o.items() if k != "oom"}
    d = o.get("draw")
    if d and d != [0, 0, -1]:
        yield {k: v for k, v in o.items() if k != "draw"}
        if d[2] >= 0:
            yield dict(o, draw=[d[0], d[1], -1])
        if d[0]:
            yield dict(o, draw=[0, 0, d[2]])
    if o.get("skips"):
        yield dict(o, skips=0)
    if o.get("_hid") and "m" in o and o["k"] in ("qis", "qisi"):
        # drop individuals
        from .util import reduce_to
        hid, sz = o["_hid"], o["_sizes"]
        live = [i for i, v in enumerate(hid) if v]
        for keep in (2, 1):
            if keep == 2:
                new = [v // 2 for v in hid]
                if new != hid:
                    yield dict(o, _hid=new, m=[reduce_to(new, sz, i) for i in o["idx"]])
        for i in live[:40]:
            new = list(hid)
            new[i] = 0
            yield dict(o, _hid=new, m=[reduce_to(new, sz, i) for i in o["idx"]])


def evaluate_as(prop, plan, ctx, cls):
    """evaluate, treating a finding of class cls as a violation"""
    v = prop.evaluate(plan, ctx)
    if not v.viol:
        for x in v.known:
            if x[0] == cls:
                v.viol = x
    return v


def minimise(prop, plan, cls, ctx, seconds):
    t0 = time.time()
    tried = 0
    shr = getattr(prop, "shrinks", shrink_generic)
    again = True
    while again and time.time() - t0 < seconds:
        again = False
        for cand in shr(plan):
            if time.time() - t0 > seconds or tried > 3000:
                break
            tried += 1
            try:
                v = evaluate_as(prop, cand, ctx, cls)
            except (HarnessError, KeyError, IndexError, ValueError, ZeroDivisionError, RuntimeError):
                ctx.close()
                continue
            if v.viol and v.viol[0] == cls:
                plan = cand
                again = True
                break
    return plan, tried


def known_findings(pid):
    try:
        with open(KNOWN) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == pid]
    except FileNotFoundError:
        return []


def coverage_bits(covs):
    out = {}
    for w in covs:
        out[w] = sum(1 for b in covs[w] if b)
    return out


def campaign(prop, tier, seed, nw=None):
    t0 = time.time()
    nw = nw or int(os.environ.get("HLSIM_WORKERS", "8"))
    paths = make_paths(prop.worlds)
    tb = time.time() - t0
    if "core_error" in paths:
        prop.py_only = True
        print("note: the C++ executor does not build against this tree; deciding through Python alone\n" + paths["core_error"][-400:], file=sys.stderr)
    n = int((0.3 if "core_error" in paths else 1) * prop.count[tier] * float(os.environ.get("HLSIM_SCALE", "1")))
    deadline = time.time() + prop.wall[tier]
    # listed findings: show that each is still what it is said to be
    ctx = Ctx(paths)
    listed = known_findings(prop.id)
    for k in listed:
        if "core_error" in paths and k["plan"].get("world") != "py":
            continue
        v = prop.evaluate(k["plan"], ctx)
        if any(c == k["class"] for c, _ in v.known):
            print("KNOWN-FINDING: property=%s %s" % (prop.id, k["what"]))
        if v.viol:
            return report(prop, k["plan"], v.viol, paths, t0)
    extra = {}
    if hasattr(prop, "special") and "core_error" not in paths:
        extra = prop.special(tier, seed, ctx, paths) or {}
        if extra.get("viol"):
            return report(prop, extra["plan"], extra["viol"], paths, t0)
    ctx.close()
    stop_at = mp.Value("q", 1 << 60)
    procs = []
    for w in range(nw):
        a, b = mp.Pipe(False)
        p = mp.Process(target=worker, args=(prop, seed, tier, n, w, nw, paths, b, stop_at, deadline))
        p.start()
        b.close()
        procs.append((p, a))
    viols, errors = [], []
    evals = nruns = 0
    facts, keys, known, samples, stats, covs = collections.Counter(), set(), {}, [], collections.Counter(), {}
    longest = {}
    for p, a in procs:
        while True:
            try:
                m = a.recv()
            except EOFError:
                break
            if m[0] == "viol":
                viols.append(m[1:])
            elif m[0] == "error":
                errors.append(m[2])
            else:
                evals += m[1]; nruns += m[2]
                facts.update(m[3]); keys |= m[4]
                for c, x in m[5].items():
                    if c not in known or x < known[c]:
                        known[c] = x
                samples += m[6]
                stats.update(m[7])
                for w, c in m[8].items():
                    covs[w] = bytes(x | y for x, y in zip(covs[w], c)) if w in covs else c
                for w, (sec, stp) in m[9].items():
                    x = longest.setdefault(w, [0, 0])
                    longest[w] = [max(x[0], sec), max(x[1], stp)]
        p.join()
        if p.exitcode not in (0, None) and not errors:
            errors.append("worker ended with %s" % p.exitcode)
    if viols:
        i, plan, viol = min(viols, key=lambda v: v[0])
        return report(prop, plan, viol, paths, t0, index=i, seed=seed, tier=tier)
    if errors:
        print("ERROR: " + errors[0], file=sys.stderr)
        return 2
    unlisted = [c for c in known if not any(k["class"] == c for k in listed)]
    if unlisted:
        c = unlisted[0]
        plan = plan_for(prop, seed, tier, known[c][0])
        return report(prop, plan, (c, known[c][1]), paths, t0, index=known[c][0], seed=seed, tier=tier)
    wall = time.time() - t0
    samples.sort(key=lambda s: s["index"])
    cov = {
        "evaluations": evals, "distinct_nontrivial": len(keys), "rule": prop.rule, "samples": samples[:3],
        "simulated_runs": nruns, "seeds_planned": n, "seeds_run": evals, "runs_per_hour": int(nruns / max(1e-9, wall - tb) * 3600),
        "simulated_steps": sum(v for k, v in stats.items() if k.endswith(".steps")),
        "faults_and_events_fired": {k: v for k, v in sorted(stats.items()) if not k.endswith((".steps", ".runs"))},
        "probes": dict(sorted(facts.items())),
        "edges_hit": coverage_bits(covs),
        "longest_run_s_steps": longest,
        "components": prop.components, "build_s": round(tb, 1),
        "known_findings_met": {c: x[1] for c, x in known.items()},
    }
    cov.update(extra.get("coverage", {}))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": prop.assumptions,
          "wall_s": round(wall, 2), "violations": 0}
    with open(os.path.join(VERIF, "evidence", prop.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: held on %d plans (%d simulated runs, %d distinct non-trivial) in %.1f s" % (prop.id, evals, nruns, len(keys), wall))
    stuck = [p for p in getattr(prop, "probes", []) if not facts.get(p)]
    if stuck:
        print("note: probes never hit: " + ", ".join(stuck))
    if os.environ.get("HLSIM_VERBOSE"):
        print(json.dumps({k: cov[k] for k in ("probes", "faults_and_events_fired", "edges_hit", "runs_per_hour", "longest_run_s_steps")}, indent=1))
    return 0


def write_evidence_violation(prop, tier, seed, path, viol, wall):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.id + ".json"), "w") as f:
        json.dump({"property": prop.id, "tier": tier or "quick", "seed": seed or 0, "level": "exploration",
                   "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": prop.rule, "samples": [path], "violation": list(viol)},
                   "wall_s": round(wall, 2), "violations": 1}, f, indent=1)


def report(prop, plan, viol, paths, t0, index=None, seed=None, tier=None):
    """confirm twice, minimise, replay in a fresh process, report"""
    cls = viol[0]
    ds = []
    last = None
    t1 = time.time()
    for _ in range(2):
        ctx = Ctx(paths)
        v = evaluate_as(prop, plan, ctx, cls)
        ctx.close()
        ds.append((v.viol and v.viol[0], v.digest()))
        last = v
        if time.time() - t1 > 30:
            break                            # a call that never ends, at full length: replayed once more below, but not minimised
    slow = time.time() - t1 > 30
    if ds[0] != ds[-1] or ds[0][0] != cls:
        return report_loose(prop, plan, viol, paths, t0, index, seed, tier, ds)
    if last.plan2 is not None and not slow:
        ctx = Ctx(paths)
        v = evaluate_as(prop, last.plan2, ctx, cls)
        ctx.close()
        if v.viol and v.viol[0] == cls:
            plan = last.plan2
    tried = 0
    if not slow:
        ctx = Ctx(paths)
        plan, tried = minimise(prop, plan, cls, ctx, prop.minimise_s)
        ctx.close()
        ctx = Ctx(paths)
        v = evaluate_as(prop, plan, ctx, cls)
        ctx.close()
    msg = v.viol[1] if v.viol else viol[1]
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, "%s-%s.json" % (prop.id, h64(plan)))
    with open(path, "w") as f:
        json.dump({"property": prop.id, "class": cls, "message": msg, "digest": v.digest(), "found_at": {"seed": seed, "tier": tier, "index": index},
                   "minimisation_tried": tried, "plan": plan}, f, indent=1)
    p = subprocess.run([sys.executable, "-m", "hlsim.check", prop.id, "--replay", path], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 1:
        print("ERROR: replay in a fresh process did not reproduce %s (%s): %s" % (cls, msg, p.stdout[-2000:]), file=sys.stderr)
        return 2
    write_evidence_violation(prop, tier, seed, path, (cls, msg), time.time() - t0)
    print("%s: %s" % (cls, msg))
    print("VIOLATION property=%s replay=%s" % (prop.id, path))
    return 1


def report_loose(prop, plan, viol, paths, t0, index, seed, tier, ds):
    """the broken code depends on memory outside the simulation (stray pointers into the interpreter's heap, say): the plan is still one that
    breaks the property if it does so again and again, though not always in the same way"""
    seen = [d[0] for d in ds if d[0]]
    for _ in range(4):
        ctx = Ctx(paths)
        v = prop.evaluate(plan, ctx)
        ctx.close()
        if v.viol:
            seen.append(v.viol[0])
    if len(seen) < 3:
        print("ERROR: a violation (%s: %s; index %s) did not reproduce: %s" % (viol[0], viol[1], index, ds), file=sys.stderr)
        return 2
    msg = "%s (ends differently from run to run: %s)" % (viol[1], ", ".join(sorted(set(seen + [viol[0]]))))
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, "%s-%s.json" % (prop.id, h64(plan)))
    with open(path, "w") as f:
        json.dump({"property": prop.id, "class": viol[0], "message": msg, "loose": 1, "found_at": {"seed": seed, "tier": tier, "index": index}, "plan": plan}, f, indent=1)
    write_evidence_violation(prop, tier, seed, path, (viol[0], msg), time.time() - t0)
    print("%s: %s" % (viol[0], msg))
    print("VIOLATION property=%s replay=%s" % (prop.id, path))
    return 1


def replay(prop, path):
    with open(path) as f:
        rec = json.load(f)
    paths = make_paths(prop.worlds)
    if rec.get("loose"):
        for _ in range(6):
            ctx = Ctx(paths)
            v = prop.evaluate(rec["plan"], ctx)
            ctx.close()
            if v.viol:
                print("replayed: %s: %s" % v.viol[:2])
                print("VIOLATION property=%s replay=%s" % (prop.id, path))
                return 1
        print("not reproduced")
        return 0
    ctx = Ctx(paths)
    v = evaluate_as(prop, rec["plan"], ctx, rec["class"])
    ctx.close()
    if v.viol and v.viol[0] == rec["class"]:
        same = v.digest() == rec["digest"]
        print("replayed: %s: %s (%s)" % (v.viol[0], v.viol[1], "identical history" if same else "history differs"))
        if same:
            print("VIOLATION property=%s replay=%s" % (prop.id, path))
            return 1
        return 2
    print("not reproduced: %s" % (v.viol,))
    return 0
