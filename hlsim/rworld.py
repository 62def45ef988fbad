"""Client of the R world (sim/r_worker.R): plans become R programs; results come back as R values."""
import json
import os
import signal
import struct
import subprocess
from .util import no_aslr

from . import build, core
from .util import prod


# ------------------------------------------------------------------------------------------------ plan -> R
def colmajor(v, sizes):
    """row-major list -> the same logical array in column-major order"""
    n = len(sizes)
    st = [0] * n
    k = 1
    for i in range(n - 1, -1, -1):
        st[i] = k
        k *= sizes[i]
    out = []
    ix = [0] * n
    for _ in range(len(v)):
        out.append(v[sum(a * b for a, b in zip(ix, st))])
        for i in range(n):
            ix[i] += 1
            if ix[i] < sizes[i]:
                break
            ix[i] = 0
    return out


def rnum(x, dbl):
    if dbl:
        x = float(x)
        if x != x:
            return "NaN"
        if x in (float("inf"), float("-inf")):
            return "Inf" if x > 0 else "-Inf"
        return x.hex()
    return "%dL" % x


def rvec(v, dbl):
    if not v:
        return "numeric(0)" if dbl else "integer(0)"
    return "c(" + ",".join(rnum(x, dbl) for x in v) + ")"


def rarr(v, sizes, dbl, rep=""):
    """rep: tokens d (as double), v (plain vector when one-dimensional), n (dimnames), t (class table), s (shared temporary), x (through a copy)"""
    dbl = dbl or "d" in rep
    d = rvec(colmajor(v, sizes), dbl)
    if len(sizes) == 1 and "v" in rep:
        return "c(%s)" % ",".join("%s=%s" % (chr(97 + i % 26), rnum(x, dbl)) for i, x in enumerate(v)) if "n" in rep and v else d
    s = "array(%s,dim=%s" % (d, rvec(sizes, False))
    if "n" in rep:
        s += ",dimnames=list(%s)" % ",".join("paste0('c',seq_len(%d))" % k for k in sizes)
    s += ")"
    if "t" in rep:
        s = "structure(%s,class='table')" % s
    if "x" in rep:
        s = "(function(){z<-%s;z[1]<-z[1];z})()" % s
    return s


def ridx(i, rep=""):
    i = [x + 1 for x in i]
    if "r" in rep and len(i) > 1 and all(b == a + 1 for a, b in zip(i, i[1:])):
        return "%dL:%dL" % (i[0], i[-1])
    return rvec(i, "d" in rep)


def rargs(o):
    k, rep = o["k"], o.get("rrep") or {}
    ri, rm = rep.get("idx") or [], rep.get("m") or []

    def g(l, j):
        return (l[j] if j < len(l) else None) or ""
    if k == "raw":
        return o["code"]
    if k in ("qis", "qisi", "ipf"):
        a = []
        if k != "qis":
            a.append(("seed", rarr(o["seed"], o["seedsz"], "i" not in (rep.get("seed") or ""), rep.get("seed") or "")))
        a.append(("indices", "list(%s)" % ",".join(ridx(x, g(ri, j)) for j, x in enumerate(o["idx"]))))
        a.append(("marginals", "list(%s)" % ",".join(rarr(m, s, k == "ipf", g(rm, j)) for j, (m, s) in enumerate(zip(o["m"], o["msz"])))))
        if k != "ipf" and (o["skips"] or not rep.get("noskip")):
            a.append(("skips", rnum(o["skips"], "d" in (rep.get("int") or ""))))
    elif k == "igr":
        a = [("population", rarr(o["seed"], o["seedsz"], "i" not in (rep.get("seed") or ""), (rep.get("seed") or "").replace("v", "")))]
    elif k == "ig1":
        a = [("pIn", rvec(o["x"], True)), ("pop", rnum(o["pop"], "d" in (rep.get("int") or "")))]
    elif k == "flat":
        a = [("stateOccupancies", rarr(o["a"], o["asz"], False, rep.get("seed") or "")), ("categoryNames", "c(%s)" % ",".join("'%s'" % x for x in rep.get("names") or ["C%d" % j for j in range(len(o["asz"]))]))]
    elif k == "ut":
        a = []
    elif k == "sob":
        a = [("dim", rnum(o["n"][0], False)), ("n", rnum(o["n"][1], False))] + ([("skip", rnum(o["n"][2], "d" in (rep.get("int") or "")))] if o["n"][2] or not rep.get("noskip") else [])
    else:
        raise ValueError(k)
    nm = rep.get("named", 0)
    return "list(%s)" % ",".join(("%s=%s" % x) if nm else x[1] for x in a)


FN = {"qis": "qis", "qisi": "qisi", "ipf": "ipf", "igr": "integerise", "ig1": "prob2IntFreq", "flat": "flatten", "sob": "sobolSequence", "ut": "unitTest"}


def code(plan):
    h = plan.get("heap") or {"seed": 1, "fill": 0, "reuse": 0}
    out = [".Call('rw_reset',c('%d','%d','%d','%d','%d'))" % (h["seed"], h["fill"], h["reuse"], plan.get("budget") or 4_000_000_000, 0)]
    for i, o in enumerate(plan["threads"][0]):
        if o["k"] == "gc":
            out.append("gc()")
            continue
        fn = o["fn"] if o["k"] == "raw" else FN[o["k"]]
        x = ["%dL" % i, fn, "function() " + rargs(o)]
        if o.get("oom"):
            x.append("oom=c(%s)" % ",".join("'%d'" % v for v in o["oom"]))
        if o.get("draw"):
            x.append("draw=c(%s)" % ",".join("'%d'" % v for v in o["draw"]))
        if o.get("gct"):
            x.append("gct=c(%d,%d)" % tuple(o["gct"]))
        if o.get("hold"):
            x.append("hold=TRUE")
        out.append("%s(%s)" % (".fin" if o.get("fin") else ".op", ",".join(x)))
    return "\n".join(out)


def mirror(o):
    """the row-major problem the core solves for this R request"""
    if o["k"] in ("qis", "qisi", "ipf"):
        d = len(o["_sizes"])
        c = dict(o, idx=[[d - 1 - x for x in i] for i in reversed(o["idx"])], m=list(reversed(o["m"])), msz=list(reversed(o["msz"])), _sizes=list(reversed(o["_sizes"])))
        if "seed" in o:
            c["seed"], c["seedsz"] = colmajor(o["seed"], o["seedsz"]), list(reversed(o["seedsz"]))
    elif o["k"] == "igr":
        c = dict(o, seed=colmajor(o["seed"], o["seedsz"]), seedsz=list(reversed(o["seedsz"])))
    else:
        c = dict(o)
    for k in ("rrep", "gct", "oom", "fin", "hold"):
        c.pop(k, None)
    return c


# ------------------------------------------------------------------------------------------------ R -> results
class V:
    """an R value"""
    __slots__ = ("t", "c", "n", "d", "v")

    def __init__(self, j):
        self.t, self.c, self.n, self.d = j["t"], j["c"], j["n"], j["d"]
        if self.t == "list":
            self.v = [V(x) for x in j["v"]]
        elif self.t == "double":
            self.v = [float("nan") if x in ("nan", "na") else float.fromhex(x) for x in j["v"]]
        else:
            self.v = j["v"]

    def get(self, name):
        return self.v[self.n.index(name)] if self.n and name in self.n else None


class RRes:
    __slots__ = ("i", "exc", "cls", "val", "raw", "fired", "allocs", "steps", "live", "mod", "chg")

    @property
    def ok(self):
        return self.exc is None

    def key(self):
        return self.exc if self.exc is not None else self.raw


class ROutcome(core.Outcome):
    __slots__ = ("harness",)

    def fatal(self):
        if self.status & 0x7f in (signal.SIGXCPU, signal.SIGKILL):
            return "hang"
        return super().fatal()

    def describe_fatal(self):
        if self.fatal() == "hang":
            return "a call did not end in 60 s of processor time"
        return super().describe_fatal()


def parse(status, bad, err, text):
    o = ROutcome()
    o.status, o.bad, o.err, o.text = status, bad, err, text
    o.res, o.steps, o.ilhash, o.live, o.switches, o.draws = {}, 0, 0, (0, 0), [], []
    o.harness = None
    if text.startswith("HARNESS") or status >> 8 == 95:
        o.harness = text or "no output"
        return o
    if not text or status:
        return o
    lines = text.split("\n")
    o.steps = int(lines[0])
    for d in sorted((json.loads(l) for l in lines[1:] if l), key=lambda d: bool(d.get("chg"))):
        if d.get("chg"):
            o.res[(0, d["i"])].chg = True
            continue
        r = RRes()
        r.i, r.fired, r.allocs, r.steps, r.live, r.mod, r.chg = d["i"], d["fired"], d["allocs"], d["steps"], d["live"], d["mod"], False
        r.exc, r.cls, r.val, r.raw = d["r"].get("exc"), d["r"].get("cls"), None, None
        if r.exc is None:
            r.raw = json.dumps(d["r"])
            r.val = V(d["r"])
        o.res[(0, r.i)] = r
    # nothing that depends on addresses or on when finalisers ran belongs in the history
    o.text = "\n".join(sorted(l for l in lines[1:]))
    return o


class R:
    STAT = core.Core.STAT

    def __init__(self, d):
        self.d, self.p = d, None

    def start(self):
        env = {k: v for k, v in os.environ.items() if not k.startswith(("R_", "LD_"))}
        env.update(LD_PRELOAD=self.d + "/libsimrt.so", LC_ALL="C.UTF-8", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", R_ENABLE_JIT="0")
        # started through R's own front end for its environment; stdin is the plan channel, so the program comes from a file
        self.p = subprocess.Popen(["R", "--vanilla", "--no-echo", "--file=" + build.SIM + "/r_worker.R", "--args", self.d],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0, preexec_fn=no_aslr, env=env, cwd="/")

    _rd = core.Core._rd

    def run(self, plan):
        if self.p is None:
            self.start()
        b = code(plan).encode()
        self.p.stdin.write(struct.pack("<Q", len(b)))
        mv = memoryview(b)
        while mv:
            mv = mv[self.p.stdin.write(mv):]
        st, bad, el = struct.unpack("<qQQ", self._rd(24))
        err = self._rd(el).decode(errors="replace")
        n, = struct.unpack("<Q", self._rd(8))
        o = parse(st, bad, err, self._rd(n).decode(errors="replace"))
        if o.harness:
            raise RuntimeError("R world: " + o.harness)
        return o

    stats = core.Core.stats
    close = core.Core.close
