"""Client of the Python world (sim/py_worker.py)."""
import json
import os
import signal
import struct
import subprocess
from .util import no_aslr

from . import build, core


class PRes(core.Res):
    __slots__ = ("raised", "mod", "chg", "meta", "part", "odd")

    def key(self):
        if self.exc is not None:
            return (self.exc,)
        return (tuple(self.sizes), tuple(self.iv), tuple(self.dvbits), tuple(self.stbits), tuple(self.si), json.dumps(self.meta))

    def values(self):
        """comparable with the core world"""
        return (tuple(self.sizes), tuple(self.iv), tuple(self.si))


class POutcome(core.Outcome):
    __slots__ = ("harness",)

    def fatal(self):
        if self.status & 0x7f == signal.SIGXCPU or self.status & 0x7f == signal.SIGKILL:
            return "hang"
        return super().fatal()

    def describe_fatal(self):
        if self.fatal() == "hang":
            return "a call did not end in 60 s of processor time"
        return super().describe_fatal()


def points(dv):
    """numerators over 2^32; -1 for what is not such a fraction"""
    out = []
    for x in dv:
        y = x * 4294967296.0
        out.append(int(y) if 0 <= y < 4294967296.0 and y == int(y) else -1)
    return out


def parse(status, bad, err, text):
    o = POutcome()
    o.status, o.bad, o.err, o.text = status, bad, err, text
    o.res, o.steps, o.ilhash, o.live, o.switches, o.draws = {}, 0, 0, (0, 0), [], []
    o.harness = None
    if text.startswith("HARNESS") or status >> 8 == 95:
        o.harness = text
        return o
    if not text or status:
        return o
    j = json.loads(text)
    o.steps, o.ilhash, o.switches = j["steps"], j["ilhash"], j.get("switches", [])
    for d in j["res"]:
        r = PRes()
        r.tid, r.i = d["t"], d["i"]
        r.fired, r.allocs, r.live, r.steps = d["fired"], d["allocs"], d["live"], d["steps"]
        r.exc, r.raised, r.mod, r.chg, r.meta, r.part, r.odd = d.get("exc"), d.get("raised"), d.get("mod"), d.get("chg"), d.get("meta"), d.get("part"), d.get("odd")
        if "harness" in d:
            o.harness = d["harness"]
        if r.raised == "MemoryError":
            r.exc += " [bad_alloc]"
        elif r.raised == "StopIteration":
            r.exc += " [out_of_range]"
        r.sizes = r.iv = r.dv = r.st = r.si = r.dvbits = r.stbits = None
        if r.exc is None and "sizes" in d:
            r.sizes, r.iv, r.si = d["sizes"], d["iv"], d["si"]
            r.dvbits, r.stbits = d["dv"], d["st"]
            r.dv = [struct.unpack(">d", bytes.fromhex(b))[0] for b in d["dv"]]
            r.st = [struct.unpack(">d", bytes.fromhex(b))[0] for b in d["st"]]
            if d.get("k") == "sbuf":
                r.iv = points(r.dv)
        if r.part:
            r.part = points([struct.unpack(">d", bytes.fromhex(b))[0] for b in r.part])
        p = d["i"]
        o.res[(d["t"], p[0]) if len(p) == 1 else (d["t"], *p)] = r
    # nested calls carry their path
    t = j.get("dlog")
    if t:
        i = 0
        while i < len(t):
            n = t[i + 2]
            o.draws.append((t[i] - 1, t[i + 1], t[i + 3:i + 3 + n], t[i + 3 + n:i + 3 + 2 * n]))
            i += 3 + 2 * n
    return o


class Py:
    STAT = core.Core.STAT

    def __init__(self, d):
        self.d, self.p = d, None

    def start(self):
        env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LD_"))}
        env.update(LD_PRELOAD=self.d + "/libsimrt.so", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8")
        self.p = subprocess.Popen([build.venv()[0], "-S", "-c", "import sys; sys.path += %r; sys.argv = %r; exec(compile(open(%r).read(), %r, 'exec'))" % (
            [site()], ["py_worker", self.d], build.SIM + "/py_worker.py", "py_worker.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0, preexec_fn=no_aslr, env=env)

    _rd = core.Core._rd

    def run(self, plan):
        if self.p is None:
            self.start()
        b = json.dumps({k: v for k, v in plan.items() if not k.startswith("_")}).encode()
        self.p.stdin.write(struct.pack("<Q", len(b)))
        mv = memoryview(b)
        while mv:
            mv = mv[self.p.stdin.write(mv):]
        st, bad, el = struct.unpack("<qQQ", self._rd(24))
        err = self._rd(el).decode(errors="replace")
        n, = struct.unpack("<Q", self._rd(8))
        o = parse(st, bad, err, self._rd(n).decode(errors="replace"))
        if o.harness:
            raise RuntimeError("python world: " + o.harness)
        return o

    stats = core.Core.stats
    close = core.Core.close


_site = None


def site():
    """where numpy lives"""
    global _site
    if _site is None:
        _site = os.path.dirname(build.venv_numpy())
    return _site
