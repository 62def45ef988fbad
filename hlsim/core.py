"""Client of the core-world executor: serialises plans, parses outcomes."""
import os
import select
import signal
import struct
import subprocess
from .util import no_aslr
import time


def _d(x):
    return repr(float(x))


def _raw(sz, v, dbl):
    t = [str(len(sz))] + [str(s) for s in sz]
    t += [_d(x) for x in v] if dbl else [str(int(x)) for x in v]
    return t


def ser_op(o):
    dr = o.get("draw") or [0, 0, -1]
    oom = o.get("oom") or [0, 0, 0, 0]
    t = [o["k"], str(dr[0]), str(dr[1]), str(dr[2]), *(str(x) for x in oom)]
    dl = o.get("dlist") or []
    t += [str(len(dl))] + [str(x) for x in dl]
    k = o["k"]

    def marg(dbl):
        q = [str(len(o["idx"]))]
        for i in o["idx"]:
            q += [str(len(i))] + [str(x) for x in i]
        q.append(str(len(o["m"])))
        for s, m in zip(o["msz"], o["m"]):
            q += _raw(s, m, dbl)
        return q
    if k == "qis":
        t += [str(o["skips"])] + marg(False)
    elif k == "qisi":
        t += [str(o["skips"])] + _raw(o["seedsz"], o["seed"], True) + marg(False)
    elif k == "ipf":
        t += _raw(o["seedsz"], o["seed"], True) + marg(True)
    elif k == "igr":
        t += _raw(o["seedsz"], o["seed"], True)
    elif k == "ig1":
        t += [str(o["pop"]), str(len(o["x"]))] + [_d(x) for x in o["x"]]
    elif k == "flat":
        t += _raw(o["asz"], o["a"], False)
    elif k == "pv":
        t += [str(o["dof"]), _d(o["x"])]
    else:
        n = o.get("n", [])
        t += [str(len(n))] + [str(x) for x in n]
    return " ".join(t)


def op_bound(o):
    """steps that no run of this call can need (an edge, a memory access or an allocation is one step)"""
    k = o["k"]
    if k in ("qis", "qisi", "ipf"):
        from .util import prod
        pop = 1
        if k != "ipf":
            pop += sum(x for x in (o["m"][0] if o["m"] else []) if 0 < x < 1 << 40)
        cells = prod(o.get("seedsz") or o.get("_sizes") or [1])
        if k == "qis":
            cells = max(cells, sum(len(m) for m in o["m"]))
            return 2_000_000 + 3000 * pop * cells
        return 2_000_000 + 400 * 1000 * pop * cells * max(1, len(o["m"])) * (len(o["seedsz"]) + 2) // 4
    if k == "igr":
        n = len(o["seed"])
        t = sum(x for x in o["seed"] if 0 < x < 1e12)
        return 2_000_000 + int(400 * 1000 * (t + 1) * n * max(1, len(o["seedsz"]) ** 2) // 4)
    if k == "flat":
        return 2_000_000 + 2000 * (len(o["a"]) + sum(x for x in o["a"] if 0 < x < 1 << 31))
    return 50_000_000


def plan_budget(p):
    return min(8_000_000_000, 100_000_000 + sum(op_bound(o) for ops in p["threads"] for o in ops))


def ser_plan(p):
    h = p.get("heap") or {"seed": 1, "fill": 0, "reuse": 0}
    s = p.get("sched") or {}
    th = p["threads"]
    t = [str(h["seed"]), str(h["fill"]), str(h["reuse"]), str(p.get("budget") or plan_budget(p)), str(p.get("memlimit", 0)),
         str(len(th)), str(s.get("seed", 0)), str(s.get("mean", 0)), str(s.get("ppm", 0)), str(s.get("hot", 0)), str(int(bool(p.get("dlog"))))]
    lst = s.get("list")
    if lst is None:
        t.append("0")
    else:
        t += ["1", str(len(lst))] + [str(x) for tr in lst for x in tr]
    out = [" ".join(t)]
    for ops in th:
        out.append(str(len(ops)))
        out += [ser_op(o) for o in ops]
    return ("\n".join(out) + "\n").encode()


class Res:
    __slots__ = ("tid", "i", "fired", "allocs", "live", "steps", "exc", "sizes", "iv", "dv", "st", "si")

    @property
    def ok(self):
        return self.exc is None

    def key(self):
        """everything that is the result of the call"""
        return (self.exc,) if self.exc is not None else (tuple(self.sizes), tuple(self.iv), tuple(self.dvbits), tuple(self.stbits), tuple(self.si))


class Res(Res):
    __slots__ = ("dvbits", "stbits")


def _dbl(b):
    return float("nan") if b == "nan" else struct.unpack("<d", bytes.fromhex(b)[::-1])[0]


class Outcome:
    __slots__ = ("status", "bad", "err", "res", "steps", "ilhash", "live", "switches", "draws", "text", "wall")

    def fatal(self):
        """class of abnormal end, or None"""
        if self.status == -1:
            return "timeout"
        if self.status & 0x7f == signal.SIGXCPU:
            return "hang"
        if self.status & 0x7f:
            return "crash"
        code = (self.status >> 8) & 0xff
        if code == 97:
            return "unbounded"
        if code == 98:
            return "deadlock"
        if code:
            return "crash"
        if self.bad:
            return "heap"
        return None

    def describe_fatal(self):
        f = self.fatal()
        if f == "crash":
            return "the process was killed by signal %d" % (self.status & 0x7f) if self.status & 0x7f else "the process exited with %d" % (self.status >> 8)
        if f == "heap":
            return "heap integrity: " + self.err
        if f == "hang":
            return "a call did not end in 120 s of processor time"
        if f == "unbounded":
            return "a call did not end within the step budget"
        return f

    def hash_key(self):
        return (self.status, self.bad, self.err, self.text)


def parse(status, bad, err, text):
    o = Outcome()
    o.status, o.bad, o.err, o.text = status, bad, err, text
    o.res, o.steps, o.ilhash, o.live, o.switches, o.draws = {}, 0, 0, (0, 0), [], []
    for line in text.split("\n"):
        if not line:
            continue
        if line[0] == "R":
            t = line.split(" ")
            r = Res()
            r.tid, r.i, r.fired, r.allocs, r.live, r.steps = int(t[1]), int(t[2]), int(t[4]), int(t[6]), int(t[8]), int(t[10])
            r.exc = None
            if t[11] == "E":
                r.exc = " ".join(t[12:])
                r.sizes = r.iv = r.dv = r.st = r.si = r.dvbits = r.stbits = None
            else:
                p = 12
                def take(f):
                    nonlocal p
                    n = int(t[p]); p += 1
                    v = [f(x) for x in t[p:p + n]]
                    p += n
                    return v
                r.sizes, r.iv = take(int), take(int)
                r.dvbits = take(str); r.stbits = take(str)
                r.dv = [_dbl(b) for b in r.dvbits]; r.st = [_dbl(b) for b in r.stbits]
                r.si = take(int)
            o.res[(r.tid, r.i)] = r
        elif line[0] == "S":
            t = line.split(" ")
            o.steps, o.ilhash, o.live = int(t[2]), int(t[4]), (int(t[6]), int(t[7]))
        elif line[0] == "L":
            t = [int(x) for x in line.split(" ")[2:]]
            o.switches = [t[i:i + 3] for i in range(0, len(t), 3)]
        elif line[0] == "D":
            t = [int(x) for x in line.split(" ")[2:]]
            i = 0
            while i < len(t):
                d = t[i + 2]
                o.draws.append((t[i] - 1, t[i + 1], t[i + 3:i + 3 + d], t[i + 3 + d:i + 3 + 2 * d]))
                i += 3 + 2 * d
    return o


class Core:
    def __init__(self, exe):
        self.exe = exe
        self.p = None
        self.runs = 0

    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0, preexec_fn=no_aslr)

    def _rd(self, n):
        b = b""
        while len(b) < n:
            k = self.p.stdout.read(n - len(b))
            if not k:
                raise RuntimeError("core executor died")
            b += k
        return b

    def run(self, plan):
        if self.p is None:
            self.start()
        b = ser_plan(plan)
        self.p.stdin.write(struct.pack("<Q", len(b)))
        mv = memoryview(b)
        while mv:
            mv = mv[self.p.stdin.write(mv):]
        st, bad, el = struct.unpack("<qQQ", self._rd(24))
        err = self._rd(el).decode(errors="replace")
        n, = struct.unpack("<Q", self._rd(8))
        txt = self._rd(n).decode(errors="replace")
        self.runs += 1
        return parse(st, bad, err, txt)

    STAT = ["steps", "switches", "points", "allocs", "oom_fired", "draws", "draws_overridden", "exhausted", "runs", "mutex_waits"]

    def stats(self):
        if self.p is None:
            return dict.fromkeys(self.STAT, 0), b""
        self.p.stdin.write(struct.pack("<Q", 0))
        v = struct.unpack("<10Q", self._rd(80))
        cov = self._rd(1 << 16)
        return dict(zip(self.STAT, v)), cov

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()
            self.p = None
