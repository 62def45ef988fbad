"""Python world: a zygote that forks one process per plan. Runs under /opt/vp's interpreter with libsimrt preloaded."""
import ctypes
import gc
import json
import os
import signal
import struct
import sys
import threading

D = sys.argv[1]
sys.path.insert(0, D)
gc.disable()
import numpy as np
import _hlnpmem
import humanleague as hl
import _humanleague

fast = ctypes.PyDLL(D + "/libsimrt.so")          # keeps the interpreter lock
slow = ctypes.CDLL(D + "/libsimrt.so")           # gives it up: calls that may park this thread
U64, I64 = ctypes.c_uint64, ctypes.c_int64
for n in ("rt_steps", "rt_live_blocks", "rt_oom_seen", "rt_oom_disarm", "rt_bad", "rt_interleaving_hash", "rt_sched_log"):
    getattr(fast, n).restype = U64
fast.rt_err.restype = ctypes.c_char_p
fast.rt_shared.restype = ctypes.c_void_p
fast.rt_oom_arm.argtypes = [U64] * 4
fast.rt_draw_set.argtypes = [ctypes.c_int, U64, I64]
fast.rt_reset.argtypes = [ctypes.c_int, U64, ctypes.c_int, ctypes.c_int, U64]
fast.rt_memlimit.argtypes = [U64]
fast.rt_sched_init.argtypes = [ctypes.c_int, U64, U64, ctypes.c_uint32]
fast.rt_sched_list.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
fast.rt_sched_log.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
fast.rt_draw_list.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
fast.rt_dlog_get.argtypes = [ctypes.c_void_p]
fast.rt_dlog_get.restype = ctypes.c_size_t
slow.rt_point.argtypes = [ctypes.c_uint32]
slow.rt_thread_begin.argtypes = [ctypes.c_int]
fast.rt_set_gilcheck.argtypes = [ctypes.c_void_p]

fast.rt_global_init()
assert fast.rt_find_ext(b"_humanleague.cpython")

DT = {"i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f2", "f4", "f8", "b1", ">i2", ">i4", ">i8", ">u4", ">f4", ">f8", "g", "O"}
local = threading.local()


class Sub(np.ndarray):
    pass


class Tmp(np.ndarray):
    hook = None

    def __del__(self):
        h = self.hook
        if h is not None:
            self.hook = None
            h("del")


class Lazy:
    def __init__(self, a, hook, tmp):
        self.a, self.h, self.tmp = a, hook, tmp

    def __array__(self, dtype=None, copy=None):
        if self.h:
            self.h("array")
        if self.tmp:
            t = np.array(self.a, dtype=dtype).view(Tmp)
            t.hook = self.h
            return t
        return np.array(self.a, dtype=dtype) if dtype is not None or copy else self.a


class Ix:
    def __init__(self, v, hook):
        self.v, self.h = v, hook

    def __index__(self):
        if self.h:
            self.h("index")
        return self.v


class Item(float):
    """a float that calls back when it is converted"""
    hook = None

    def __float__(self):
        if self.hook:
            self.hook("float")
        return float.__add__(self, 0.0)


def tup(x):
    return tuple(tup(v) for v in x) if isinstance(x, list) else x


def layout(b, lay):
    if lay == "F":
        return np.asfortranarray(b)
    if lay == "str":
        big = np.full(tuple(2 * s + 1 for s in b.shape), 77, dtype=b.dtype)
        v = big[tuple(slice(1, 2 * s + 1, 2) for s in b.shape)]
        v[...] = b
        return v
    if lay == "neg":
        f = tuple(slice(None, None, -1) for _ in b.shape)
        return np.ascontiguousarray(b[f])[f]
    if lay == "neg0":
        f = (slice(None, None, -1),)
        return np.ascontiguousarray(b[f])[f]
    if lay == "un":
        raw = np.zeros(b.nbytes + 1, dtype="u1")
        v = raw[1:].view(b.dtype).reshape(b.shape)
        v[...] = b
        return v
    if lay == "ro":
        b = b.copy()
        b.flags.writeable = False
        return b
    if lay == "T":
        return np.ascontiguousarray(b.T).T
    if lay == "bc":
        return np.broadcast_to(b.reshape(-1)[:1].reshape(()), b.shape)
    if lay == "bc0":
        return np.broadcast_to(b[:1], b.shape)
    if lay == "sub":
        return b.view(Sub)
    if lay == "slice":
        big = np.full((b.shape[0] + 2,) + b.shape[1:], 55, dtype=b.dtype)
        big[1:-1] = b
        return big[1:-1]
    return b


def build(vals, shape, dflt, spec, hook):
    t = (spec or "").split(".")
    dt = next((x for x in t if x in DT), dflt)
    if "list" in t or "tuple" in t or "items" in t:
        a = np.array(vals, dtype=dflt).reshape(shape).tolist()
        if "items" in t and a and not isinstance(a[0], list):
            a = [Item(v) for v in a]
            a[len(a) // 2].hook = hook
        return tup(a) if "tuple" in t else a
    b = np.array(vals, dtype=dflt).reshape(shape)
    if dt == "O":
        e = b.reshape(-1).tolist()
        if "cb" in t and e:
            # an element calls back when it is converted
            j = len(e) // 2
            if dflt == "f8":
                e[j] = Item(e[j])
                e[j].hook = hook
            else:
                e[j] = Ix(e[j], hook)
        b = np.array(e + [None], dtype=object)[:-1].reshape(shape)
    else:
        b = b.astype(np.dtype(dt))
    for x in t:
        b = layout(b, x)
    if "lazy" in t or "tmp" in t:
        return Lazy(b, hook, "tmp" in t)
    if "rows" in t and b.ndim > 1:
        return [b[i] for i in range(b.shape[0])]
    return b


def snap(x, depth=0):
    if depth > 8 or x is None:
        return None
    if isinstance(x, np.ndarray):
        r = x
        while isinstance(r.base, np.ndarray):
            r = r.base
        return ("nd", x.dtype.str, x.shape, x.strides, x.flags.num, repr(x.tolist()) if x.dtype == object else x.tobytes(),
                b"" if r.dtype == object else r.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v, depth + 1) for v in x])
    if isinstance(x, Lazy):
        return snap(x.a)
    if isinstance(x, Ix):
        return x.v
    return (type(x).__name__, repr(x)) if not isinstance(x, (Raiser, dict)) and type(x) is not object else None


def scrub(x):
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype != object:
            x[...] = 1
    elif isinstance(x, list):
        for v in x:
            if v is not x:
                scrub(v)
        x.clear()
    elif isinstance(x, tuple):
        for v in x:
            scrub(v)
    elif isinstance(x, Lazy):
        scrub(x.a)
        x.a = None


class Raiser:
    def __array__(self, *a, **k):
        raise KeyError("callback")

    def __index__(self):
        raise KeyError("callback")


class BadArray:
    def __array__(self, *a, **k):
        return 5


def expr(e):
    """objects for deliberately odd arguments"""
    if isinstance(e, dict):
        k = next(iter(e))
        v = e[k]
        if k == "np":
            a = np.array(v, dtype=e.get("dt", "i8"))
            return a.reshape(e["sz"]) if "sz" in e else a
        if k == "zeros":
            return np.zeros(v, dtype=e.get("dt", "i8"))
        if k == "l":
            return [expr(x) for x in v]
        if k == "t":
            return tuple(expr(x) for x in v)
        if k == "none":
            return None
        if k == "d":
            return {"a": 1}
        if k == "obj":
            return object()
        if k == "big":
            return 1 << v
        if k == "raise":
            return Raiser()
        if k == "badarr":
            return BadArray()
        if k == "set":
            return {1, 2}
        if k == "cyc":
            a = [1, 2]
            a.append(a)
            return a
        if k == "gen":
            return (x for x in v)
        if k == "mem":
            return memoryview(np.array(v, dtype="i8"))
        if k == "nan":
            return float("nan")
        raise ValueError(k)
    return e


def integer(v, how, hook):
    if how == "np":
        return np.int64(v)
    if how == "np32" and -2**31 <= v < 2**31:
        return np.int32(v)
    if how == "0d" and v >= 0:
        return np.uint64(v)
    if how == "ix":
        return Ix(v, hook)
    return v


BOXES = []       # lists that callbacks of their items refer to: emptied after the call, so as not to leave cycles


def make_args(o, hook):
    """positional arguments with their names"""
    k = o["k"]
    rep = o.get("rep") or {}
    if k == "raw":
        return [(None, expr(e)) for e in o["args"]]
    at = rep.get("hook")
    h = lambda name: hook if at is None or at == name else None
    if k in ("qis", "qisi", "ipf"):
        ia, ma = [], []
        if rep.get("drop") and hook and o.get("keep") is None:
            # an item that calls back also removes itself from the list it was passed in
            BOXES.append(box := [ia, ma])

            def h(name):
                g = hook if at is None or at == name else None
                if name == "seed" or name == "int":
                    return g

                def f(what):
                    if box:
                        l, j = (box[0], int(name[3:])) if name[0] == "i" else (box[1], int(name[1:]))
                        l[j] = None
                    if g:
                        g(what)
                return f
        for j, ix in enumerate(o["idx"]):
            s = (rep.get("idx") or [None] * len(o["idx"]))[j]
            ia.append(build(ix, (len(ix),), "i8", s, h("idx%d" % j)))
        for j, m in enumerate(o["m"]):
            s = (rep.get("m") or [None] * len(o["m"]))[j]
            ma.append(build(m, o["msz"][j], "f8" if k == "ipf" else "i8", s, h("m%d" % j)))
        if rep.get("same"):
            # equal marginals and indices are the same object
            for j in range(1, len(ma)):
                for i in range(j):
                    if o["m"][i] == o["m"][j] and o["msz"][i] == o["msz"][j] and type(ma[i]) is type(ma[j]):
                        ma[j] = ma[i]
        a = [("indices", ia), ("marginals", ma)]
        if k != "qis":
            a.insert(0, ("seed", build(o["seed"], o["seedsz"], "f8", rep.get("seed"), h("seed"))))
        if k != "ipf" and not (o["skips"] == 0 and not rep.get("skips0", 1)):
            a.append(("skips", integer(o["skips"], rep.get("int"), h("int"))))
        return a
    if k == "igr":
        return [("pop", build(o["seed"], o["seedsz"], "f8", rep.get("seed"), h("seed")))]
    if k == "ig1":
        return [("frac", build(o["x"], (len(o["x"]),), "f8", rep.get("seed"), h("seed"))), ("pop", integer(o["pop"], rep.get("int"), h("int")))]
    if k == "flat":
        return [("pop", build(o["a"], o["asz"], "i8", rep.get("seed"), h("seed")))]
    if k == "snew":
        a = [("dim", integer(o["n"][1], rep.get("int"), h("int")))]
        if o["n"][2] or rep.get("skips0", 1):
            a.append(("skips", integer(o["n"][2], rep.get("int2"), h("int"))))
        return a
    return []


FN = {"qis": hl.qis, "qisi": hl.qisi, "ipf": hl.ipf, "igr": hl.integerise, "ig1": hl.integerise, "flat": hl.flatten, "snew": hl.SobolSequence, "ut": getattr(_humanleague, "_unittest", dict)}
RAW = {"qis": hl.qis, "qisi": hl.qisi, "ipf": hl.ipf, "integerise": hl.integerise, "flatten": hl.flatten, "SobolSequence": hl.SobolSequence}


def dbl(v):
    return struct.pack(">d", v).hex()


def arr(a):
    return "%s %d%d%d%d %s" % (a.dtype.str, a.flags.c_contiguous, a.flags.owndata, a.flags.writeable, a.flags.aligned, type(a).__name__)


def encode(k, r):
    """(sizes, iv, dv, st, si, meta)"""
    if k in ("qis", "qisi"):
        a, s = r
        e = s["expectation"]
        return (list(a.shape), [int(x) for x in a.reshape(-1)], [dbl(x) for x in e.reshape(-1)], [dbl(s[x]) for x in ("chiSq", "pValue", "degeneracy")],
                [int(s["conv"]), int(s["pop"])], [arr(a), arr(e), list(e.shape), sorted(s), type(s["conv"]).__name__, type(s["pop"]).__name__])
    if k == "ipf":
        a, s = r
        return (list(a.shape), [], [dbl(x) for x in a.reshape(-1)], [dbl(s["maxError"])], [int(s["conv"]), int(s["pop"]), int(s["iterations"])],
                [arr(a), dbl(float(s["pop"])), sorted(s)])
    if k == "igr":
        a, s = r
        return (list(a.shape), [int(x) for x in a.reshape(-1)], [], [dbl(s["rmse"])], [int(s["conv"])] if "conv" in s else [], [arr(a), sorted(s)])
    if k == "ig1":
        a, s = r
        return (list(a.shape), [int(x) for x in a.reshape(-1)], [], [dbl(s["rmse"])], [], [arr(a), sorted(s)])
    if k == "flat":
        return ([len(r), len(r[0]) if r else 0], [int(x) for c in r for x in c], [], [], [], [type(r).__name__, sorted({type(c).__name__ for c in r}),
                len({len(c) for c in r})])
    if k == "ut":
        return ([], [], [], [], [], [repr(r)])
    return ([], [], [], [], [], [type(r).__name__])


class Run:
    def __init__(self, plan):
        self.plan = plan
        self.out = []
        self.held = []
        self.kept = {}
        self.results = {}
        self.shared = {}

    def point(self, w):
        if getattr(local, "tid", -1) >= 0:
            slow.rt_point(w)

    def op(self, tid, path, o, slots):
        k = o["k"]
        d = {"t": tid, "i": path, "k": k, "fired": 0, "allocs": 0, "live": 0, "steps": 0}
        fast.rt_dlog_mark()
        if k == "gc":
            gc.collect()
            d.update(sizes=[], iv=[], dv=[], st=[], si=[], meta=[])
            self.out.append(d)
            return
        if k == "sdel":
            g = slots.pop(o["n"][0], None)
            if o.get("cyc") and g is not None:
                c = [g]
                c.append(c)
                del c
            del g
            d.update(sizes=[], iv=[], dv=[], st=[], si=[], meta=[])
            self.out.append(d)
            return
        nest = list(o.get("nest") or [])
        live0 = fast.rt_live_blocks()

        def hook(w):
            oom = fast.rt_oom_armed()
            self.point(8)
            if o.get("cbgc"):
                gc.collect()
            if nest and not oom:
                q, nest[:] = list(nest), []
                for j, n in enumerate(q):
                    self.op(tid, path + [w, j], n, slots)
            self.point(9)

        try:
            if o.get("again") is not None and o["again"] in self.kept:
                args = self.kept[o["again"]]
            elif o.get("shared") is not None:
                args = self.shared[o["shared"]]
            elif o.get("res") is not None:
                args = [("pop", self.results[o["res"]])]
            else:
                args = make_args(o, hook)
            if o.get("keep") is not None:
                self.kept[o["keep"]] = args
        except KeyError if o.get("res") is not None else () as e:
            d["exc"] = "no population"
            d["fired"] = 1
            self.out.append(d)
            return
        except Exception as e:
            d["harness"] = "%s %s" % (type(e).__name__, e)
            self.out.append(d)
            return
        loose = o.get("res") is None and o.get("again") is None and o.get("shared") is None and o.get("keep") is None
        before = [snap(x) for _, x in args]
        pos, kw = [x for _, x in args], {}
        if (o.get("rep") or {}).get("kw") and args and args[0][0]:
            n = (o["rep"]["kw"] - 1) % len(args)
            kw = dict(args[n:])
            pos = [x for _, x in args[:n]]
        g = None
        if k in ("sbuf", "sop"):
            g = slots.get(o["n"][0]) if o["n"][0] < 100 else self.sgen[o["n"][0] - 100]
            if g is None:
                d.update(sizes=[], iv=[], dv=[], st=[], si=[], meta=[])
                self.out.append(d)
                return
        fn = RAW[o["fn"]] if k == "raw" else FN.get(k)
        dr = o.get("draw") or [0, 0, -1]
        fast.rt_draw_set(dr[0], dr[1], dr[2])
        if dr[0] == 12:
            dl = (ctypes.c_uint32 * max(1, len(o["dlist"])))(*o["dlist"])
            fast.rt_draw_list(dl, len(o["dlist"]))
        steps = fast.rt_steps()
        oom = o.get("oom")
        res, exc, vals = None, None, []
        if oom and any(oom):
            fast.rt_oom_arm(*oom)
        try:
            if g is not None:
                it = iter(g)
                for _ in range(o["n"][1]):
                    if o["n"][0] >= 100 and vals:
                        self.point(7)
                    vals.append(next(it))
            else:
                res = fn(*pos, **kw)
        except BaseException as e:
            exc = "%s %s" % (type(e).__name__, str(e).split("\n")[0][:160])
            if "0x" in exc:
                exc = exc.split("0x")[0]
            d["raised"] = type(e).__name__
            e.__traceback__ = None
            del e
        finally:
            d["fired"] = fast.rt_oom_disarm()
            d["allocs"] = fast.rt_oom_seen() if oom and any(oom) else 0
            fast.rt_draw_set(0, 0, -1)
        del pos, kw
        if (o.get("rep") or {}).get("drop"):
            for b in BOXES:
                b.clear()
            BOXES.clear()
        if exc is not None:
            res = None
        d["steps"] = fast.rt_steps() - steps
        if (o.get("rep") or {}).get("drop"):
            for (_, x), b in zip(args, before):
                if isinstance(x, list):
                    for j, e in enumerate(x):
                        if e is None:
                            b[1][j] = None
            x = b = e = None
        if [snap(x) for _, x in args] != before:
            j = [snap(x) != b for (_, x), b in zip(args, before)].index(True)
            d["mod"] = "argument %d (%s) was modified" % (j, args[j][0])
        if loose:
            for _, x in args:
                scrub(x)
            x = None
        args = None
        if exc is not None:
            d["exc"] = exc
            if g is not None:
                d["part"] = [dbl(x) for v in vals for x in v]
        elif g is not None:
            d.update(sizes=[len(vals)], iv=[], dv=[dbl(x) for v in vals for x in v], st=[], si=[], meta=sorted({arr(v) for v in vals}) + sorted({str(v.shape) for v in vals}))
            if o.get("hold"):
                self.held.append((d, "sobol", vals))
        else:
            try:
                s = encode(k, res)
            except Exception as e:
                s = ([], [], [], [], [], ["unexpected result", type(e).__name__, str(e)[:100]])
                d["odd"] = "result of unexpected form: %s %s" % (type(e).__name__, str(e)[:100])
            d.update(zip(("sizes", "iv", "dv", "st", "si", "meta"), s))
            if o.get("save") is not None:
                self.results[o["save"]] = res[0]
            if k == "snew":
                slots[o["n"][0]] = res
            elif k != "raw" and o.get("hold"):
                self.held.append((d, k, res))
        res = None
        vals = None
        g = None
        if o.get("gcafter"):
            gc.collect()
        d["live"] = (fast.rt_live_blocks() - live0 + (1 << 63)) % (1 << 64) - (1 << 63)
        self.out.append(d)

    def thread(self, tid, ops, slots):
        local.tid = tid if len(self.plan["threads"]) > 1 else -1
        _hlnpmem.install()
        for i, o in enumerate(ops):
            self.point(1)
            self.op(tid, [i], o, slots)

    def body(self, tid, ops, slots):
        slow.rt_thread_begin(tid)
        self.thread(tid, ops, slots)
        slow.rt_thread_end()

    def run(self):
        p = self.plan
        h = p.get("heap") or {"seed": 1, "fill": 0, "reuse": 0}
        th = p["threads"]
        fast.rt_clear_err()
        fast.rt_memlimit(p.get("memlimit", 0))
        fast.rt_reset(1, h["seed"], h["fill"], h["reuse"], p.get("budget") or 4_000_000_000)
        fast.rt_set_gilcheck(ctypes.cast(ctypes.pythonapi.PyGILState_Check, ctypes.c_void_p).value)
        if p.get("dlog"):
            fast.rt_dlog(1)
        _hlnpmem.install()
        if p.get("gc"):
            gc.enable()
            gc.set_threshold(*p["gc"])
        for j, o in enumerate(p.get("shared") or []):
            self.shared[j] = make_args(o, None)
        # generators that all threads use
        self.sgen = [hl.SobolSequence(*x) for x in p.get("sgen") or []]
        slots = [{} for _ in th]
        n = len(th)
        if n == 1:
            self.thread(0, th[0], slots[0])
        else:
            s = p.get("sched") or {}
            fast.rt_sched_init(n, s.get("seed", 0), s.get("mean", 0), s.get("ppm", 0))
            if s.get("list") is not None:
                flat = [x for t in s["list"] for x in t]
                buf = (U64 * max(1, len(flat)))(*flat)
                fast.rt_sched_list(buf, len(flat) // 3)
            ts = [threading.Thread(target=self.body, args=(t, ops, slots[t])) for t, ops in enumerate(th)]
            for t in ts:
                t.start()
            slow.rt_run_all()
            for t in ts:
                t.join()
        gc.disable()
        for d, k, r in self.held:
            now = [dbl(x) for v in r for x in v] if k == "sobol" else None
            if now is not None:
                if now != d["dv"]:
                    d["chg"] = "values returned earlier changed"
            elif list(encode(k, r)) != [d[x] for x in ("sizes", "iv", "dv", "st", "si", "meta")]:
                d["chg"] = "the returned population or statistics changed after the call"
        fast.rt_check_heap()
        out = {"res": self.out, "ilhash": fast.rt_interleaving_hash() if n > 1 else 0, "steps": fast.rt_steps()}
        if n > 1:
            cnt = fast.rt_sched_log(None, 1 << 16)
            cnt = min(cnt, 1 << 16)
            buf = (U64 * (3 * max(1, cnt)))()
            fast.rt_sched_log(buf, cnt)
            out["switches"] = [list(buf[3 * i:3 * i + 3]) for i in range(min(cnt, 1 << 16))]
        if p.get("dlog"):
            ptr = ctypes.POINTER(ctypes.c_uint32)()
            nn = fast.rt_dlog_get(ctypes.byref(ptr))
            out["dlog"] = ptr[:nn]
        fast.rt_off()
        fast.rt_flush_steps()
        return out


def read(n):
    b = b""
    while len(b) < n:
        k = os.read(0, n - len(b))
        if not k:
            os._exit(0)
        b += k
    return b


def write(fd, b):
    m = memoryview(b)
    while m:
        m = m[os.write(fd, m):]


def child(fd, b):
    import resource
    resource.setrlimit(resource.RLIMIT_CPU, (60, 61))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    out = Run(json.loads(b)).run()
    write(fd, json.dumps(out).encode())
    os._exit(0)


def main():
    out = os.dup(1)
    os.dup2(2, 1)
    dn = os.open("/dev/null", os.O_WRONLY)
    while True:
        n, = struct.unpack("<Q", read(8))
        if n == 0:
            p = fast.rt_shared()
            write(out, ctypes.string_at(p, 80) + ctypes.string_at(p + 88 + 512, 1 << 16))
            continue
        b = read(n)
        r, w = os.pipe()
        fast.rt_clear_err()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                if not os.environ.get("HLSIM_DEBUG"):
                    os.dup2(dn, 2)
                child(w, b)
            except BaseException as e:
                try:
                    import traceback
                    write(w, b"HARNESS " + traceback.format_exc().encode())
                finally:
                    os._exit(95)
        os.close(w)
        data = b""
        while True:
            k = os.read(r, 1 << 20)
            if not k:
                break
            data += k
        os.close(r)
        _, st = os.waitpid(pid, 0)
        err = fast.rt_err() or b""
        write(out, struct.pack("<qQQ", st, fast.rt_bad(), len(err)) + err + struct.pack("<Q", len(data)) + data)


gc.freeze()
main()
