"""Representations of the same argument values in Python."""
from . import gen
from .util import prod

PYKINDS = {"qis", "qisi", "ipf", "igr", "ig1", "flat", "snew", "sbuf", "sdel", "gc", "raw"}


def dtypes(vals, kind):
    """element types that hold all these values exactly"""
    if any(v != v or v in (float("inf"), float("-inf")) for v in vals):
        return ["f8", ">f8", "g"]
    integral = all(float(v).is_integer() for v in vals)
    mx, mn = max(vals, default=0), min(vals, default=0)
    out = ["f8", ">f8", "g", "O"]
    if integral:
        if -(1 << 63) <= mn and mx < 1 << 63:
            out += ["i8", ">i8"]
        if mn >= 0 and mx < 1 << 63:
            out += ["u8"]
        for n, b in (("i1", 7), ("i2", 15), (">i2", 15), ("i4", 31), (">i4", 31)):
            if -(1 << b) <= mn and mx < 1 << b:
                out.append(n)
        for n, b in (("u1", 8), ("u2", 16), ("u4", 32), (">u4", 32)):
            if mn >= 0 and mx < 1 << b:
                out.append(n)
        if -2048 <= mn and mx <= 2048:
            out.append("f2")
        if abs(mn) < 1 << 24 and mx < 1 << 24:
            out += ["f4", ">f4"]
        if mn >= 0 and mx <= 1:
            out.append("b1")
    elif all(abs(v) < 1e6 and float(v * 64).is_integer() and abs(v * 64) < 1 << 20 for v in vals):
        out += ["f4", ">f4"]
    if kind == "i" and not integral:
        return ["f8"]
    return out


def spec(r, vals, shape, kind, calls=False):
    t = []
    n = prod(shape)
    c = r.weighted([("", 7), ("list", 2), ("tuple", 1), ("lazy", 2 if calls else 0.7), ("tmp", 2 if calls else 0.5), ("rows", 0.7), ("items", (1 if calls else 0.3) if kind == "d" and len(shape) == 1 else 0)])
    if c:
        t.append(c)
    if c not in ("list", "tuple", "items"):
        d = r.pick(dtypes(vals, kind)) if r.chance(0.6) else ("i8" if kind == "i" else "f8")
        t.append(d)
        if d == "O" and (kind == "d" or all(float(v).is_integer() for v in vals)) and r.chance(0.6):
            t.append("cb")
        if n and r.chance(0.7):
            lay = ["F", "str", "neg", "neg0", "ro", "T", "sub", "slice"]
            if d != "O":
                lay.append("un")
            if all(v == vals[0] for v in vals):
                lay += ["bc", "bc"]
            w = n // shape[0]
            if all(vals[j] == vals[j % w] for j in range(n)):
                lay.append("bc0")
            if len(shape) > 1:
                lay += ["F", "T", "F"]
            t.append(r.pick(lay))
    return ".".join(t)


def rep(r, o, calls=False):
    """another way of passing the arguments of o"""
    k = o["k"]
    p = {}
    if r.chance(0.3):
        p["kw"] = r.rng(1, 4)
    if k in ("qis", "qisi", "ipf"):
        p["idx"] = [spec(r, i, [len(i)], "i", calls) if r.chance(0.5) else None for i in o["idx"]]
        p["m"] = [spec(r, m, s, "d" if k == "ipf" else "i", calls) if r.chance(0.75) else None for m, s in zip(o["m"], o["msz"])]
        if r.chance(0.2):
            p["same"] = 1
        if r.chance(0.3 if calls else 0.1):
            p["drop"] = 1
        if k != "qis":
            p["seed"] = spec(r, o["seed"], o["seedsz"], "d", calls) if r.chance(0.8) else None
    elif k == "igr":
        p["seed"] = spec(r, o["seed"], o["seedsz"], "d", calls)
    elif k == "ig1":
        p["seed"] = spec(r, o["x"], [len(o["x"])], "d", calls)
    elif k == "flat" and "a" in o:
        p["seed"] = spec(r, o["a"], o["asz"], "i", calls)
    if k in ("qis", "qisi", "ig1", "snew"):
        p["int"] = r.weighted([(None, 4), ("np", 1), ("np32", 1), ("0d", 1), ("ix", 1.5 if calls else 0.5)])
        if r.chance(0.3):
            p["int2"] = "np"
        if r.chance(0.5):
            p["skips0"] = 0
    return p


def to_py(r, plan, p=0.6, calls=False):
    """the same plan, run through Python"""
    th = []
    for ops in plan["threads"]:
        new = []
        for o in ops:
            if o["k"] not in PYKINDS:
                continue
            o = dict(o)
            if r.chance(p):
                o["rep"] = rep(r, o, calls)
            if r.chance(0.3):
                o["hold"] = 1
            new.append(o)
        th.append(new)
    out = dict(plan, threads=th, world="py")
    if r.chance(0.2):
        out["gc"] = [r.rng(1, 20), 2, 2]
    return out
