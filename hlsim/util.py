"""Small shared helpers: seeded random source, hashing, array arithmetic on flat row-major lists."""
import hashlib
import itertools
import json


class Rng:
    """splitmix64; every random choice of a run comes from one of these, seeded from (VERIF_SEED, property, index)."""
    __slots__ = ("s",)
    M = (1 << 64) - 1

    def __init__(self, *parts):
        h = hashlib.blake2b("/".join(str(p) for p in parts).encode(), digest_size=8).digest()
        self.s = int.from_bytes(h, "little")

    def u64(self):
        self.s = (self.s + 0x9e3779b97f4a7c15) & self.M
        z = self.s
        z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & self.M
        z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & self.M
        return z ^ (z >> 31)

    def below(self, n):
        return self.u64() % n if n > 0 else 0

    def rng(self, a, b):
        """inclusive"""
        return a + self.below(b - a + 1)

    def chance(self, p):
        return self.u64() < p * 18446744073709551616.0

    def pick(self, xs):
        return xs[self.below(len(xs))]

    def weighted(self, pairs):
        t = sum(w for _, w in pairs)
        r = self.below(int(t * 1000)) / 1000.0
        for v, w in pairs:
            if r < w:
                return v
            r -= w
        return pairs[-1][0]

    def shuffle(self, xs):
        xs = list(xs)
        for i in range(len(xs) - 1, 0, -1):
            j = self.below(i + 1)
            xs[i], xs[j] = xs[j], xs[i]
        return xs

    def small(self, hi):
        """0..hi, biased to small"""
        return min(self.below(hi + 1), self.below(hi + 1))

    def unit(self):
        return (self.u64() >> 11) / 9007199254740992.0

    def fork(self, tag):
        return Rng(self.u64(), tag)


def h64(obj):
    return hashlib.blake2b(json.dumps(obj, sort_keys=True, default=str).encode(), digest_size=8).hexdigest()


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def strides(sizes):
    st = [0] * len(sizes)
    m = 1
    for i in range(len(sizes) - 1, -1, -1):
        st[i] = m
        m *= sizes[i]
    return st


def indices(sizes):
    return itertools.product(*[range(s) for s in sizes])


_marg_cache = {}


def marg_map(sizes, dims):
    """for every flat position of an array of these sizes, the flat position in its reduction to dims (in that order)"""
    key = (tuple(sizes), tuple(dims))
    m = _marg_cache.get(key)
    if m is None:
        if len(_marg_cache) > 20000:
            _marg_cache.clear()
        ds = [sizes[d] for d in dims]
        st = strides(ds)
        m = [sum(ix[d] * s for d, s in zip(dims, st)) for ix in indices(sizes)]
        _marg_cache[key] = m
    return m


def reduce_to(flat, sizes, dims):
    out = [0] * prod(sizes[d] for d in dims)
    for p, v in zip(marg_map(sizes, dims), flat):
        out[p] += v
    return out


def transpose_rev(flat, sizes):
    """row-major data of an array with sizes -> row-major data of the array with its dimensions reversed"""
    rs = list(reversed(sizes))
    st = strides(sizes)
    n = len(sizes)
    return [flat[sum(ix[n - 1 - d] * st[d] for d in range(n))] for ix in indices(rs)]


def no_aslr():
    """in a child about to become a simulated world: the same addresses in every run, where the kernel allows it"""
    import ctypes
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass
