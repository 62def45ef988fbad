"""Runs plans twice (fresh worlds, opposite order, different company) and compares the digests of their histories."""
import multiprocessing as mp
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hlsim import props, runner  # noqa: E402


def some(a):
    pid, seed, idx = a
    p = props.get(pid)
    ctx = runner.Ctx(runner.make_paths(p.worlds))
    out = {}
    for i in idx:
        out[i] = p.evaluate(runner.plan_for(p, seed, "quick", i), ctx).digest()
    ctx.close()
    return out


def main():
    n = int(sys.argv[1])
    bad = 0
    for pid in sys.argv[2:] or sorted(props.ALL):
        runner.make_paths(props.get(pid).worlds)
        for seed in (1, 2):
            with mp.Pool(8) as pool:
                a, b = {}, {}
                for x in pool.map(some, [(pid, seed, range(w, n, 8)) for w in range(8)]):
                    a.update(x)
                for x in pool.map(some, [(pid, seed, range(n - 1 - w, -1, -5)) for w in range(5)]):
                    b.update(x)
            d = [i for i in a if a[i] != b[i]]
            print(pid, "seed", seed, "plans", n, "different", d[:10])
            bad += len(d)
    return bad > 0


if __name__ == "__main__":
    sys.exit(main())
