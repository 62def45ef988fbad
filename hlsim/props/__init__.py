from . import solve, sobol, isolation, faults, requests, pyprops

ALL = {c.id: c for m in (solve, sobol, isolation, faults, requests, pyprops) for c in m.PROPS}
try:
    from . import rprops
    ALL.update({c.id: c for c in rprops.PROPS})
except ImportError:
    pass


def get(pid):
    return ALL[pid]()
