"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
CORE = "Assumes: seeded sampling, not enumeration; the simulated world is the real C++ core, compiled from /repo, in one process with its allocator, thread scheduler and quasirandom source under the simulator. "
PY = "Also runs the real Python extension in the real CPython/NumPy with allocator, garbage collector, interpreter-lock hand-over and argument callbacks under the simulator. "
CHECKS = {
 "C01": (T + "seeded search over quasirandom-point histories injected at the Sobol seam, heap contents and problems; reference-model oracle", CORE + PY + "Convergence is only demanded where the statement demands it."),
 "C02": (T + "seeded search over point histories, seeds with structural zeros and heap contents; reference-model oracle", CORE + PY),
 "C03": (T + "seeded search over point histories and fractional populations; reference-model oracle", CORE + PY),
 "C04": (T + "seeded interleavings of generator life cycles, allocation faults and collections against an independent Joe-Kuo reference", CORE + PY + "Trusts the committed direction-number table it is compared with only through an independent copy of the published numbers."),
 "C05": (T + "seeded Python thread schedules, re-entrant callbacks and collections; every call compared with the same call alone", PY + "Preemption points: callbacks, collections and every place where the library releases the interpreter lock (and then any instruction)."),
 "C06": (T + "seeded preemption of real threads at any control-flow edge or memory access, parked and released one at a time, some schedules directed at accesses to static and shared memory; every call compared with the same call alone", CORE + "Sequentially consistent interleavings only."),
 "C07": (T + "allocation failure injected at the n-th allocation, at runs of them and at seeded rates; comparison with the fault-free run, leak and heap checks", CORE + PY + "pybind11's own dispatcher is not required to survive failing allocations."),
 "C08": (T + "seeded argument representations, lifetimes, mutations and collection points; comparison with the canonical representation", PY),
 "C09": (T + "seeded call histories with failures and adversarial heap contents; comparison with the call alone in a fresh process, red zones and poisoned free blocks", CORE + PY),
 "C10": (T + "seeded malformed and extreme requests among valid ones, under a step budget and allocation faults", CORE + PY + "Work is measured in executed basic blocks, not seconds."),
 "C11": (T + "seeded collection schedules (gctorture), allocation failures and call sequences in a real R session, against the core and reference models", "Runs the package's real C++ sources in the real R with its collector and the library's allocator under the simulator."),
 "C12": (T + "seeded populations from sampled runs, allocation failures and retries; reference-model oracle", CORE + PY),
 "C13": (T + "recorded histories of points consumed at the Sobol seam, with injected points, against the sequence reference", CORE + PY + "If a change removes the calls through which points are drawn, the history is empty and only the outcome-based part decides."),
 "C15": (T + "seeded requests on adversarial heaps with failing allocations; recomputed reports and a reference fit", CORE + PY + "R's ipf is compared with this core under C11."),
 "C14": (T + "seeded point histories; statistics recomputed from the returned population in high precision", CORE + PY + "Tolerances follow from double rounding of the documented formulas."),
}
NA = {
 "N03": "Accuracy of special functions is a pure numerical property of stateless functions.",
 "N04": "Equidistribution is a fixed mathematical property of the direction-number table; the sequence itself is compared with a reference under C04.",
}
import sys
sys.path.insert(0, ROOT)
from hlsim import props  # noqa: E402

have = [p for p in CHECKS if p in props.ALL]
m = {"version": 1, "setup_cmd": "python3 -m hlsim.setup",
     "checks": [{"property": p, "quick_cmd": "python3 -m hlsim.check %s" % p, "thorough_cmd": "python3 -m hlsim.check %s --tier thorough" % p,
                 "technique": CHECKS[p][0], "level": "exploration", "level_note": CHECKS[p][1].strip()} for p in have],
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()] + [{"property": p, "reason": "machinery not finished"} for p in CHECKS if p not in have],
     "notes": "No hooks in /repo: the seams are link-time wraps, an allocator shim, NumPy's allocator interface and R's collector controls. Replay a violation with: python3 -m hlsim.check <id> --replay <file>. Regenerated by tools/gen_manifest.py."}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
