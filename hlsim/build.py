"""Builds the simulated worlds from /repo's working tree."""
import fcntl
import functools
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HLSIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, ".build")

COV_CLANG = "-fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores".split()
WRAP_DRAW = ["nlopt_sobol_next", "nlopt_sobol_create", "nlopt_sobol_destroy"]
WRAP_ALLOC = ["malloc", "calloc", "realloc", "free"]
WRAP_SYNC = ["pthread_mutex_lock", "pthread_once", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def digest(extra=()):
    h = hashlib.blake2b(digest_size=10)
    for base in (os.path.join(REPO, "src"), os.path.join(REPO, "humanleague"), os.path.join(REPO, "R"), SIM):
        for f in sorted(glob.glob(base + "/**/*", recursive=True)):
            if os.path.isfile(f) and not f.endswith((".o", ".so", ".pyc")):
                h.update(f.encode() + b"\0")
                h.update(open(f, "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    for e in extra:
        h.update(str(e).encode())
    return h.hexdigest()


def sources(world):
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")) + glob.glob(os.path.join(REPO, "src", "*.c"))):
        b = os.path.basename(f)
        if world == "core" and (b in ("module.cpp", "rcpp_api.cpp", "RcppExports.cpp", "humanleague_init.c", "UnitTester.cpp") or b.startswith("Test")):
            continue
        if world == "py" and b in ("rcpp_api.cpp", "RcppExports.cpp", "humanleague_init.c"):
            continue
        if world == "r" and b == "module.cpp":
            continue
        out.append(f)
    return out


def parallel(cmds):
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(run, c) for c in cmds]:
            f.result()


def wraps(names):
    return ["-Wl," + ",".join("--wrap=" + n for n in names)]


def in_dir(name, make):
    """make(dir) once for this digest; concurrent callers wait"""
    d = os.path.join(BUILD, digest() + "-" + name)
    if os.path.exists(os.path.join(d, "ok")):
        return d
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, "ok")):
            return d
        # old products of the same world are not needed any more
        for o in glob.glob(os.path.join(BUILD, "*-" + name)):
            if o != d:
                shutil.rmtree(o, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        make(d)
        open(os.path.join(d, "ok"), "w").close()
    return d


def build_rt(d):
    run(["g++", "-O2", "-g", "-fPIC", "-shared", "-std=c++17", "-ftls-model=initial-exec", "-fno-plt", "-o", d + "/libsimrt.so", SIM + "/rt.cpp", "-lpthread"])


def build_core(d):
    # instrumented: every edge and memory access of the library is a scheduling point and a tick of the step clock
    fl = "-O1 -g1 -std=c++20 -DNDEBUG -fno-strict-overflow".split() + ["-I" + os.path.join(REPO, "src")]
    objs, cmds = [], []
    for f in sources("core"):
        o = "%s/%s.o" % (d, os.path.basename(f))
        objs.append(o)
        cmds.append(["clang++", *fl, *COV_CLANG, "-c", f, "-o", o])
    cmds.append(["clang++", *fl, *COV_CLANG, "-c", SIM + "/core_main.cpp", "-o", d + "/core_main.o"])
    cmds.append(["clang++", *fl, "-c", SIM + "/glue.cpp", "-o", d + "/glue.o"])
    cmds.append(["clang++", *fl, "-c", SIM + "/glue_alloc.cpp", "-o", d + "/glue_alloc.o"])
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(run, c) for c in cmds]
        rt = ex.submit(build_rt, d)
        for f in fs:
            f.result()
        rt.result()
    run(["clang++", "-o", d + "/core", *objs, d + "/core_main.o", d + "/glue.o", d + "/glue_alloc.o",
         *wraps(WRAP_DRAW + WRAP_ALLOC + WRAP_SYNC), "-L" + d, "-lsimrt", "-Wl,-rpath,$ORIGIN", "-lpthread"])
    for o in objs:
        os.unlink(o)


def build_core_opt(d):
    """the same executor around an uninstrumented, optimised library (for histories of 2^32 points)"""
    fl = "-O2 -std=c++20 -DNDEBUG -fno-strict-overflow".split() + ["-I" + os.path.join(REPO, "src")]
    objs, cmds = [], []
    for f in sources("core") + [SIM + "/core_main.cpp", SIM + "/glue.cpp", SIM + "/glue_alloc.cpp"]:
        o = "%s/%s.o" % (d, os.path.basename(f))
        objs.append(o)
        cmds.append(["clang++", *fl, "-c", f, "-o", o])
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(run, c) for c in cmds] + [ex.submit(build_rt, d)]
        for f in fs:
            f.result()
    run(["clang++", "-o", d + "/core", *objs, *wraps(WRAP_DRAW + WRAP_ALLOC + WRAP_SYNC), "-L" + d, "-lsimrt", "-Wl,-rpath,$ORIGIN", "-lpthread"])


@functools.lru_cache(None)
def venv_numpy():
    return run(["/opt/vp/venv/bin/python", "-c", "import numpy,os;print(os.path.dirname(numpy.__file__))"], cwd="/").strip()


@functools.lru_cache(None)
def venv():
    py = "/opt/vp/venv/bin/python"
    q = "import sys,sysconfig,numpy,pybind11;print(numpy.get_include());print(pybind11.get_include());print(sysconfig.get_path('include'));print(sysconfig.get_config_var('EXT_SUFFIX'))"
    np_inc, pb_inc, inc, suf = run([py, "-c", q], cwd="/").split()
    return py, np_inc, pb_inc, inc, suf


def build_py(d):
    """the extension and package, as Python loads them; everything but the binding layer is instrumented"""
    py, np_inc, pb_inc, inc, suf = venv()
    fl = "-fno-strict-overflow -DNDEBUG -g1 -O1 -fPIC -DPYTHON_MODULE -fvisibility=hidden -std=c++20".split() + ["-I" + os.path.join(REPO, "src"), "-I" + pb_inc, "-I" + inc]
    objs, cmds = [], []
    for f in sources("py"):
        b = os.path.basename(f)
        o = "%s/%s.o" % (d, b)
        objs.append(o)
        cmds.append(["g++", *fl, *(["-finstrument-functions", "-finstrument-functions-exclude-file-list=/include/,/pybind11/"] if b == "module.cpp" else ["-fsanitize-coverage=trace-pc"]), "-c", f, "-o", o])
    cmds.sort(key=lambda c: "module.cpp" not in c[-3])
    for g in ("glue", "glue_alloc", "glue_py"):
        objs.append("%s/%s.o" % (d, g))
        cmds.append(["g++", "-fPIC", "-O1", "-std=c++20", "-I" + os.path.join(REPO, "src"), "-c", "%s/%s.cpp" % (SIM, g), "-o", objs[-1]])
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(run, c) for c in cmds]
        build_rt(d)
        run(["gcc", "-O1", "-fPIC", "-shared", "-I" + np_inc, "-I" + inc, SIM + "/npmem.c", "-o", "%s/_hlnpmem%s" % (d, suf), "-L" + d, "-lsimrt", "-Wl,-rpath,$ORIGIN"])
        for f in fs:
            f.result()
    run(["g++", "-shared", "-o", "%s/_humanleague%s" % (d, suf), *objs, *wraps(WRAP_DRAW + WRAP_ALLOC + WRAP_SYNC + ["PyEval_RestoreThread"]), "-L" + d, "-lsimrt", "-Wl,-rpath,$ORIGIN", "-lpthread"])
    for o in objs:
        os.unlink(o)
    shutil.copytree(os.path.join(REPO, "humanleague"), d + "/humanleague", ignore=shutil.ignore_patterns("__pycache__"))
    os.makedirs(d + "/humanleague-0.dist-info")
    with open(d + "/humanleague-0.dist-info/METADATA", "w") as f:
        f.write("Metadata-Version: 2.1\nName: humanleague\nVersion: 0\n")


def build_r(d):
    """the R package's shared object and R code, loaded as R loads them; everything but the binding layer is instrumented"""
    rcpp, rinc = run(["Rscript", "--vanilla", "-e", 'cat(system.file("include", package="Rcpp"), R.home("include"))'], cwd="/").split()
    fl = "-DNDEBUG -g1 -O1 -fPIC -std=gnu++17 -fno-strict-overflow".split() + ["-I" + os.path.join(REPO, "src"), "-I" + rcpp, "-I" + rinc]
    objs, cmds = [], []
    for f in sources("r"):
        b = os.path.basename(f)
        o = "%s/%s.o" % (d, b)
        objs.append(o)
        if b.endswith(".c"):
            cmds.append(["gcc", "-O1", "-fPIC", "-I" + rinc, "-c", f, "-o", o])
        else:
            x = ["-fsanitize-coverage=trace-pc"]
            if b == "rcpp_api.cpp":
                x = ["-finstrument-functions", "-finstrument-functions-exclude-file-list=/include/"]
            elif b == "RcppExports.cpp" or b.startswith("Test") or b == "UnitTester.cpp":
                x = []
            cmds.append(["g++", *fl, *x, "-c", f, "-o", o])
    cmds.sort(key=lambda c: not ("rcpp" in c[-3] or "Rcpp" in c[-3]))
    for g in ("glue", "glue_alloc"):
        objs.append("%s/%s.o" % (d, g))
        cmds.append(["g++", "-fPIC", "-O1", "-std=c++20", "-c", "%s/%s.cpp" % (SIM, g), "-o", objs[-1]])
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(run, c) for c in cmds]
        build_rt(d)
        run(["g++", "-O1", "-fPIC", "-shared", "-std=c++17", "-I" + rinc, SIM + "/rglue.cpp", "-o", d + "/rglue.so", "-L" + d, "-lsimrt", "-Wl,-rpath,$ORIGIN"])
        for f in fs:
            f.result()
    run(["g++", "-shared", "-o", d + "/humanleague.so", *objs, *wraps(WRAP_DRAW + WRAP_ALLOC + WRAP_SYNC), "-L" + d, "-lsimrt", "-Wl,-rpath,$ORIGIN", "-lpthread"])
    for o in objs:
        os.unlink(o)
    shutil.copytree(os.path.join(REPO, "R"), d + "/R")


def r():
    return in_dir("r", build_r)


def py():
    return in_dir("py", build_py)


def core_opt():
    return os.path.join(in_dir("coreopt", build_core_opt), "core")


def core():
    return os.path.join(in_dir("core", build_core), "core")


if __name__ == "__main__":
    t = time.time()
    print(core(), time.time() - t)
