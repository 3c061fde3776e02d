#!/usr/bin/env python3
"""Content-addressed build of /repo's compiled library sources plus one harness.

usage: build.py [--variant opt|asan] HARNESS...      prints the path of each built binary
Objects are cached under /verif/build (git-ignored) under the hash of: flags, every header of
/repo/src and /verif/harness, and the source itself, so any change in /repo is always seen."""
import sys, os, hashlib, subprocess, glob, concurrent.futures as cf, fcntl

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
DIRS = ["Interfaces", "Interfaces/Ipopt", "Algorithms", "Algorithms/Branching",
        "Algorithms/OaGenerators", "Algorithms/QuadCuts", "CbcBonmin", "CbcBonmin/Heuristics"]
# never compiled by the project in this configuration (see the Makefile.am lists)
EXCLUDE = {"BonCurvatureEstimator.cpp", "BonStdCInterface.cpp", "BonStdInterfaceTMINLP.cpp",
           "BonCurvBranchingSolver.cpp"}
VARIANTS = {
    "opt": (["-O1"], []),
    "asan": (["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address"], ["-fsanitize=address"]),
}
LIBS = ["-lipopt", "-lCbcSolver", "-lCbc", "-lCgl", "-lOsiClp", "-lClpSolver", "-lClp", "-lOsi",
        "-lCoinUtils", "-lm"]

def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode()); m.update(b"\0")
    return m.hexdigest()[:24]

def rd(p):
    with open(p, "rb") as f: return f.read()

def main():
    a = sys.argv[1:]
    variant = "opt"
    if a and a[0] == "--variant": variant = a[1]; a = a[2:]
    cfl, lfl = VARIANTS[variant]
    inc = ["-I" + os.path.join(VERIF, "tools/config")] + ["-I%s/src/%s" % (REPO, d) for d in DIRS] + \
          ["-I" + os.path.join(VERIF, "harness"), "-I/usr/include/coin"]
    flags = ["-std=gnu++17", "-w", "-DHAVE_CONFIG_H", "-DHAVE_CSTDDEF", "-DBONMINLIB_BUILD"] + cfl + inc
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    hdr_repo = sorted(glob.glob(REPO + "/src/**/*.h*", recursive=True)) + sorted(glob.glob(VERIF + "/tools/config/*.h"))
    hdr_own = sorted(glob.glob(VERIF + "/harness/*.h*"))
    H = h(*(x for p in hdr_repo for x in (os.path.relpath(p, REPO), rd(p))))
    HO = h(*(x for p in hdr_own for x in (os.path.basename(p), rd(p))))
    odir = os.path.join(BUILD, variant); os.makedirs(odir, exist_ok=True)
    srcs = []
    for d in DIRS:
        for p in sorted(glob.glob("%s/src/%s/*.cpp" % (REPO, d))):
            if os.path.basename(p) not in EXCLUDE: srcs.append(p)
    jobs, lib_objs, bins = [], [], []
    F = " ".join(flags)
    for p in srcs:
        o = os.path.join(odir, os.path.basename(p)[:-4] + "." + h(F, H, rd(p)) + ".o")
        lib_objs.append(o); jobs.append((p, o))
    hobjs = {}
    for n in a:
        p = os.path.join(VERIF, "harness", n + ".cpp")
        o = os.path.join(odir, "H_" + n + "." + h(F, H, HO, rd(p)) + ".o")
        hobjs[n] = o; jobs.append((p, o))
    todo = [(p, o) for p, o in jobs if not os.path.exists(o)]
    todo.sort(key=lambda t: -os.path.getsize(t[0]))
    def comp(t):
        p, o = t
        extra = []
        if p.startswith(VERIF):   # harness-specific flags: a first line "// BUILD: flags"
            l = open(p).readline()
            if l.startswith("// BUILD:"): extra = l[9:].split()
        r = subprocess.run(["g++"] + flags + extra + ["-c", p, "-o", o + ".tmp"], capture_output=True, text=True)
        if r.returncode: return (p, r.stderr)
        os.rename(o + ".tmp", o); return None
    with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        errs = [e for e in ex.map(comp, todo) if e]
    if errs:
        for p, e in errs: sys.stderr.write("compile error: %s\n%s\n" % (p, e[:4000]))
        sys.exit(2)
    for n in a:
        b = os.path.join(odir, n + "." + h(hobjs[n], *lib_objs) + ".bin")
        if not os.path.exists(b):
            for old in glob.glob(os.path.join(odir, n + ".*.bin")): os.unlink(old)
            r = subprocess.run(["g++"] + lfl + ["-o", b + ".tmp", hobjs[n]] + lib_objs + LIBS,
                               capture_output=True, text=True)
            if r.returncode:
                sys.stderr.write("link error: %s\n%s\n" % (n, r.stderr[:4000])); sys.exit(2)
            os.rename(b + ".tmp", b)
        print(b)
    # drop stale objects so the cache does not grow
    keep = set(lib_objs) | set(hobjs.values())
    now = sorted(glob.glob(odir + "/*.o"), key=os.path.getmtime)
    if len(now) > 1500:
        for f in now[:len(now) - 1000]:
            if f not in keep: os.unlink(f)

main()
