#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current working tree.

Builds the library sources of /repo with the property's harnesses, runs each exhaustively within its bounds,
writes evidence/<id>.json, and prints VIOLATION / KNOWN-FINDING lines. Exit 0 held, 1 violated, 2 no answer."""
import sys, os, json, subprocess, time, tempfile, shutil, re
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import PROPS  # per property: level, rule, parts

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    P = PROPS[pid]; t0 = time.time()
    env = dict(os.environ)
    env.update(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_CORETYPE="Haswell",
               LC_ALL="C", TZ="UTC", MALLOC_ARENA_MAX="1")
    for k in ("VR_VERBOSE", "VR_MAXFAILS", "LOUD"): env.pop(k, None)
    parts = [p for p in P["parts"] if tier == "thorough" or not p.get("thorough_only")]
    bins = {}
    for var in sorted({p.get("variant", "opt") for p in parts}):
        hs = sorted({p["harness"] for p in parts if p.get("variant", "opt") == var})
        r = subprocess.run([sys.executable, os.path.join(VERIF, "tools/build.py"), "--variant", var] + hs,
                           capture_output=True, text=True, env=env)
        if r.returncode:
            sys.stderr.write(r.stdout + r.stderr); print("NO-ANSWER property=%s build failed" % pid); return 2
        for h, b in zip(hs, r.stdout.split()): bins[(var, h)] = b
    known = {}; kf = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r"known: property=(\S+) part=(\S+) history=(.*?) \|\| (.*)$", l.rstrip("\n"))
            if m and m.group(1) == pid: known.setdefault(m.group(2), {})[m.group(3)] = m.group(4)
    scratch = tempfile.mkdtemp(prefix="verif_")
    results, viol, knownhits, bad = [], [], [], None
    try:
        for p in parts:
            e = dict(env); name = p["name"]
            for k, v in p.get("env", {}).items(): e[k] = str(v).replace("@VERIF@", VERIF)
            e["VR_SCRATCH"] = scratch
            kn = known.get(name, {})
            if kn:
                f = os.path.join(scratch, "known." + name)
                open(f, "w").write("\n".join(kn) + "\n"); e["VR_KNOWN"] = f
            if p.get("variant") == "asan":
                e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_odr_violation=0"
            r = subprocess.run([bins[(p.get("variant", "opt"), p["harness"])], tier] + p.get("args", []),
                               capture_output=True, text=True, env=e, cwd=scratch, errors="replace")
            lines = [l for l in r.stdout.splitlines() if l.startswith("RESULT ")]
            if not lines:
                bad = "part %s gave no result (exit %s)\n%s" % (name, r.returncode, (r.stdout + r.stderr)[-2000:]); break
            j = json.loads(lines[-1][7:]); j["part"] = name; results.append(j)
            for f in j["fails"]: viol.append((p, f))
            for f in j["known"]: knownhits.append((p, f, kn[f["desc"]]))
            if not j["fails"] and (j["unreproduced"] or not j["complete"]):
                bad = "part %s: %d failures did not reproduce, complete=%s" % (name, j["unreproduced"], j["complete"])
            if len(viol) >= 10: break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    cnt = {}
    for j in results:
        for k, v in j["counters"].items(): cnt[k] = cnt.get(k, 0) + v
    units = sum(j["units"] for j in results)
    cov = {"exhaustive": bool(results) and all(j["complete"] for j in results) and not bad,
           "rule": P["rule"],
           "samples": [s for j in results for s in (j["samples"] or j["outcomes_sample"])][:12],
           "counters": cnt,
           "parts": [{"part": j["part"], "units": j["units"], "distinct_outcomes": j["distinct_outcomes"],
                      "complete": j["complete"]} for j in results]}
    distinct = sum(j["distinct_outcomes"] for j in results)
    if P["level"] == "model_checking":
        cov["states"] = int(cnt.get("states", 0)) or distinct; cov["transitions"] = int(cnt.get("transitions", 0))
        cov["traces_validated_against_impl"] = int(cnt.get("histories", 0)) or units
        cov["distinct_outcomes"] = distinct
    else:
        cov["evaluations"] = int(cnt.get("histories", 0)) or units
        cov["distinct_nontrivial"] = distinct
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": P["level"],
          "coverage": cov, "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for p, f, what in knownhits:
        print("KNOWN-FINDING: property=%s %s %s: %s" % (pid, p["name"], f["desc"], what))
    print("%s %s: %d executions, %s, %.1fs" % (pid, tier, units, json.dumps(cnt), time.time() - t0))
    if viol:
        rd = os.path.join(VERIF, "replay"); os.makedirs(rd, exist_ok=True)
        for i, (p, f) in enumerate(viol[:10]):
            path = os.path.join(rd, "%s-%d.txt" % (pid, i))
            envs = " ".join("%s='%s'" % (k, str(v).replace("@VERIF@", VERIF)) for k, v in p.get("env", {}).items())
            with open(path, "w") as o:
                o.write("property: %s\npart: %s\nhistory: %s\nfailure: %s\nreplay with:\n  %s $(python3 %s/tools/build.py --variant %s %s) unit %d %s\n" %
                        (pid, p["name"], f["desc"], f["msg"], envs, VERIF, p.get("variant", "opt"), p["harness"], f["unit"], tier))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  %s | %s" % (f["desc"], f["msg"][:300]))
        return 1
    if bad:
        print("NO-ANSWER property=%s %s" % (pid, bad)); return 2
    return 0

sys.exit(main())
