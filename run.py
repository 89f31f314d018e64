#!/usr/bin/env python3
"""Builds the harnesses of one property against /repo's working tree, explores, writes evidence.

  run.py C01 [--tier quick|thorough] [--replay out/C01.json]

Exit 0: the property held on everything explored. Exit 1: a line "VIOLATION property=<id> replay=<path>".
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import checks as CH
REPO = os.environ.get("MC_REPO", "/repo")
CORES = 8

VARIANTS = {
    # assertions observable through the stand-in cassert
    "A": ["clang++", "-O1"],
    # the same, compiled faster, for checks that compare addresses rather than optimised code
    "A0": ["clang++", "-O0"],
    # release build as users ship it
    "N": ["clang++", "-O2", "-DNDEBUG"],
    "N0": ["clang++", "-O0", "-DNDEBUG"],
    # memory errors abort
    "S": ["clang++", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    # as the repository builds its tests
    "F": ["clang++", "-O2", "-march=x86-64-v3", "-ffast-math", "-fstrict-aliasing"],
    "G": ["g++", "-O2"],
    "GN": ["g++", "-O3", "-DNDEBUG"],
    "I": ["clang++", "-O1", "-DNDARRAY_INT_INDICES"],
    "IN": ["clang++", "-O2", "-DNDEBUG", "-DNDARRAY_INT_INDICES"],
    "G1": ["g++", "-O1", "-DNDEBUG"],
    "I0": ["clang++", "-O0", "-DNDARRAY_INT_INDICES"],
    "200": ["clang++", "-O0", "-std=c++20"],
    "17": ["clang++", "-O1", "-std=c++17"],
    "20": ["clang++", "-O1", "-std=c++20"],
    "U": ["clang++", "-O1", "-fsanitize=undefined", "-fno-sanitize-recover=all"],
    "FN": ["clang++", "-O2", "-march=x86-64-v3", "-ffast-math", "-fstrict-aliasing", "-DNDEBUG"],
}

def compile_unit(u, build):
    exe = os.path.join(build, u["name"])
    cmd = list(VARIANTS[u["variant"]])
    if not any(x.startswith("-std") for x in cmd): cmd.append("-std=c++14")
    cmd += ["-w", "-I" + os.path.join(HERE, "mc", "shim"), "-I" + os.path.join(HERE, "mc"), "-I" + os.path.join(HERE, "h"),
            "-I" + os.path.join(REPO, "include"), "-I" + REPO] + u.get("flags", []) + \
           [os.path.join(HERE, "h", u["src"]), "-o", exe] + u.get("libs", [])
    for attempt in range(2):
        t = time.time()
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode == 0:
            return exe, time.time() - t, None
    errs = [l for l in p.stdout.splitlines() if "error" in l]
    return None, time.time() - t, "\n".join(errs)[:2500] + "\n" + " ".join(cmd) + "\n" + p.stdout[:3000]

def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16"
    return e

def run_unit(u, exe, tier, jobs, build):
    out = exe + ".json"; tmp = exe + ".tmp"; os.makedirs(tmp, exist_ok=True)
    cmd = [exe, "--jobs", str(jobs), "--tier", tier, "--out", out, "--tmp", tmp]
    p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    try:
        r = json.load(open(out))
    except Exception as ex:
        r = {"suites": [], "wall": 0, "violation": None, "error": "no result (exit %s): %s %s" % (p.returncode, ex, p.stdout[-500:])}
    shutil.rmtree(tmp, ignore_errors=True)
    return r

def known_findings(pid):
    """the "known:" lines of known_findings.txt for this property: (suite, text)"""
    r = []
    for l in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r'known: property=(\w+) suite="([^"]*)" (.*)', l)
        if m and m.group(1) == pid: r.append((m.group(2), m.group(3).strip()))
    return r

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay"); ap.add_argument("--keep", action="store_true"); ap.add_argument("--unit", default="")
    a = ap.parse_args()
    t0 = time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"
    ck = CH.CHECKS[a.id]
    units = [u for u in CH.units(a.id, tier) if a.unit in u["name"]]
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    build = tempfile.mkdtemp(prefix=a.id + "-", dir=os.path.join(HERE, "build"))
    outdir = os.path.join(HERE, "out"); os.makedirs(outdir, exist_ok=True)
    try:
        if a.replay:
            return replay(a, json.load(open(a.replay)), build)
        return explore(a, ck, units, tier, build, outdir, t0)
    finally:
        if not a.keep: shutil.rmtree(build, ignore_errors=True)

def replay(a, v, build):
    exe, _, err = compile_unit(v["unit"], build)
    if err:
        print(err); return 1
    if "suite" not in v:
        print("compiles"); return 0
    if v.get("other"):
        exe2, _, err = compile_unit(v["other"], build)
        if err:
            print(err); return 1
        outs = [leaf_digest(x, v["suite"], v["path"], v["tier"], build) for x in (exe, exe2)]
        for u, o in zip((v["unit"], v["other"]), outs): print("%s: %s" % (u["name"], o))
        return 0 if outs[0][0] == outs[1][0] else 1
    return subprocess.run([exe, "--tier", v["tier"], "--tmp", build, "--replay", v["suite"] + "|" + v["path"]], env=env()).returncode

def leaf_digest(exe, suite, path, tier, build):
    """(digest of the observations, observations as text) of one leaf"""
    p = subprocess.run([exe, "--tier", tier, "--tmp", build, "--replay", suite + "|" + path], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    t = p.stdout
    m = re.search(r"case: (.*)", t)
    obs = m.group(1) if m else t
    return obs, p.returncode

def compare_builds(pid, units, results, tier, build, exes):
    """Every suite of every unit has the same leaves and observations in every build."""
    def suites(u): return {s["name"]: s for s in results[u["name"]]["suites"]}
    groups = {}
    for u in units: groups.setdefault(u["tag"], []).append(u)
    for g in groups.values():
        a = g[0]; sa = suites(a)
        for b in g[1:]:
            sb = suites(b)
            for n, s in sa.items():
                t = sb.get(n)
                if t and (t["digest"], t["evaluations"], t["nontrivial"]) == (s["digest"], s["evaluations"], s["nontrivial"]): continue
                logs = []
                for u in (a, b):
                    f = os.path.join(build, u["name"] + ".dump")
                    if os.path.exists(f): os.remove(f)
                    subprocess.run([exes[u["name"]][0], "--jobs", "1", "--tier", tier, "--only", n, "--dump", f, "--out", f + ".json", "--tmp", build], env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    logs.append(open(f).read().splitlines() if os.path.exists(f) else [])
                path = ""
                for x, y in zip(*logs):
                    if x != y: path = x.rsplit(" ", 1)[0]; break
                texts = [leaf_digest(exes[u["name"]][0], n, path, tier, build)[0] for u in (a, b)]
                k = next((i for i, (x, y) in enumerate(zip(*texts)) if x != y), 0)
                return dict(property=pid, unit=a, other=b, tier=tier, suite=n, path=path, message="suite '%s' observes different values in builds %s and %s" % (n, a["variant"], b["variant"]),
                            case="...%s... and ...%s..." % (texts[0][max(0, k - 200):k + 60], texts[1][max(0, k - 200):k + 60]), replayed=texts[0] != texts[1])
    return None

def violation(a, outdir, rec):
    path = os.path.join(outdir, a.id + "-violation.json")
    json.dump(rec, open(path, "w"), indent=1)
    print("property %s violated: %s" % (a.id, rec.get("message", "")[:1500]))
    if rec.get("case"): print("  case: " + rec["case"][:1500])
    print("  replay with: python3 run.py %s --replay %s" % (a.id, path))
    print("VIOLATION property=%s replay=%s" % (a.id, path), flush=True)

def explore(a, ck, units, tier, build, outdir, t0):
    exes = {}; results = {}; viol = None; error = None
    # compile everything first (parallel), then run
    with ThreadPoolExecutor(CORES) as ex:
        futs = [(u, ex.submit(compile_unit, u, build)) for u in units]
        for u, f in futs: exes[u["name"]] = f.result()
    tcomp = time.time() - t0
    for u in units:
        exe, _, err = exes[u["name"]]
        if err:
            viol = dict(property=a.id, unit=u, tier=tier, message="a program within the documented interface no longer compiles: " + err[:5000])
            break
    nviol = 0
    if not viol:
        # units run one after another, each with all cores; small ones (jobs<8) share the machine
        groups = []
        cur, load = [], 0
        for u in units:
            j = u.get("jobs", CORES)
            if load + j > CORES and cur:
                groups.append(cur); cur, load = [], 0
            cur.append(u); load += j
        if cur: groups.append(cur)
        for g in groups:
            with ThreadPoolExecutor(len(g)) as ex:
                futs = [(u, ex.submit(run_unit, u, exes[u["name"]][0], tier, u.get("jobs", CORES), build)) for u in g]
                for u, f in futs: results[u["name"]] = f.result()
            for u in g:
                r = results[u["name"]]
                if r["error"]:  # the other units may still have a verdict
                    print("ERROR unit %s: %s" % (u["name"], r["error"]))
                    error = r["error"]
                if r.get("flooded"): print("NOTE unit %s gave up: the code writes all of an array's sparse memory" % u["name"])
                if r["violation"]:
                    v = r["violation"]
                    if u.get("known") and v["suite"] in [k for k, _ in known_findings(a.id)]: continue
                    viol = dict(property=a.id, unit=u, tier=tier, suite=v["suite"], path=v["path"], case=v["case"], message=v["message"], replayed=v["replayed"])
                    break
            if viol: break
    if not viol and not error and ck.get("compare"):
        viol = compare_builds(a.id, units, results, tier, build, exes)
    if viol:
        finish(a, ck, units, results, tier, t0, tcomp, 1)
        violation(a, outdir, viol)
        return 1
    return finish(a, ck, units, results, tier, t0, tcomp, 0, error=error)

def finish(a, ck, units, results, tier, t0, tcomp, nviol, error=None):
    suites = []; ev = nt = di = 0; cnt = {}; samples = []
    for u in units:
        r = results.get(u["name"])
        if not r: continue
        for s in r["suites"]:
            suites.append(dict(unit=u["name"], suite=s["name"], evaluations=s["evaluations"], nontrivial=s["nontrivial"],
                               distinct=s["distinct"], counters=s["counters"], wall_s=round(s["wall"], 2)))
            ev += s["evaluations"]; nt += s["nontrivial"]
            for k, v in s["counters"].items(): cnt[k] = cnt.get(k, 0) + v
    # the same suite explored under several builds counts once as distinct
    best = {}
    for s in suites: best[s["suite"]] = max(best.get(s["suite"], 0), s["distinct"])
    di = sum(best.values())
    seen = set()
    for u in units:
        r = results.get(u["name"])
        if not r: continue
        for s in r["suites"]:
            for x in s["samples"][:1]:
                if x and x not in seen and len(samples) < 12: seen.add(x); samples.append({"suite": s["name"], "case": x[:600]})
    known = []
    for name, text in known_findings(a.id):
        again = any(r["violation"] and r["violation"]["suite"] == name for r in results.values() if r)
        known.append(dict(suite=name, finding=text, reproduced_in_this_run=again))
        print("KNOWN-FINDING: property=%s %s" % (a.id, text))
    level = ck["level"]
    cov = dict(samples=samples or ["(none)"], exhaustive=not error and not nviol and not any(r.get("flooded") for r in results.values()), bounds=ck["bounds"].get(tier) if isinstance(ck["bounds"], dict) else ck["bounds"],
               builds=sorted({u["variant"] for u in units}), units=len(units), compile_s=round(tcomp, 1))
    if level == "model_checking":
        cov.update(states=di, transitions=cnt.get("transitions", 0), traces_validated_against_impl=ev,
                   model_binding="every transition executes the real operation on real objects; every successor is compared with the reference model (no separate model traces)")
    else:
        cov.update(evaluations=ev, distinct_nontrivial=di, nontrivial_leaves=nt, rule=ck["rule"])
    if cnt: cov["counters"] = cnt
    if known: cov["known_findings"] = known
    cov["suites"] = suites if len(suites) <= 80 else sorted(suites, key=lambda s: -s["evaluations"])[:80] + [{"omitted_suites": len(suites) - 80}]
    e = dict(property=a.id, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level, coverage=cov,
             assumptions=ck.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not a.unit: json.dump(e, open(os.path.join(HERE, "evidence", a.id + ".json"), "w"), indent=1)
    print("%s %s: %d leaves, %d distinct, %s%s in %.1fs (compile %.1fs)" % (a.id, tier, ev, di, "".join("%s=%d " % kv for kv in cnt.items()),
          "violation" if nviol else "error" if error else "no violation", time.time() - t0, tcomp))
    return 2 if error else 0

if __name__ == "__main__":
    sys.exit(main())
