#!/usr/bin/env python3
"""Build one check from /repo's working tree, run it, write its evidence.

usage: run_check.py ID [--one FAMILY INDEX]
Exit 0: held on everything explored. 1: VIOLATION. anything else: error of the check.
"""
import json, os, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


def known_findings(pid):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            # known: property=<id> key=<exact key> <what fails>
            if line.startswith("known: property=%s " % pid):
                rest = line.split("key=", 1)[1].rstrip("\n")
                key, _, what = rest.partition(" ")
                out.append((key, what))
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    pid = sys.argv[1]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.environ["VERIF_TIER"] = tier
    c = checks.CHECKS[pid]
    build = os.path.join(V, "build", pid)
    shutil.rmtree(build, ignore_errors=True)
    os.makedirs(build)
    outd = os.path.join(V, "out", pid)
    shutil.rmtree(outd, ignore_errors=True)
    os.makedirs(outd)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    t0 = time.time()
    ctx = checks.Ctx(V, REPO, build, outd, tier, seed)
    if len(sys.argv) > 2 and sys.argv[2] == "--one":
        cmd = c["build"](ctx)
        r = subprocess.run(cmd + ["--one", sys.argv[3], sys.argv[4]], env=ctx.env(), cwd=build)
        return r.returncode
    try:
        res = c["run"](ctx, c)
    except checks.BuildError as e:
        print("build failed:\n" + str(e)[-6000:])
        return 2
    # res: dict(evals, calls, distinct, families, complete, samples, violations=[{key, text, ...}], extra)
    vio = res["violations"]
    known = known_findings(pid)
    hit = {}
    fresh = []
    for v in vio:
        k = [x for x in known if x[0] == v["key"]]
        if k:
            hit[k[0][0]] = k[0][1]
        else:
            fresh.append(v)
    for k in known:
        if k[0] in hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, k[1]))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": c["level"],
        "coverage": res["coverage"], "assumptions": c.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    tmp = os.path.join(V, "evidence", pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(V, "evidence", pid + ".json"))
    cov = res["coverage"]
    print("%s %s: %s in %.1f s" % (pid, tier, ", ".join("%s=%s" % (k, cov[k]) for k in
          ("states", "transitions", "traces_validated_against_impl", "evaluations", "distinct_nontrivial", "exhaustive") if k in cov), ev["wall_s"]))
    shutil.rmtree(build, ignore_errors=True)
    if fresh:
        path = os.path.join(outd, "violation.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "tier": tier, "replay_with": "python3 run_check.py %s --one FAMILY INDEX" % pid, "violations": fresh}, f, indent=1)
            f.write("\n")
        for v in fresh[:5]:
            print("  " + v["text"][:1500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if res.get("error"):
        print("check error: " + res["error"])
        return 2
    return 0


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
