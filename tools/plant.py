#!/usr/bin/env python3
"""Write the seeded bugs of tools/bugs/*.py into seeded/<id>/ and confirm them.

  plant.py write [ids]   make patch.diff, demo.sh, demo.cpp, meta.json
  plant.py try [ids]     in a private mount namespace with a copy of /repo: demo on the clean tree, apply, build, stable tests,
                         demo again, then the check of the bug's property (and any listed with --checks)
No check reads the seeded directory; this file is a development tool."""
import json, os, subprocess, sys, shutil, tempfile, glob, runpy
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "77e35c0"
SH = """#!/bin/bash
# Fails when the behaviour in meta.json is broken. Everything it writes is in a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)" || exit 3
trap 'rm -rf "$d"' EXIT
%s
"""
BUILD = """g++ -std=c++20 -O1 %s -I include -I src "$here/demo.cpp" src/idna.cpp -o "$d/demo" -pthread || exit 3
timeout 120 "$d/demo"
"""
PRE = """#include "idna.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
#include <cstdint>
using namespace ada::idna;
using namespace std::literals;
#define CHECK(c) do { if (!(c)) { std::printf("wrong: %s (line %d)\\n", #c, __LINE__); std::exit(1); } } while (0)
"""


def bugs():
    out = {}
    for f in sorted(glob.glob(V + "/tools/bugs/*.py")):
        for b in runpy.run_path(f)["BUGS"]:
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out


def write(b):
    d = f"{V}/seeded/{b['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tmp = tempfile.mkdtemp(dir="/tmp")
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
    subprocess.run(f"git -C /repo archive HEAD | tar -x -C {tmp}", shell=True, check=True)
    subprocess.run("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, check=True, cwd=tmp)
    for f, old, new in b["edits"]:
        p = f"{tmp}/{f}"
        s = open(p).read()
        n = s.count(old)
        nth = None
        if isinstance(new, tuple):
            new, nth = new
        if nth is None:
            assert n == 1, (b["id"], f, n, old)
            s = s.replace(old, new)
        else:
            parts = s.split(old)
            assert len(parts) > nth + 1, (b["id"], f, n)
            s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
        open(p, "w").write(s)
    diff = subprocess.run(["git", "diff"], cwd=tmp, capture_output=True, text=True, check=True).stdout
    # do the changed lines come from the original repository?
    for f in sorted({e[0] for e in b["edits"]}):
        u = subprocess.run(["git", "diff", "-U0", f], cwd=tmp, capture_output=True, text=True).stdout
        for l in u.splitlines():
            if l.startswith("@@"):
                a = l.split()[1][1:].split(",")
                st, cnt = int(a[0]), int(a[1]) if len(a) > 1 else 1
                if cnt:
                    bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-L", f"{st},+{cnt}", f], capture_output=True, text=True).stdout
                    for x in bl.splitlines():
                        if not x.startswith("^" + BASE):
                            print(f"{b['id']}: WARNING not an original line: {x}")
    open(d + "/patch.diff", "w").write(diff)
    body = b.get("sh") or BUILD % b.get("flags", "")
    open(d + "/demo.sh", "w").write(SH % body.strip())
    os.chmod(d + "/demo.sh", 0o755)
    if "demo" in b:
        open(d + "/demo.cpp", "w").write((b.get("pre", PRE)) + b["demo"].lstrip("\n") if "int main" in b["demo"]
                                         else b.get("pre", PRE) + "int main() {\n" + b["demo"].strip("\n") + "\n  return 0;\n}\n")
    for n, t in b.get("files", {}).items():
        open(f"{d}/{n}", "w").write(t)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/meta.json", "a").write("\n")
    shutil.rmtree(tmp)


def trial(b, checks):
    d = f"{V}/seeded/{b['id']}"
    w = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
        os.makedirs(w + "/verif")
        subprocess.run(f"cp -a {V}/*.py {V}/src {V}/refdata {V}/known_findings.txt {V}/properties.jsonl {V}/MANIFEST.json {w}/verif/ && mkdir -p {w}/verif/evidence {w}/verif/out; cp -a {d} {w}/demo", shell=True, check=True)
        script = f"""
mount --bind {w}/repo /repo; mount --bind {w}/verif /verif; cd /repo
bash {w}/demo/demo.sh > {w}/d0.txt 2>&1; echo "clean_demo $?"
git apply {w}/demo/patch.diff; echo "apply $?"
bash /opt/vp/build.sh > {w}/b.txt 2>&1; echo "build $?"
bash /opt/vp/test.sh {w}/t.json > {w}/tt.txt 2>&1
bash {w}/demo/demo.sh > {w}/d1.txt 2>&1; echo "bug_demo $?"
"""
        r = subprocess.run(["unshare", "-m", "bash", "-c", script], capture_output=True, text=True)
        res = dict(l.split() for l in r.stdout.splitlines())
        t = json.load(open(w + "/t.json")) if os.path.exists(w + "/t.json") else {}
        base = json.load(open("/opt/vp/BASELINE.json"))
        want = base["stable"]
        missing = sorted(set(map(str, want)) - set(map(str, t.get("passed", []))))
        ok = res.get("clean_demo") == "0" and res.get("build") == "0" and res.get("bug_demo") not in ("0", None, "3") and not missing
        line = f"{b['id']}: {'COUNTS' if ok else 'BAD ' + str(res) + ' tests failing: ' + str(missing[:4])}"
        if not ok:
            for n in ("d0.txt", "b.txt", "d1.txt"):
                p = f"{w}/{n}"
                if os.path.exists(p):
                    x = open(p).read()
                    if "rror" in x or (n == "d0.txt" and res.get("clean_demo") != "0"):
                        line += "\n   " + n + ": " + x[-600:]
        if ok or "--force" in sys.argv:
            for c in checks or [b["property"]]:
                r = subprocess.run(["unshare", "-m", "bash", "-c", f"mount --bind {w}/repo /repo; mount --bind {w}/verif /verif; cd /verif; VERIF_TIER=quick VERIF_SEED=1 timeout 900 python3 run_check.py {c}"], capture_output=True, text=True)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                line += f"\n   {c}: {'CAUGHT' if r.returncode == 1 and v else 'MISSED' if r.returncode == 0 else 'ODD rc=%d' % r.returncode} {v[:1]} {r.stdout[-200:] + r.stderr[-300:] if r.returncode not in (0, 1) else ''}"
        print(line, flush=True)
        return line
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    a = [x for x in sys.argv[2:] if not x.startswith("--")]
    checks = next((x[9:].split(",") for x in sys.argv if x.startswith("--checks=")), None)
    B = bugs()
    sel = [B[x] for x in a] if a else list(B.values())
    if sys.argv[1] == "write":
        for b in sel:
            write(b)
    else:
        with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
            list(ex.map(lambda b: trial(b, checks), sel))
