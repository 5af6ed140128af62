"""The table of checks: how each one is built and run."""
import json, os, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor


class BuildError(Exception):
    pass


class Ctx:
    def __init__(self, v, repo, build, out, tier, seed):
        self.v, self.repo, self.build, self.out, self.tier, self.seed = v, repo, build, out, tier, seed
        self.src = os.path.join(v, "src")
        self.refdata = os.path.join(v, "refdata", "ucd17.txt")

    def env(self, **kw):
        e = dict(os.environ)
        e["VERIF_TIER"] = self.tier
        e["VERIF_SEED"] = str(self.seed)
        e.update(kw)
        return e

    def sh(self, cmd, **kw):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
        if r.returncode:
            raise BuildError(" ".join(cmd) + "\n" + r.stdout)
        return r.stdout

    def par(self, cmds):
        with ThreadPoolExecutor(8) as ex:
            for _ in ex.map(self.sh, cmds):
                pass

    def incs(self):
        return ["-I" + self.repo + "/include", "-I" + self.repo + "/src"]

    def defs(self):
        return ['-DREFDATA="%s"' % self.refdata, '-DREPO="%s"' % self.repo]


CXX = ["g++", "-std=c++20", "-O2"]


def build_std(name, cxx=None, flags=(), libs=(), lib_flags=None, separate=True):
    def f(ctx):
        exe = os.path.join(ctx.build, name)
        cc = list(cxx or CXX)
        cmds = [cc + list(flags) + ctx.incs() + ctx.defs() + ["-c", os.path.join(ctx.src, name + ".cpp"), "-o", exe + ".o"]]
        objs = [exe + ".o"]
        if separate:
            cmds.append(cc + list(flags if lib_flags is None else lib_flags) + ctx.incs() + ["-c", ctx.repo + "/src/idna.cpp", "-o", exe + "-lib.o"])
            objs.append(exe + "-lib.o")
        ctx.par(cmds)
        ctx.sh(cc + list(flags) + objs + ["-o", exe] + list(libs))
        return [exe]
    return f


def harness(ctx, cmd, limit, env=None):
    """Run one exploration binary; returns its JSON report."""
    for attempt in range(2):
        rep = os.path.join(ctx.build, "report.json")
        if os.path.exists(rep):
            os.remove(rep)
        p = subprocess.Popen(cmd + ["--out", rep], env=ctx.env(**(env or {})), cwd=ctx.build, start_new_session=True,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        try:
            o, _ = p.communicate(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            o, _ = p.communicate()
            return {"error": "the exploration did not finish in %d s" % limit}
        if p.returncode in (0, 1) and os.path.exists(rep):
            return json.load(open(rep))
        if p.returncode == 4 and attempt == 0:
            continue  # a stall that did not recur: explore again
        if p.returncode == 4 and os.path.exists(rep):
            r = json.load(open(rep))
            r["violations"] = [v for v in r["violations"] if v["replay"] != "NOT reproduced"]
            r["error"] = "stalls that did not recur (machine overloaded?)"
            return r
        return {"error": "exploration binary ended with %s\n%s" % (p.returncode, (o or "")[-3000:])}


def violations_of(rep):
    out = []
    for v in rep.get("violations", []):
        if v["replay"] == "NOT reproduced":
            continue
        out.append({"key": v["family"].replace(" ", "_") + ":" + v["hex"][:200], "family": v["family"], "index": v["index"],
                    "input": v["input"], "input_hex": v["hex"], "why": v["why"], "replay": v["replay"],
                    "text": "[%s #%d] input %s: %s (%s)" % (v["family"], v["index"], v["input"][:400], v["why"], v["replay"])})
    return out


def mc_coverage(rep, **extra):
    d = {"states": rep.get("distinct_outcomes", 0), "transitions": rep.get("calls", 0),
         "traces_validated_against_impl": rep.get("evals", 0), "exhaustive": bool(rep.get("complete")),
         "spaces": rep.get("families", []), "samples": rep.get("samples", [])[:12],
         "meaning": "states: distinct results of the library observed; transitions: library calls executed; "
                    "traces_validated_against_impl: enumerated cases whose library result was compared with the reference model"}
    d.update(extra)
    return d


def run_std(ctx, c):
    cmd = c["build"](ctx)
    rep = harness(ctx, cmd, c.get("limit", {}).get(ctx.tier, 800 if ctx.tier == "quick" else 5400))
    cov = mc_coverage(rep, **c.get("extra", {}))
    if c["level"] == "fault_enumeration":
        cov = {"evaluations": rep.get("evals", 0), "distinct_nontrivial": rep.get("distinct_outcomes", 0), "rule": c["rule"], "calls": rep.get("calls", 0),
               "exhaustive": bool(rep.get("complete")), "spaces": rep.get("families", []), "samples": rep.get("samples", [])[:12]}
    r = {"coverage": cov, "violations": violations_of(rep)}
    if rep.get("error"):
        r["error"] = rep["error"]
    elif not r["violations"] and not rep.get("complete"):
        r["error"] = "the exploration is not complete"
    return r


MODEL = "systematic bounded-exhaustive exploration of the real code against an executable reference model (UTS #46 / RFC 3492 / RFC 5893 / UAX #15)"
TRUST = ["the reference model src/ref.hpp and its Unicode 17.0 data refdata/ucd17.txt (derived from Go x/text, ICU and python idna, cross-checked against each other)"]

CHECKS = {}


def add(pid, run=run_std, level="model_checking", technique=MODEL, note="", assumptions=TRUST, **kw):
    CHECKS[pid] = dict(run=run, level=level, technique=technique, note=note, assumptions=assumptions, **kw)


for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 25, 27):
    add("C%02d" % i, build=build_std("c%02d" % i))


# ---------------------------------------------------------------- C18: schedules
def build_c18(ctx):
    b = ctx.build
    ctx.par([["clang++", "-std=c++20", "-O1", "-fsanitize=thread"] + ctx.incs() + ["-c", ctx.repo + "/src/idna.cpp", "-o", b + "/lib.o"],
             ["clang++", "-std=c++20", "-O1", "-g"] + ctx.incs() + ["-c", ctx.src + "/c18.cpp", "-o", b + "/c18.o"],
             ["g++", "-std=c++20", "-O2", "-fno-threadsafe-statics", "-c", ctx.src + "/sched.cpp", "-o", b + "/sched.o"]])
    ctx.sh(["g++", "-rdynamic", b + "/c18.o", b + "/lib.o", b + "/sched.o", "-o", b + "/c18", "-ldl", "-lpthread"])
    return [b + "/c18"]


def run_c18(ctx, c):
    cmd = c["build"](ctx)
    rep = harness_any(ctx, cmd, 850 if ctx.tier == "quick" else 7200)
    vio = [{"key": "schedule:" + v["scenario"].replace(" ", "_"), "scenario": v["scenario"], "schedule": v["schedule"], "why": v["why"],
            "text": "threads [%s], schedule %s: %s" % (v["scenario"], v["schedule"], v["why"])} for v in rep.get("violations", [])]
    cov = {"states": rep.get("states", 0), "transitions": rep.get("steps", 0), "schedules": rep.get("executions", 0),
           "traces_validated_against_impl": rep.get("executions", 0), "exhaustive": not rep.get("error") and not vio and all(s.get("preemption_bound", -1) < 0 for s in rep.get("scenarios", [])),
           "preemption_bounded_scenarios": sum(1 for s in rep.get("scenarios", []) if s.get("preemption_bound", -1) >= 0),
           "longest_schedule": rep.get("longest", 0), "sleep_set_blocked": rep.get("redundant", 0),
           "scenarios": rep.get("scenarios", []),
           "samples": ["%s: %s schedules" % (s["name"], s["executions"]) for s in rep.get("scenarios", [])[:12]],
           "meaning": "every schedule is an execution of the real library under the controlled scheduler; transitions: scheduled synchronisation operations; "
                      "states: distinct scheduling states (progress and enabledness of each thread)"}
    r = {"coverage": cov, "violations": vio}
    if rep.get("error"):
        r["error"] = rep["error"]
    return r


def harness_any(ctx, cmd, limit, env=None):
    rep = os.path.join(ctx.build, "report.json")
    p = subprocess.Popen(cmd + ["--out", rep], env=ctx.env(**(env or {})), cwd=ctx.build, start_new_session=True,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        o, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return {"error": "the exploration did not finish in %d s" % limit}
    if os.path.exists(rep):
        return json.load(open(rep))
    return {"error": "exploration binary ended with %s\n%s" % (p.returncode, (o or "")[-3000:])}


add("C18", run=run_c18, build=build_c18,
    technique="stateless model checking of the real code: dynamic partial-order reduction over all interleavings of synchronisation operations (no preemption bound), with happens-before race detection",
    assumptions=["interleavings are sequentially consistent; weaker-memory behaviour enters through the happens-before race check on every plain access, which honours the memory orders used",
                 "a waiting thread is not starved beyond the spins stated in the scenario (the library gives up after 1e9 spins)"])


# ---------------------------------------------------------------- C19: damaged tables
def writable_blob(ctx):
    """A copy of the sources whose compressed tables are writable (falls back to mprotect)."""
    import re
    d = os.path.join(ctx.build, "src")
    shutil.copytree(ctx.repo + "/src", d)
    n = 0
    for root, _, files in os.walk(d):
        for fn in files:
            p = os.path.join(root, fn)
            s = open(p, errors="surrogateescape").read()
            t, k = re.subn(r"\bconstexpr\s+((?:std::)?uint8_t\s+compressed\s*\[)", r"\1", s)
            if k:
                n += k
                open(p, "w", errors="surrogateescape").write(t)
    return d, n == 1


def build_c19(ctx):
    d, ok = writable_blob(ctx)
    flags = ["-O2"] if ok else ["-O1", "-fno-inline", "-fno-ipa-cp"]
    ctx.sh(["g++", "-std=c++20", *flags, "-I" + ctx.repo + "/include", "-I" + d, "-I" + ctx.src, ctx.src + "/c19.cpp", "-o", ctx.build + "/c19", "-lz"])
    return [ctx.build + "/c19"]


add("C19", build=build_c19, level="fault_enumeration",
    technique="exhaustive fault enumeration on the real code: every damage of the stated kinds to the compressed tables, each in a fresh process before first use",
    rule="one case per damage: each is applied to the compressed tables of a fresh process before its first call; non-trivial: the damage changes the table bytes (or the allocation fails); counted by distinct damaged images",
    assumptions=["the damage happens before first use; the tables are read once"])


# ---------------------------------------------------------------- C20: the expander against zlib
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


def run_san(ctx, c):
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:detect_stack_use_after_return=0"
    os.environ["UBSAN_OPTIONS"] = "abort_on_error=1:print_stacktrace=0"
    return run_std(ctx, c)


add("C20", run=run_san, build=build_std("c20", cxx=["g++", "-std=c++20", "-O1", "-g1"], flags=SAN, libs=["-lz"], separate=False),
    technique="bounded-exhaustive exploration of the real code over a grammar of DEFLATE streams (and all short byte strings), differential against zlib, under sanitizers",
    assumptions=["zlib is the reference for what a complete stream is; on streams zlib calls invalid only memory safety and the output bound are checked"])


# ---------------------------------------------------------------- C21: history independence
def merge(reps):
    out = {"evals": 0, "calls": 0, "distinct_outcomes": 0, "families": [], "complete": True, "samples": [], "violations": []}
    for r in reps:
        for k in ("evals", "calls", "distinct_outcomes"):
            out[k] += r.get(k, 0)
        out["families"] += r.get("families", [])
        out["samples"] += r.get("samples", [])
        out["violations"] += r.get("violations", [])
        out["complete"] = out["complete"] and bool(r.get("complete"))
        if r.get("error"):
            out["error"] = r["error"]
    return out


def finish(rep, **extra):
    r = {"coverage": mc_coverage(rep, **extra), "violations": violations_of(rep)}
    if rep.get("error"):
        r["error"] = rep["error"]
    elif not r["violations"] and not rep.get("complete"):
        r["error"] = "the exploration is not complete"
    return r


def build_c21(ctx):
    b, src = ctx.build, ctx.src + "/c21.cpp"
    inc = ctx.incs() + ctx.defs()
    early = lambda name: ['-DEARLY="(%s)"' % name]
    ctx.par([CXX + ctx.incs() + ["-c", ctx.repo + "/src/idna.cpp", "-o", b + "/lib.o"],
             CXX + inc + ["-c", src, "-o", b + "/plain.o"],
             CXX + inc + early("linked before the library") + ["-c", src, "-o", b + "/first.o"],
             CXX + inc + early("linked after the library") + ["-c", src, "-o", b + "/last.o"]])
    ctx.par([CXX + [b + "/plain.o", b + "/lib.o", "-o", b + "/c21"],
             CXX + [b + "/first.o", b + "/lib.o", "-o", b + "/c21first"],
             CXX + [b + "/lib.o", b + "/last.o", "-o", b + "/c21last"]])
    return [b + "/c21"]


def run_c21(ctx, c):
    cmd = c["build"](ctx)
    reps = [harness(ctx, cmd, 800 if ctx.tier == "quick" else 5400)]
    if not reps[0].get("violations") and not reps[0].get("error"):
        for x in ("c21first", "c21last"):
            reps.append(harness(ctx, [ctx.build + "/" + x], 100))
    return finish(merge(reps))


add("C21", run=run_c21, build=build_c21,
    technique="stateless model checking of operation histories on the real code: all operation sequences up to a depth, each in a fresh process, plus all input pairs",
    assumptions=TRUST)


add("C22", run=run_san, build=build_std("c22", cxx=["g++", "-std=c++20", "-O1", "-g1"], flags=SAN),
    technique="bounded-exhaustive exploration of the real code under address and undefined-behaviour sanitizers with exactly sized buffers",
    assumptions=["a memory error is one the sanitizers detect (heap, stack and global bounds, use after free, signed overflow, bad shifts, misaligned access, ...)"])


add("C23", build=build_std("c23"), level="fault_enumeration",
    technique="exhaustive fault enumeration on the real code: every single, paired and trailing allocation failure of every operation, each in a fresh process",
    rule="one case per operation and set of failing allocations, each in a fresh process; non-trivial cases are counted by distinct observed behaviour (which calls failed, what they returned)",
    assumptions=["memory is obtained through operator new (the only allocator the library uses)"])


# ---------------------------------------------------------------- C24: build configurations
CONFIGS = [
    # name, compiler, flags, source
    ("g++ -O2", "g++", ["-O2"], "src"),
    ("g++ -O0", "g++", ["-O0"], "src"),
    ("g++ -O3 AVX2", "g++", ["-O3", "-march=x86-64-v3"], "src"),
    ("g++ -Os", "g++", ["-Os"], "src"),
    ("g++ -O2 unsigned char", "g++", ["-O2", "-funsigned-char"], "src"),
    ("g++ -O2 C++23 unsigned wchar", "g++", ["-O2", "-std=c++23", "-fshort-wchar"], "src"),
    ("g++ -O1 library assertions, pattern-filled locals", "g++", ["-O1", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_DEBUG", "-ftrivial-auto-var-init=pattern"], "src"),
    ("g++ -O2 zero-filled locals, no strict aliasing, wrapping", "g++", ["-O2", "-ftrivial-auto-var-init=zero", "-fno-strict-aliasing", "-fwrapv"], "src"),
    ("clang++ -O2", "clang++", ["-O2"], "src"),
    ("clang++ -O3 AVX2, unsigned char", "clang++", ["-O3", "-march=x86-64-v3", "-funsigned-char"], "src"),
    ("clang++ -O0, pattern-filled locals", "clang++", ["-O0", "-ftrivial-auto-var-init=pattern"], "src"),
    ("g++ -O2 -DNDEBUG with simdutf", "g++", ["-O2", "-DNDEBUG", "-DADA_USE_SIMDUTF=1"], "src"),
    ("clang++ -O2 with simdutf, unsigned char", "clang++", ["-O2", "-DADA_USE_SIMDUTF=1", "-funsigned-char"], "src"),
    ("g++ -O3 AVX-512, no exceptions, no RTTI", "g++", ["-O3", "-march=x86-64-v4", "-fno-exceptions", "-fno-rtti"], "src"),
    ("g++ -O2 old string ABI, signed char, unrolled, no vectors", "g++", ["-O2", "-D_GLIBCXX_USE_CXX11_ABI=0", "-fsigned-char", "-funroll-all-loops", "-fno-tree-vectorize"], "src"),
    ("amalgamated with simdutf, g++ -O3 -DNDEBUG C++23", "g++", ["-O3", "-DNDEBUG", "-DADA_USE_SIMDUTF=1", "-std=c++23"], "amalgamated"),
    ("amalgamated, g++ -O2", "g++", ["-O2"], "amalgamated"),
    ("amalgamated, clang++ -O2", "clang++", ["-O2"], "amalgamated"),
]


def build_c24(ctx):
    b = ctx.build
    tree = os.path.join(b, "tree")
    os.makedirs(tree)
    for d in ("src", "include", "singleheader", "scripts"):
        shutil.copytree(os.path.join(ctx.repo, d), os.path.join(tree, d))
    ctx.sh(["python3", tree + "/singleheader/amalgamate.py"], cwd=tree,
           env={k: v for k, v in os.environ.items() if not k.startswith("AMALGAMATE")})
    flags = open("/proc/cpuinfo").read()
    avx2 = " avx2 " in flags and " bmi2 " in flags and " fma " in flags
    avx512 = avx2 and all(" avx512%s " % x in flags for x in ("f", "bw", "cd", "dq", "vl"))
    cmds, lines = [], []
    for i, (name, cc, fl, kind) in enumerate(CONFIGS):
        if "-march=x86-64-v3" in fl and not avx2 or "-march=x86-64-v4" in fl and not avx512:
            continue
        so = "cfg%d.so" % i
        std = [] if any(x.startswith("-std") for x in fl) else ["-std=c++20"]
        gnu = ["-fno-gnu-unique"] if cc == "g++" else []
        src = ["-I" + tree + "/include", "-I" + tree + "/src", '-DCFG_SOURCE="idna.cpp"'] if kind == "src" else ["-I" + tree + "/singleheader", '-DCFG_SOURCE="ada_idna.cpp"']
        cmds.append([cc, *std, *fl, *gnu, "-fPIC", "-shared", "-fvisibility=hidden", "-fvisibility-inlines-hidden", "-Wl,-Bsymbolic", *src,
                     "-I" + ctx.src + "/stub", ctx.src + "/c24_cfg.cpp", "-o", os.path.join(b, so)])
        lines.append("%s %s\n" % (so, name))
    cmds.append(CXX + ctx.defs() + [ctx.src + "/c24.cpp", "-o", b + "/c24", "-ldl"])
    ctx.par(cmds)
    open(os.path.join(b, "configs.txt"), "w").writelines(lines)
    return [b + "/c24"]


def api_programs(ctx):
    """Users' programs, compiled apart from the library: all builds must link and print the same."""
    b, tree = ctx.build, ctx.build + "/tree"
    kinds = [("separate sources", tree + "/include", "idna.h", tree + "/src/idna.cpp", ["-I" + tree + "/src"]),
             ("single file", tree + "/singleheader", "ada_idna.h", tree + "/singleheader/ada_idna.cpp", [])]
    jobs = [(i, "%s, %s %s" % (k[0], cc, opt), k, cc, opt) for i, (k, cc, opt) in
            enumerate((k, cc, opt) for k in kinds for cc in ("g++", "clang++") for opt in ("-O0", "-O2", "-O3"))]

    def one(j):
        i, name, (_, inc, hdr, lib, extra), cc, opt = j
        o = "%s/api%d" % (b, i)
        base = [cc, "-std=c++20", opt, "-w", "-I" + inc, '-DAPI_HEADER="%s"' % hdr]
        ctx.sh(base + extra + ["-c", lib, "-o", o + "-lib.o"])
        for cmd in (base + ["-c", ctx.src + "/c24_api.cpp", "-o", o + ".o"], base + ["-DAPI_SECOND_UNIT", "-c", ctx.src + "/c24_api.cpp", "-o", o + "-2.o"],
                    [cc, o + ".o", o + "-2.o", o + "-lib.o", "-o", o], [o]):
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.returncode:
                return name, None, (r.stdout[-300:] + r.stderr[-700:]).strip() or "exit status %s" % r.returncode
        return name, r.stdout, ""
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, jobs))
    vio = []
    good = [r for r in rs if r[1] is not None]
    for name, out, err in rs:
        why = ""
        if out is None:
            why = "a program that calls the public functions does not build or run: " + err
        elif out != good[0][1]:
            d = [(x, y) for x, y in zip(good[0][1].split("\n"), out.split("\n")) if x != y]
            why = "prints %s, %s prints %s" % (d[0][1] if d else "less or more", good[0][0], d[0][0] if d else "that")
        if why:
            vio.append({"key": "api:" + name.replace(" ", "_"), "why": why, "replay": "confirmed", "text": "user program (%s): %s" % (name, why)})
    return vio, len(rs)


def run_c24(ctx, c):
    r = run_std(ctx, c)
    v, n = api_programs(ctx)
    r["violations"] = v + r["violations"]
    r["coverage"]["user_programs_built"] = n
    if v:
        r["coverage"]["exhaustive"] = False
    return r


add("C24", run=run_c24, build=build_c24, extra={"configurations": [c[0] for c in CONFIGS]},
    technique="bounded-exhaustive differential exploration: every input of the spaces through every build configuration of the real code",
    assumptions=["simdutf is represented by a stand-in that follows its documented contract", "64-bit little-endian hosts (byte order is C26)"])


# ---------------------------------------------------------------- C26: byte order
def build_c26(ctx):
    import bigendian
    b = ctx.build
    inc = ctx.incs() + ["-I" + ctx.src + "/stub", "-I" + ctx.src, '-DCFG_SOURCE="idna.cpp"', ctx.src + "/c24_cfg.cpp"]
    vis = ["-fPIC", "-fvisibility=hidden", "-fvisibility-inlines-hidden"]
    variants = [("big endian host, compiler's byte-swap intrinsics", []), ("big endian host, portable byte swapping", ["-DPORTABLE"])]

    def big(i):
        ll = "%s/big%d" % (b, i)
        ctx.sh(["clang++", "-std=c++20", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-threadsafe-statics", *vis, "-D_GLIBCXX_EXTERN_TEMPLATE=0",
                "-Wno-builtin-macro-redefined", "-U__BYTE_ORDER__", "-D__BYTE_ORDER__=__ORDER_BIG_ENDIAN__", "-DCFG_BIG", *variants[i][1], *inc, "-S", "-emit-llvm", "-o", ll + ".ll"])
        try:
            t = bigendian.translate(open(ll + ".ll", errors="surrogateescape").read())
        except bigendian.Unsupported as e:
            raise BuildError("the big-endian translation does not support: %s" % e)
        open(ll + ".t.ll", "w", errors="surrogateescape").write(t)
        ctx.sh(["clang++", "-O2", "-fPIC", "-shared", "-Wl,-Bsymbolic", ll + ".t.ll", "-o", ll + ".so"])

    jobs = [lambda: big(0), lambda: big(1),
            lambda: ctx.sh(["clang++", "-std=c++20", "-O2", "-shared", "-Wl,-Bsymbolic", *vis, *inc, "-o", b + "/native.so"]),
            lambda: ctx.sh(CXX + ctx.defs() + [ctx.src + "/c24.cpp", "-o", b + "/c24", "-ldl"])]
    with ThreadPoolExecutor(4) as ex:
        for f in [ex.submit(j) for j in jobs]:
            f.result()
    import ctypes
    for i in range(len(variants)):
        probe = subprocess.run(["python3", "-c", "import ctypes,sys; sys.exit(0 if ctypes.CDLL(sys.argv[1]).cfg_is_big() == 1 else 1)", "%s/big%d.so" % (b, i)])
        if probe.returncode:
            raise BuildError("the simulated host is not big-endian")
    with open(os.path.join(b, "configs.txt"), "w") as f:
        f.write("native.so little-endian host\n")
        for i, v in enumerate(variants):
            f.write("big%d.so %s\n" % (i, v[0]))
    return [b + "/c24"]


add("C26", build=build_c26,
    technique="bounded-exhaustive differential exploration: every input of the spaces through the real code translated to a big-endian memory model and through the native build",
    assumptions=["a big-endian host is simulated by byte-swapping every integer memory access of the compiler's unoptimised intermediate code (bigendian.py); pointers are never viewed as integers in memory by the library"])


# ---------------------------------------------------------------- C28: the table generators
def build_c28(ctx):
    os.environ["C28_REPO"] = ctx.repo
    os.environ["C28_REFDATA"] = ctx.refdata
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    return ["python3", ctx.src + "/c28.py"]


add("C28", build=build_c28,
    technique="bounded-exhaustive exploration of the real generator scripts: every data file of a grammar and every sequence of generator runs up to a depth, decoded by a model of the lookup that is itself replayed against the built library",
    assumptions=["data files follow the layout of IdnaMappingTable.txt and DerivedCoreProperties.txt; downloads are replaced by a stand-in"])


# ---------------------------------------------------------------- C29: bounded work and memory
add("C29", build=build_std("c29", cxx=["clang++", "-std=c++20"], flags=["-O2", "-w"],
                           lib_flags=["-O1", "-D_GLIBCXX_EXTERN_TEMPLATE=0"] + ["-fno-builtin-" + x for x in ("memmove", "memcpy", "memset", "memchr", "memcmp", "strlen")] + [ "-fsanitize-coverage=trace-pc-guard"],
                           libs=["-Wl,--wrap=" + x for x in ("memmove", "memcpy", "memset", "memchr", "memcmp", "strlen", "malloc", "calloc", "realloc", "free")]),
    technique="bounded-exhaustive exploration of the real code with a cost monitor: executed edges, moved and allocated bytes and peak memory of every call on every input of families of repeated words are compared with bounds in the size of the input",
    assumptions=["work is counted in executed control-flow edges of the library plus bytes moved and allocated (per 16); the bounds leave a factor of about five to the highest cost of the present code"])


# ---------------------------------------------------------------- C30: sizes beyond 2^31 and 2^32
add("C30", build=build_std("c30", lib_flags=["-O2", "-fsanitize=signed-integer-overflow,integer-divide-by-zero", "-fsanitize-undefined-trap-on-error"]),
    technique="bounded-exhaustive exploration of the real code on sparse buffers: every stated size around 2^31 and 2^32 x contents x position of the decisive element for every entry point without a size limit, with overflow traps, against closed-form results",
    assumptions=["64-bit hosts; contents of huge buffers are periodic apart from the decisive elements"])


# ---------------------------------------------------------------- C31: independence of the process environment
def build_c31(ctx):
    loc = ctx.build + "/loc"
    os.makedirs(loc, exist_ok=True)
    jobs = [(n, i, m) for n, i, m in (("tr_TR.ISO-8859-9", "tr_TR", "ISO-8859-9"), ("tr_TR.UTF-8", "tr_TR", "UTF-8"),
                                      ("de_DE.ISO-8859-1", "de_DE", "ISO-8859-1"), ("ja_JP.SJIS", "ja_JP", "SHIFT_JIS"))]

    def one(j):
        if shutil.which("localedef"):  # a locale that cannot be compiled is left out
            subprocess.run(["localedef", "--no-archive", "-c", "-i", j[1], "-f", j[2], loc + "/" + j[0]],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

    with ThreadPoolExecutor(5) as ex:
        done = [ex.submit(one, j) for j in jobs]
        cmd = build_std("c31")(ctx)
        for d in done:
            d.result()
    return cmd


def run_c31(ctx, c):
    cmd = c["build"](ctx)
    return finish(harness(ctx, cmd, 800 if ctx.tier == "quick" else 5400, env={"LOCPATH": ctx.build + "/loc"}))


add("C31", run=run_c31, build=build_c31,
    technique="stateless model checking of the real code over environments: every combination of the stated settings of a process, each set up in a process of its own in which every operation is run on every input; results compared with those of a neutral process, the process state before with that after",
    assumptions=["the settings are those of a Linux process with glibc; results of the neutral process are judged by the other properties"])


# ---------------------------------------------------------------- C32: 32-bit systems
PROGS32 = [("g++ -m32 -O2", ["g++", "-O2"]), ("g++ -m32 -O0", ["g++", "-O0"]), ("g++ -m32 -O3 without SSE", ["g++", "-O3", "-march=pentium", "-mno-sse"]),
           ("clang++ -m32 -O2, unsigned char", ["clang++", "-O2", "-msse2", "-funsigned-char"])]


def build_c32(ctx):
    """32-bit programs made of the library and c32_rt.cpp: no 32-bit libraries are installed or needed."""
    b = ctx.build
    os.makedirs(b + "/inc/gnu", exist_ok=True)
    open(b + "/inc/gnu/stubs-32.h", "w").close()  # what a 32-bit libc would add to the headers: nothing that is used
    o = ctx.sh(["g++", "-std=c++20", "-x", "c++", "-E", "-v", "/dev/null"])
    dirs = [l.strip() for l in o.split("#include <...> search starts here:")[1].split("End of search list")[0].split("\n") if l.strip()]
    cxx = [x for d in dirs if "c++" in d for x in ("-isystem", d)]
    arch = [x for d in dirs if "x86_64" in d and "/lib/" not in d for x in ("-isystem", d)]
    common = ["-m32", "-std=c++20", "-fno-pic", "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-w"]
    inc = ["-I" + b + "/inc"] + ctx.incs() + ["-I" + ctx.src]
    ctx.note, ctx.broken = [], []

    def run(cmd):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, r.stdout

    rt = b + "/rt.o"
    rc, o = run(["g++", *common, "-O2", "-ffreestanding", "-fno-builtin", "-fno-exceptions", *inc, *arch, "-c", ctx.src + "/c32_rt.cpp", "-o", rt])
    if rc:
        ctx.note.append("no 32-bit compiler: " + o[-500:])
        return None

    def one(i):
        name, cc = PROGS32[i]
        obj, exe = "%s/m%d.o" % (b, i), "%s/w%d" % (b, i)
        head = (["-nostdinc++"] + cxx if cc[0] == "clang++" else []) + arch
        rc, o = run(cc + common + ["-include", ctx.src + "/c32_pre.hpp", '-DCFG_SOURCE="idna.cpp"', *inc, *head, "-c", ctx.src + "/c32_main.cpp", "-o", obj])
        if rc:
            bad = [l for l in o.split("\n") if " error:" in l]
            ours = [l for l in bad if l.startswith(ctx.repo)]
            return name, None, ("source" if ours and len(ours) == len(bad) else "other"), "\n".join((ours or bad)[:5])[:700]
        rc, o = run(["ld", "-m", "elf_i386", "-static", "-z", "noexecstack", obj, rt, "-o", exe])
        if rc:
            return name, None, "other", "needs functions that are not there in 32 bits: " + o[-500:]
        rc, o = run([exe])  # without a batch it ends at once with status 91
        if rc != 91:
            return name, None, "other", "does not run here: %s" % rc
        return name, "./w%d" % i, "", ""

    with ThreadPoolExecutor(5) as ex:
        drv = ex.submit(ctx.sh, CXX + ctx.incs() + ctx.defs() + ['-DCFG_SOURCE="idna.cpp"', ctx.src + "/c32.cpp", "-o", b + "/c32"])
        rs = list(ex.map(one, range(len(PROGS32))))
        drv.result()
    good = [r for r in rs if r[1]]
    for r in rs:
        if not r[1]:
            (ctx.broken if r[2] == "source" else ctx.note).append("%s: %s" % (r[0], r[3]))
    with open(b + "/progs.txt", "w") as f:
        for r in good:
            f.write("%s %s\n" % (r[1], r[0]))
    return [b + "/c32"] if good else None


def run_c32(ctx, c):
    cmd = build_c32(ctx)
    if cmd:
        r = finish(harness(ctx, cmd, 800 if ctx.tier == "quick" else 7000))
    else:
        r = {"coverage": mc_coverage({}), "violations": []}
        r["coverage"]["exhaustive"] = False
    r["coverage"]["programs"] = [p[0] for p in PROGS32]
    r["coverage"]["not_explored"] = ctx.note
    for x in ctx.broken:
        r["violations"].append({"key": "build:" + x.split(":")[0].replace(" ", "_"), "why": x, "replay": "confirmed", "text": "the library does not compile for 32 bits (%s)" % x})
    return r


add("C32", run=run_c32, build=build_c32,
    technique="bounded-exhaustive differential exploration: every input of the spaces through the real code built as 32-bit programs (i386 instructions, two compilers) and through the native build; buffers up to PTRDIFF_MAX of 32 bits",
    assumptions=["a 32-bit system is an i386 Linux process (addresses, size_t and long of 32 bits, 64-bit integers aligned to 4); its C library is replaced by a small runtime of the check's own",
                 "no object is longer than PTRDIFF_MAX", "the results of the native build are judged by the other properties"])
