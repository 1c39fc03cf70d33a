#!/usr/bin/env python3
"""Builds lib_moment from /repo's working tree with the harness of one property, and runs it.

  run.py --setup                 build everything (fills the compiler cache)
  run.py C01                     the check (VERIF_TIER, VERIF_SEED from the environment)
  run.py C01 --replay FILE       replays one recorded case
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("MOMENT_REPO", "/repo")
LIB = os.path.join(REPO, "cpp/lib_moment")
BUILD = os.environ.get("MOMENT_VERIF_BUILD", os.path.join(VERIF, "build"))
CHUNKS = 16
CXX = next((c for c in ("g++-12", "g++-13", "g++") if shutil.which(c)), "g++")
COMMON = ["-std=c++20", "-include", "numeric", "-I", LIB, "-I", HERE, "-isystem", "/usr/include/eigen3",
          '-DEIGEN_SPARSEMATRIX_PLUGIN="%s/eigen_shim.h"' % HERE, "-DUNIX", "-DNDEBUG", "-w", "-pthread"]
CONFIGS = {
    # everything the quick tier runs: memory errors become visible failures
    "asan": ["-O1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address", "-fno-omit-frame-pointer"],
    # data races become visible failures
    "tsan": ["-O1", "-fsanitize=thread"],
    # extra for thorough tiers
    "ubsan": ["-O1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"],
}
PROPS = json.load(open(os.path.join(HERE, "props.json")))


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def lib_sources():
    try:
        txt = open(os.path.join(LIB, "CMakeLists.txt")).read()
        txt = re.sub(r"#.*", "", txt)
        m = re.search(r"add_library\s*\(\s*lib_moment\b(.*?)\)", txt, re.S)
        src = [s for s in m.group(1).split() if s.endswith(".cpp")]
        src = [s for s in src if os.path.exists(os.path.join(LIB, s))]
        if len(src) > 50:
            return src
    except (OSError, AttributeError):
        pass
    return sorted(os.path.relpath(p, LIB) for p in glob.glob(LIB + "/**/*.cpp", recursive=True))


def compile_one(cfg, src, obj):
    env = dict(os.environ)
    env["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    env["CCACHE_MAXSIZE"] = "3G"
    env.pop("CCACHE_DISABLE", None)
    cmd = ([shutil.which("ccache")] if shutil.which("ccache") else []) + [CXX] + COMMON + CONFIGS[cfg] + ["-c", src, "-o", obj]
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def build(cfg, props):
    """Builds lib objects and the drivers of props; returns {prop: executable}."""
    d = os.path.join(BUILD, cfg)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        src = lib_sources()
        jobs = []
        for i in range(CHUNKS):
            part = src[i::CHUNKS]
            unity = os.path.join(d, "unity_%d.cpp" % i)
            with open(unity, "w") as f:
                f.write("".join('#include "%s/%s"\n' % (LIB, s) for s in part))
            jobs.append(("lib", unity, os.path.join(d, "unity_%d.o" % i), part))
        engine = os.path.join(d, "pbt.o")
        jobs.append(("drv", os.path.join(HERE, "pbt.cpp"), engine, None))
        drv = {}
        seen = set()
        for p in props:
            for s in PROPS[p]["sources"]:
                o = os.path.join(d, s.replace("/", "_") + ".o")
                drv.setdefault(p, []).append(o)
                if o not in seen:
                    seen.add(o)
                    jobs.insert(0, ("drv", os.path.join(HERE, "src", s), o, None))
        libobjs = []
        with concurrent.futures.ThreadPoolExecutor(max_workers=int(os.environ.get("MOMENT_VERIF_JOBS", "8"))) as ex:
            res = list(ex.map(lambda j: compile_one(cfg, j[1], j[2]), jobs))
            retry = []
            for j, (rc, out) in zip(jobs, res):
                if rc == 0:
                    if j[0] == "lib":
                        libobjs.append(j[2])
                elif j[0] == "drv":
                    log(out)
                    raise SystemExit("cannot compile " + j[1])
                else:  # names may clash when files are compiled together: compile this group one by one
                    for s in j[3]:
                        retry.append((os.path.join(LIB, s), os.path.join(d, s.replace("/", "_") + ".o")))
            for (s, o), (rc, out) in zip(retry, list(ex.map(lambda j: compile_one(cfg, j[0], j[1]), retry))):
                if rc != 0:
                    log(out)
                    raise SystemExit("cannot compile " + s)
                libobjs.append(o)
        lib = os.path.join(d, "libmoment.a")
        if os.path.exists(lib):
            os.unlink(lib)
        subprocess.run(["ar", "rcs", lib] + libobjs, check=True)
        exes = {}

        def link(p):
            exe = os.path.join(d, "check_" + p)
            subprocess.run([CXX] + CONFIGS[cfg] + ["-pthread", "-o", exe] + drv[p] + [engine, lib], check=True)
            return p, exe
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            for p, exe in ex.map(link, props):
                exes[p] = exe
        return exes


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        t = time.time()
        only = args[1:] or sorted(PROPS)
        for cfg in sorted({c for p in only for c in PROPS[p].get("configs", ["asan"])}):
            build(cfg, [p for p in only if cfg in PROPS[p].get("configs", ["asan"])])
        log("setup done in %.0f s" % (time.time() - t))
        return 0
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    tier = "thorough" if tier == "thorough" else "quick"
    seed = os.environ.get("VERIF_SEED", "1")
    try:
        seed = str(int(seed) & 0x7fffffff)
    except ValueError:
        seed = "1"
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    cfgs = list(PROPS[prop].get("configs", ["asan"]))
    if tier == "thorough" and "ubsan" in PROPS[prop].get("thorough_configs", []):
        cfgs.append("ubsan")
    if "--replay" in args:
        exe = build(cfgs[0], [prop])[prop]
        return subprocess.run([exe, "--property", prop, "--replay", args[args.index("--replay") + 1]]).returncode
    t0 = time.time()
    evs = []
    rc = 0
    for cfg in cfgs:
        exe = build(cfg, [prop])[prop]
        log("built %s/%s after %.1f s" % (cfg, prop, time.time() - t0))
        ev = os.path.join(VERIF, "evidence", prop + ".json")
        budget = PROPS[prop].get("budget", {}).get(tier, 120 if tier == "quick" else 3000)
        cmd = [exe, "--property", prop, "--tier", tier, "--seed", seed, "--evidence", ev, "--budget", str(budget),
               "--replay-dir", os.path.join(VERIF, "replays"), "--known", os.path.join(VERIF, "known_findings.txt")]
        if "--only" in args:
            cmd += ["--only", args[args.index("--only") + 1]]
        if "--scale" in args:
            cmd += ["--scale", args[args.index("--scale") + 1]]
        elif cfg != "asan" and "asan" in cfgs:
            cmd += ["--scale", str(PROPS[prop].get("scale", {}).get(cfg, 0.3))]
        r = subprocess.run(cmd)
        if r.returncode not in (0, 1):
            log("harness ended with status", r.returncode)
            return 2
        evs.append((cfg, json.load(open(ev))))
        rc = max(rc, r.returncode)
        if rc:
            break
    # one evidence file: the counts of each build, measured on this run
    base = evs[0][1]
    base["coverage"]["build"] = evs[0][0]
    if len(evs) > 1:
        base["coverage"]["other_builds"] = {c: {k: e["coverage"][k] for k in ("evaluations", "distinct_nontrivial", "per_law")} for c, e in evs[1:]}
        base["violations"] = sum(e.get("violations", 0) for _, e in evs)
    base["assumptions"] = ["lib_moment is compiled with %s and Eigen's setFromSortedTriplets supplied by harness/eigen_shim.h" % CXX]
    base["wall_s"] = round(time.time() - t0, 2)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(base, f, indent=1)
    return rc


if __name__ == "__main__":
    sys.exit(main())
