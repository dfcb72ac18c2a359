#!/usr/bin/env python3
"""Builds the simulation of one property from /repo's working tree and runs it.

  check.py C05 [quick|thorough]     run the check of a property (exit 0: held, 1: VIOLATION, other: error)
  check.py --replay FILE            re-execute a replay file against the current tree
  check.py --build-all              build every simulation (setup)
  check.py --selftest [C05 ...]     determinism self-test: same seeds in different processes and worker counts
"""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.environ.get("SIM_BUILD", os.path.join(HERE, "build"))
EVID = os.environ.get("SIM_EVIDENCE", os.path.join(HERE, "evidence"))
REPLAYS = os.path.join(BUILD, "replays")
CXX = shutil.which("g++-14") or "g++"
BASE = ["-std=c++20", "-g1", "-w", "-I" + os.path.join(REPO, "sources"), "-I" + SIM]
FLAVOURS = {
    # memory-checked code under test, counted control-flow edges as simulated time
    "fault": ["-O1", "-fsanitize=address,signed-integer-overflow,bounds", "-fno-sanitize-recover=all",
              "-fsanitize-coverage=trace-pc", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"],
    # every memory access of the code under test is a scheduling point of the simulator (own runtime, no libtsan)
    "thread": ["-O1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"],
}
WRAPPED = ["memcpy", "memmove", "memset", "memcmp", "bcmp", "strlen", "memchr", "malloc", "calloc", "realloc",
           "strtok", "setlocale", "asctime", "localtime", "gmtime", "lgamma", "drand48", "srand48",
           "sched_yield", "nanosleep", "clock_nanosleep", "usleep", "syscall"]
# property -> (world source, PROP define, flavour, quick seconds, thorough seconds)
PROPS = {}


def prop(pid, world, n=None, flavour="fault", quick=50, thorough=600, **kw):
    PROPS[pid] = dict(world=world, n=n if n is not None else int(pid[1:]), flavour=flavour, quick=quick, thorough=thorough, **kw)


prop("C01", "w_int")
prop("C02", "w_int")
prop("C03", "w_random")
prop("C04", "w_str")
prop("C05", "w_list")
prop("C06", "w_deque")
prop("C07", "w_set")
prop("C08", "w_dict")
prop("C09", "w_conserve")
prop("C10", "w_reject")
prop("C11", "w_list")
prop("C12", "w_stream")
prop("C13", "w_stream")
prop("C14", "w_stream")
prop("C15", "w_out")
prop("C16", "w_out")
prop("C17", "w_persist")
prop("C18", "w_conc", flavour="thread")
prop("C19", "w_conc", flavour="thread")
prop("C20", "w_mem", quick=40)
prop("C21", "w_value", parts=3)
prop("C22", "w_bulk", parts=4)
prop("C23", "w_frac")
prop("C24", "w_complex")
prop("C25", "w_order")
prop("C26", "w_order")
prop("C29", "w_tuple")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(os.path.basename(p).encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def tree(d):
    r = []
    for base, _, files in os.walk(d):
        r += [os.path.join(base, f) for f in files if f.endswith((".hpp", ".cpp", ".h"))]
    return r


def build(pid):
    p = PROPS[pid]
    fl = FLAVOURS[p["flavour"]]
    rt = "rt.cpp" if p["flavour"] == "fault" else "rt.cpp"
    headers = [f for f in tree(SIM) if f.endswith(".hpp")]
    extra_units = ["threads.cpp"] if p["flavour"] == "thread" else []
    units = [p["world"] + ".cpp"]
    key = digest(tree(os.path.join(REPO, "sources")) + headers + [os.path.join(SIM, u) for u in [rt] + units + extra_units], " ".join([CXX] + BASE + fl) + str(p["n"]))
    out = os.path.join(BUILD, "bin", "%s.%s" % (pid, key))
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = os.path.join(BUILD, "tmp.%s.%d" % (pid, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    try:
        jobs = []
        wobjs = []
        for part in range(p.get("parts", 1)):
            wobjs.append(os.path.join(tmp, "world%d.o" % part))
            jobs.append([CXX] + BASE + fl + ["-DPROP=%d" % p["n"], "-DPART=%d" % part, "-c", os.path.join(SIM, p["world"] + ".cpp"), "-o", wobjs[-1]])
        rtflags = ["-O2"] + (["-DSIM_THREADS"] if p["flavour"] == "thread" else [])
        for u in [rt] + extra_units:
            rkey = digest(headers + [os.path.join(SIM, u)], " ".join([CXX] + BASE[:3] + rtflags))
            robj = os.path.join(BUILD, "obj", "%s.%s.o" % (u, rkey))
            os.makedirs(os.path.dirname(robj), exist_ok=True)
            if os.path.exists(robj):
                shutil.copy(robj, os.path.join(tmp, u + ".o"))
            else:
                jobs.append([CXX] + BASE[:3] + ["-I" + SIM] + rtflags + ["-c", os.path.join(SIM, u), "-o", os.path.join(tmp, u + ".o")])
        with ThreadPoolExecutor(4) as ex:
            for r in ex.map(lambda c: sh(c), jobs):
                if r.returncode != 0:
                    print(r.stdout[-6000:])
                    raise SystemExit("build of %s failed" % pid)
        for u in [rt] + extra_units:
            rkey = digest(headers + [os.path.join(SIM, u)], " ".join([CXX] + BASE[:3] + rtflags))
            robj = os.path.join(BUILD, "obj", "%s.%s.o" % (u, rkey))
            if not os.path.exists(robj):
                t = robj + ".%d" % os.getpid()
                shutil.copy(os.path.join(tmp, u + ".o"), t)
                os.replace(t, robj)
        link = [CXX, "-g1", "-rdynamic"] + (["-fsanitize=address,undefined"] if p["flavour"] == "fault" else ["-pthread"] + ["-Wl,--wrap=" + f for f in WRAPPED])
        link += wobjs + [os.path.join(tmp, u + ".o") for u in [rt] + extra_units] + ["-o", os.path.join(tmp, "out"), "-ldl"]
        r = sh(link)
        if r.returncode != 0:
            print(r.stdout[-6000:])
            raise SystemExit("link of %s failed" % pid)
        # only the newest build of each property is kept
        for f in os.listdir(os.path.dirname(out)):
            if f.startswith(pid + "."):
                try:
                    os.unlink(os.path.join(os.path.dirname(out), f))
                except OSError:
                    pass
        os.replace(os.path.join(tmp, "out"), out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def known_findings(pid):
    """key -> text of the findings listed for a property"""
    r = {}
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for l in f:
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                r[m.group(2)] = m.group(3)
    return r


def seed_of(env):
    s = env.get("VERIF_SEED", "1")
    try:
        return int(s) & (2**63 - 1)
    except ValueError:
        return int(hashlib.sha256(s.encode()).hexdigest()[:15], 16)


def run(pid, tier):
    t0 = time.time()
    p = PROPS[pid]
    binary = build(pid)
    built = time.time() - t0
    seed = seed_of(os.environ)
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    out = os.path.join(BUILD, "%s.%d.json" % (pid, os.getpid()))
    jobs = int(os.environ.get("SIM_JOBS", "8"))
    known = known_findings(pid)
    os.environ["SIM_KNOWN"] = " " + " ".join(known) + " "
    secs = p["thorough"] if tier == "thorough" else p["quick"]
    r = subprocess.run([binary, "run", "--prop", pid, "--seed", str(seed), "--jobs", str(jobs), "--tier", tier,
                        "--time", str(secs), "--out", out, "--dir", REPLAYS], stdout=subprocess.PIPE, text=True, errors="replace")
    sys.stdout.write(r.stdout)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        print("check error: simulator exit %d" % r.returncode)
        return 2
    with open(out) as f:
        d = json.load(f)
    os.unlink(out)
    wall = time.time() - t0
    viol = d["violation"]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": 1 if viol else 0,
        "coverage": {
            "evaluations": d["segments"],
            "distinct_nontrivial": d["distinct_nontrivial"],
            "rule": "one evaluation is one simulated run (a history generated from one seed, executed on fresh objects under the simulator); distinct runs are counted by " + d["measure"] + "; non-trivial means that at least one injected fault or preemption actually took effect in the run",
            "samples": d["samples"],
            "distinct_runs": d["distinct"],
            "operations": d["operations"],
            "simulated_steps": d["steps"],
            "simulated_time": "%d control-flow steps of the code under test (the simulator's clock; the code has no timers)" % d["steps"],
            "runs_with_faults": d["faulted_segments"],
            "faults_injected": d["faults"],
            "runs_per_hour": int(d["segments"] / max(d["explore_s"], 1e-3) * 3600),
            "seeds_per_hour": int(d["segments"] / max(d["explore_s"], 1e-3) * 3600),
            "explore_s": d["explore_s"], "build_s": round(built, 2),
            "probes": d["probes"],
            "real_components": d["real"], "stubbed_components": d["stub"],
            "exhaustive": False,
        },
        "assumptions": ["g++-14 build of /repo/sources with AddressSanitizer and library preconditions checked" if p["flavour"] == "fault" else "g++-14 build of /repo/sources with every memory access instrumented; code inside libstdc++.so is not instrumented",
                        "a clean batch is evidence from sampled seeds, not proof"],
    }
    if viol:
        ev["coverage"]["violation"] = viol
    tmp = os.path.join(EVID, ".%s.%d" % (pid, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(EVID, pid + ".json"))
    print("%s %s: %d runs, %d with faults, %d distinct, faults %s, %.1fs build %.1fs explore" % (pid, tier, d["segments"], d["faulted_segments"], d["distinct"], json.dumps(d["faults"]), built, d["explore_s"]))
    for k, text in known.items():
        if d["probes"].get("known:" + k):
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, viol["replay"]))
        return 1
    if d["segments"] == 0 or d["distinct_nontrivial"] < 2:
        print("check error: nothing explored")
        return 2
    return 0


def main(argv):
    if len(argv) >= 3 and argv[1] == "--replay":
        m = re.search(r"^property (\S+)", open(argv[2]).read(), re.M)
        b = build(m.group(1))
        os.environ["SIM_KNOWN"] = " " + " ".join(known_findings(m.group(1))) + " "
        r = subprocess.run([b, "replay", argv[2]])
        return r.returncode
    if len(argv) >= 2 and argv[1] == "--build-all":
        ids = argv[2:] or sorted(PROPS)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(build, ids))
        print("built", len(ids))
        return 0
    if len(argv) >= 2 and argv[1] == "--selftest":
        bad = 0
        for pid in argv[2:] or sorted(PROPS):
            b = build(pid)
            seeds = range(1, 9)
            def dig(s):
                return [sh([b, "digest", str(s), "6"]).stdout for _ in range(3)]
            for workers in (8, 3):
                with ThreadPoolExecutor(workers) as ex:
                    rs = list(ex.map(dig, seeds))
                for s, r in zip(seeds, rs):
                    if len(set(r)) != 1 or "ok" not in r[0]:
                        bad += 1
                        print("NONDETERMINISTIC", pid, s, r)
            print(pid, "deterministic" if not bad else "FAILED", hashlib.sha256(str(rs).encode()).hexdigest()[:12])
        return 1 if bad else 0
    if len(argv) < 2 or argv[1] not in PROPS:
        print(__doc__)
        return 2
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return run(argv[1], "thorough" if tier == "thorough" else "quick")


if __name__ == "__main__":
    sys.exit(main(sys.argv))
