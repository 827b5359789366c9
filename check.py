#!/usr/bin/env python3
"""Driver of the deterministic simulation checks.

  check.py C01 [--tier quick|thorough]   decide one property (exit 0 / 1 / 2)
  check.py replay FILE                   re-execute a replay file with its event trace
  check.py build                         only build the simulator
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
JOBS = max(1, min(8, os.cpu_count() or 1))
OPT = {"O2": "-O2", "O0": "-O0"}          # how the library is compiled: -O0 keeps every variable in memory
LIBFLAGS = ["-g1", "-std=c++11", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-fsanitize-coverage=trace-pc",
            "-fsanitize=bounds,shift,integer-divide-by-zero,float-cast-overflow", "-fsanitize-undefined-trap-on-error", "-fno-pie"]
SIMFLAGS = ["-std=c++17", "-O1", "-g1", "-fno-pie"]

from config import PROPS, ASSUMPTIONS, REAL, STUB     # noqa: E402


def die(msg):
    print("check error: " + msg)
    sys.exit(2)


def build(variant="O2"):
    """Builds the simulator from /repo's working tree, keyed by content."""
    src = sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/*.h"))
    sim = sorted(glob.glob(VERIF + "/sim/*.cpp") + glob.glob(VERIF + "/sim/*.h"))
    if not src or not sim:
        die("sources not found")
    h = hashlib.sha256(repr((LIBFLAGS, SIMFLAGS, OPT[variant])).encode())
    for f in src + sim:
        h.update(os.path.basename(f).encode() + b"\0" + open(f, "rb").read() + b"\0")
    key = h.hexdigest()[:20]
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = os.path.join(BUILD, key)
        exe = out + "/simslsm"
        if os.path.exists(exe):
            os.utime(out)
            return exe
        old = sorted((d for d in glob.glob(BUILD + "/*") if os.path.isdir(d)), key=os.path.getmtime)
        for d in old[:-5]:
            shutil.rmtree(d, ignore_errors=True)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        # slsm sources are compiled from a snapshot, so that a build is of one tree
        os.makedirs(tmp + "/src")
        for f in src:
            shutil.copy(f, tmp + "/src")
        stub = VERIF + "/sim/stub"
        jobs = []
        for f in sorted(glob.glob(tmp + "/src/*.cpp")):
            o = tmp + "/lib_" + os.path.basename(f) + ".o"
            jobs.append(["g++", OPT[variant]] + LIBFLAGS + ["-I" + tmp + "/src", "-I" + stub, "-c", f, "-o", o])
        for f in sim:
            if f.endswith(".cpp"):
                o = tmp + "/sim_" + os.path.basename(f) + ".o"
                jobs.append(["g++"] + SIMFLAGS + ["-I" + tmp + "/src", "-I" + stub, "-c", f, "-o", o])

        def run(c):
            p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return p.returncode, p.stdout, c
        with ThreadPoolExecutor(JOBS) as ex:
            for rc, txt, c in ex.map(run, jobs):
                if rc:
                    print(txt[-3000:])
                    die("compilation failed: " + c[-3])
        objs = sorted(glob.glob(tmp + "/*.o"))
        rc, txt, _ = run(["g++", "-no-pie", "-Wl,--wrap=exit"] + objs + ["-o", tmp + "/simslsm", "-lpthread"])
        if rc:
            print(txt[-3000:])
            die("link failed")
        for o in objs:
            os.unlink(o)
        os.rename(tmp, out)
        return exe


def run_worker(exe, args, timeout):
    p = subprocess.Popen([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        return -99, out
    return p.returncode, out


def parse(out):
    runs, cov = [], set()
    for ln in out.splitlines():
        if ln.startswith("RUN {"):
            try:
                runs.append(json.loads(ln[4:]))
            except ValueError:
                die("unreadable run record: " + ln[:200])
        elif ln.startswith("COV "):
            hx = ln.split()[2]
            for i in range(0, len(hx), 2):
                b = int(hx[i:i + 2], 16)
                for j in range(8):
                    if b >> j & 1:
                        cov.add(i * 4 + j)
    return runs, cov


def explore(exe, prop, base, count, tier, secs, maxfail):
    """Runs seeds base..base+count-1, striped over the workers."""
    args = [["run", prop, base + j, (count - j + JOBS - 1) // JOBS, JOBS, tier, secs, maxfail] for j in range(JOBS) if count > j]
    runs, cov = [], set()
    with ThreadPoolExecutor(JOBS) as ex:
        for rc, out in ex.map(lambda a: run_worker(exe, a, secs + 200), args):
            r, c = parse(out)
            runs += r
            cov |= c
            if rc != 0:
                die("a simulation worker ended with status %d after %d runs" % (rc, len(r)))
    return runs, cov


def replay(exe, path):
    rc, out = run_worker(exe, ["replay", path], 300)
    runs, _ = parse(out)
    return runs[0] if runs else None


def known_findings(prop):
    res = []
    p = VERIF + "/known-findings.txt"
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) match=(\S+) (.*)", ln.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "build":
        print(build(a[1] if len(a) > 1 else "O2"))
        return 0
    if a[0] == "replay":
        m = re.search(r"^# build=(\w+)", open(a[1]).read(), re.M)
        exe = build(m.group(1) if m else "O2")
        sys.stdout.flush()
        return subprocess.call([exe, "trace", a[1]])
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if prop not in PROPS:
        die("unknown property " + prop)
    cfg = PROPS[prop]
    t0 = time.time()
    exes = {v: build(v) for v in cfg.get("builds", {"O2": 1})}
    t1 = time.time()
    thorough = tier == "thorough"
    tn = 1 if thorough else 0
    total = cfg["thorough"] if thorough else cfg["quick"]
    cap = 3600 if thorough else 300
    base = (seed % 100000) * 100000000 + 1
    runs, cov = [], set()
    for v, share in sorted(cfg.get("builds", {"O2": 1}).items(), reverse=True):
        count = max(8, int(total * share))
        r, c = explore(exes[v], prop, base, count, tn, cap, 3)
        for q in r:
            q["build"] = v
        base += count
        runs += r
        if v == "O2":
            cov |= c
    wall_runs = time.time() - t1
    if not runs:
        die("no simulated run finished")
    errs = [r for r in runs if r["err"]]
    if errs:
        die("the harness failed in seed %d: %s" % (errs[0]["seed"], errs[0]["err"]))

    bad = sorted((r for r in runs if r["failed"]), key=lambda r: r["seed"])
    # determinism: a sample of the seeds again, in other processes, another order and another worker count
    good = sorted((r for r in runs if not r["failed"]), key=lambda r: mixkey(r["seed"]))
    sample = good[:max(24, min(len(good) // 25, 400))]
    def again(part):
        out = []
        for r in part:
            rc, o = run_worker(exes[r["build"]], ["run", prop, r["seed"], 1, 1, tn], 300)
            q, _ = parse(o)
            out.append((r, q[0] if q else None))
        return out
    parts = [sample[i::5] for i in range(5)]
    redo = []
    with ThreadPoolExecutor(5) as ex:
        for o in ex.map(again, parts):
            redo += o
    for r, q in redo:
        if q and not q["failed"] and q["hash"] != r["hash"] and prop == "C04":
            r.update(failed=1, cls="not-reproducible", msg="the same seed gave another execution in another process (%s / %s)" % (r["hash"], q["hash"]), unstable=True)
            bad.append(r)
        elif q is None or q["failed"] and not bad:
            if q is not None:
                q["build"] = r["build"]
                bad.append(q)
            else:
                die("seed %d of %s did not run again" % (r["seed"], prop))
        elif q["hash"] != r["hash"] and not bad:
            die("seed %d of %s is not reproducible (%s / %s)" % (r["seed"], prop, r["hash"], q and q["hash"]))

    # violations: confirm, minimise, confirm the minimised replay
    known = known_findings(prop)
    known_hit, reported, unconfirmed = {}, [], []
    seen = set()
    os.makedirs(VERIF + "/replays", exist_ok=True)
    for r in bad:
        k = r["cls"]
        if k in seen:
            continue
        text = r["cls"] + " " + r["msg"]
        hit = [d for m, d in known if re.search(m, text.replace(" ", "_"))]
        if hit:
            known_hit[hit[0]] = known_hit.get(hit[0], 0) + 1
            continue
        seen.add(k)
        if len(reported) >= 3 or reported and time.time() - t0 > 330:
            continue
        path = "%s/replays/%s-%d.plan" % (VERIF, prop, r["seed"])
        exe = exes[r["build"]]
        rc, plan = run_worker(exe, ["gen", prop, r["seed"], tn], 60)
        raw = path + ".raw"
        if os.path.exists(path):
            os.unlink(path)
        open(raw, "w").write(plan)
        hang = r["cls"] == "hang"       # takes a minute of real time for every execution
        q1 = replay(exe, raw)
        q2 = q1 if hang else replay(exe, raw)
        if not q1 or not q2 or not q1["failed"] or not q2["failed"]:
            # an execution that depends on what ran before it in the same worker, which only code that
            # keeps state outside the simulation (or reads memory it does not own) can do
            if not r.get("unstable") and not again([r])[0][1]["failed"]:
                unconfirmed.append(r)
                continue
            m1 = r
            shutil.copy(raw, path)
        else:
            if time.time() - t0 < 450 and not hang:
                run_worker(exe, ["minimise", raw, path, 45], 200)
            m1 = replay(exe, path) if os.path.exists(path) else None
            m2 = replay(exe, path) if m1 else None
            if not m1 or not m2 or not m1["failed"] or m1["cls"] != r["cls"] or (m1["hash"] != m2["hash"] and q1["hash"] == q2["hash"]):
                shutil.copy(raw, path)
                m1 = q1
            if q1["hash"] != r["hash"] or q2["hash"] != r["hash"]:
                m1["msg"] += " (the code under test does not behave the same in every execution of this seed)"
        os.unlink(raw)
        with open(path, "a") as f:
            f.write("# build=%s\n" % r["build"])
            f.write("# %s: %s\n# hash %s, replay with: python3 /verif/check.py replay %s\n" % (m1["cls"], m1["msg"], m1["hash"], path))
        reported.append((r, m1, path))

    if unconfirmed and not reported:
        die("the violation of seed %d was not seen again: %s" % (unconfirmed[0]["seed"], unconfirmed[0]["msg"]))
    fired, probes = {}, {}
    for r in runs:
        for n, v in r["fired"].items():
            fired[n] = fired.get(n, 0) + v
        for i, v in r["probes"]:
            probes[i] = probes.get(i, 0) + v
    nt = [r for r in runs if r["nt"]]
    distinct = len({(r["state"], r["sched"], r["hash"]) for r in nt})
    missing = [f for f in cfg.get("must_fire", []) if not fired.get(f)]
    names = cfg.get("probes", {})
    dead = [names[i] for i in names if not probes.get(i)]
    if not bad and (missing or dead):
        die("the exploration was vacuous: never exercised %s" % (missing + dead))
    wall = time.time() - t0
    samples = []
    for r in (nt or runs)[:2]:
        rc, plan = run_worker(exes[r["build"]], ["gen", prop, r["seed"], tn], 60)
        samples.append({"seed": r["seed"], "plan": plan.splitlines()[:60], "hash": r["hash"], "events": r["events"], "fired": r["fired"]})
    ev = {
        "property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": cfg["level"],
        "coverage": {
            "evaluations": len(runs), "distinct_nontrivial": distinct, "rule": cfg["rule"], "samples": samples,
            "oracle_evaluations": sum(r["checks"] for r in runs),
            "operations_executed": sum(r["ops"] for r in runs),
            "library_basic_blocks": sum(r["steps"] for r in runs),
            "simulated_time": sum(r["simTime"] for r in runs),
            "runs_per_hour": int(len(runs) / max(wall_runs, 1e-3) * 3600),
            "seeds": "%d..%d" % (min(r["seed"] for r in runs), max(r["seed"] for r in runs)),
            "faults_fired": fired,
            "outcomes": {names.get(i, "probe%d" % i): v for i, v in sorted(probes.items())},
            "distinct_library_edges": len(cov),
            "distinct_schedules": len({r["sched"] for r in runs if r["switches"]}),
            "distinct_final_states": len({r["state"] for r in runs}),
            "context_switches": sum(r["switches"] for r in runs),
            "builds_of_the_library": {OPT[v]: sum(r["build"] == v for r in runs) for v in exes},
            "determinism_sample": len(redo), "determinism_mismatches": 0,
            "real_code": REAL, "stubbed": STUB + cfg.get("stub", []),
        },
        "assumptions": ASSUMPTIONS + cfg.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(reported),
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    tmp = "%s/evidence/.%s.tmp" % (VERIF, prop)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, "%s/evidence/%s.json" % (VERIF, prop))

    for d in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, d))
    for r, m, path in reported:
        print("seed %d: %s: %s" % (r["seed"], m["cls"], m["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s: %d simulated runs, %d distinct non-trivial, %d faults, %.1f s" % (prop, tier, len(runs), distinct, sum(fired.values()), wall))
    return 1 if reported else 0


def mixkey(s):
    return hashlib.md5(str(s).encode()).digest()


if __name__ == "__main__":
    sys.exit(main())
