#!/usr/bin/env python3
"""Build the simulator from /repo's working tree and decide one property with it.

  check.py <property> [--tier quick|thorough] [--time S] [--seed N]
  check.py --build            only configure and build

Exit 0: no violation found; 1: VIOLATION line printed; anything else: no answer."""
import argparse, fcntl, glob, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props import PROPS

B = V + "/build"
REPO = "/repo"
CMAKE = ["-DCMAKE_BUILD_TYPE=Release", "-DROUGHPY_NO_VCPKG=ON", "-DROUGHPY_BUILD_TESTS=ON",
         "-DROUGHPY_BUILD_PYLIB=ON", "-DROUGHPY_EXPERIMENTAL=ON", "-DROUGHPY_USE_CCACHE=OFF",
         "-DFETCHCONTENT_FULLY_DISCONNECTED=ON", "-DCMAKE_PREFIX_PATH=/opt/vp/cmake",
         "-DCMAKE_PROJECT_RoughPy_INCLUDE=/opt/vp/cmake/leave-out.cmake",
         "-DPCGRandom_INCLUDE_DIRS=/opt/vp/cmake/include", "-DPython_ROOT_DIR=/opt/roughpy-venv",
         "-DPython_EXECUTABLE=/opt/roughpy-venv/bin/python", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"]


def die(msg, code=2):
    print("ERROR: " + msg, flush=True)
    sys.exit(code)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def cmake_stamp():
    files = sorted(glob.glob(REPO + "/**/CMakeLists.txt", recursive=True) + glob.glob(REPO + "/**/*.cmake", recursive=True)
                   + glob.glob(REPO + "/**/*.in", recursive=True))
    s = ["2"]
    for f in files:
        if "/_build/" in f or "/build/" in f: continue
        st = os.stat(f)
        s.append(f"{f} {st.st_size} {st.st_mtime_ns}")
    return "\n".join(s)


def build(py=False):
    os.makedirs(B, exist_ok=True)
    with open(B + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = {k: v for k, v in os.environ.items() if k not in ("VERIF_SEED", "VERIF_TIER")}
        stamp = cmake_stamp()
        try:
            old = open(B + "/cfg/.stamp").read()
        except OSError:
            old = ""
        if stamp != old:
            r = sh(["cmake", "-S", REPO, "-B", B + "/cfg", "-G", "Ninja"] + CMAKE, env=env)
            if r.returncode: die("cmake failed:\n" + r.stdout[-3000:])
            open(B + "/cfg/.stamp", "w").write(stamp)
        r = sh([sys.executable, V + "/tools/genbuild.py"], env=env)
        if r.returncode: die("genbuild failed:\n" + r.stdout[-3000:])
        r = sh(["ninja", "-f", B + "/sim.ninja"] + (["pysim"] if py else []), env=env)
        if r.returncode: die("build failed:\n" + r.stdout[-6000:])


def symbolise(pcs, exe):
    if not pcs: return ""
    o = sh(["addr2line", "-Cfe", exe] + [hex(x - 1) for x in pcs]).stdout.split("\n")
    out = []
    for i in range(0, len(o) - 1, 2):
        if o[i] == "??": continue
        fn = re.sub(r"\[abi:[a-z0-9]+\]", "", o[i])
        out.append("    " + fn[:140] + "  " + o[i + 1].replace(REPO + "/", "").replace(V + "/", ""))
    return "\n".join(out[:14])


def known_for(prop):
    """lines 'known: property=<id> case=<file> class=<class> match=<regex> -- text'"""
    res = []
    try:
        for l in open(V + "/known-findings.txt"):
            m = re.match(r"known: property=(\S+) case=(\S+) class=(\S+) match=(\S+) -- (.*)", l)
            if m and m.group(1) == prop: res.append(m.groups()[1:])
    except OSError:
        pass
    return res


def replay(exe, f):
    # (address randomisation off and a fixed environment are the simulator's own business)
    r = subprocess.run([exe, "replay", f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
    try:
        return json.loads(r.stdout.strip().split("\n")[-1])
    except Exception:
        die(f"replay of {f} gave no answer (exit {r.returncode})")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--build", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--time", type=float, default=0)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--workers", type=int, default=os.cpu_count() or 4)
    a = ap.parse_args()
    t0 = time.time()
    if a.build:
        build()
        if any(p.get("py") for p in PROPS.values()): build(py=True)
        return 0
    P = PROPS[a.prop]
    build(py=bool(P.get("py")))
    t_build = time.time() - t0
    tb = P["time"]
    budget = a.time or (tb if a.tier == "quick" else tb * 12)
    exe = B + ("/pysim" if P.get("py") else "/rpysim")
    rdir = V + "/build/replays"
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(f"{rdir}/{a.prop}-*"): os.unlink(f)
    out = f"{B}/out-{a.prop}.json"
    known = known_for(a.prop)
    for case, cls, rx, text in known:
        d = replay(exe, V + "/" + case)
        if d["status"] == 2 and d["class"] == cls and re.search(rx, d["msg"]):
            print(f"KNOWN-FINDING: property={a.prop} {text}", flush=True)
    runs = 0
    viol = []
    groups = P["scenarios"]
    tot = sum(w for _, w in groups)
    cov = []
    sup = 0
    for scen, w in groups:
        if viol: break
        T = budget * w / tot
        if os.path.exists(out): os.unlink(out)
        r = subprocess.run([exe, "run", "--scenario", scen, "--seed", str(a.seed), "--time", str(T), "--workers",
                            str(a.workers), "--out", out, "--replay-dir", rdir, "--min-budget",
                            "20" if a.tier == "quick" else "60", "--tag", a.prop, "--recheck", "40"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        try:
            d = json.load(open(out))
        except Exception:
            die(f"simulator gave no result (exit {r.returncode}): {r.stdout[-2000:]}")
        d["scenario"] = scen
        cov.append(d)
        for v in d["violations"]:
            if any(v["class"] == cls and re.search(rx, v["msg"]) for _, cls, rx, _ in known):
                sup += 1
                continue
            viol.append(v)
        if (d["bad"] or d["errors"] or d["nondeterministic"]) and not viol:
            die(f"scenario {scen}: simulator error: bad={d['bad']} errors={d['errors']} "
                f"nondeterministic={d['nondeterministic']}: {d['err']}\n{r.stdout[-2000:]}", 3)
    good = []
    for v in viol:
        x, y = replay(exe, v["replay"]), replay(exe, v["replay"])
        want = [l.split(":")[1].strip() for l in open(v["replay"]) if l.startswith("# hash:")]
        if x["status"] == 2 and x["class"] == v["class"] and x == y:
            # two fresh processes agree on every event; the search should have seen the same ones
            if want and int(want[0]) != x["hash"]:
                print(f"note: {v['replay']}: both replays agree but not with the search: {x['hash']}, {want[0]}", flush=True)
            good.append(v)
        else:
            print(f"note: discarded a violation whose replay file did not reproduce it exactly: {v['replay']} {v['class']} "
                  f"{x} {y} {want}", flush=True)
    if viol and not good: die("no violation found could be reproduced from its replay file", 3)

    tot = {k: sum(d[k] for d in cov) for k in ("runs", "runs_faulty", "runs_with_fault", "nontrivial", "distinct", "rechecked",
                                               "steps", "switches", "foreign_points", "sync_points", "allocs", "sim_ns",
                                               "io_points", "ops_ok", "ops_err")}
    faults, probes = {}, {}
    for d in cov:
        for k, n in d["faults"].items(): faults[k] = faults.get(k, 0) + n
        names = d.get("probe_names", {})
        for k, n in names.items(): probes[f"{d['scenario']}.{k}"] = n
    wall_search = sum(d["wall_s"] for d in cov)
    hours = max(wall_search, 1e-6) / 3600
    ev = {"property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed, "level": P.get("level", "exploration"),
          "coverage": {
              "evaluations": tot["runs"],
              "distinct_nontrivial": min(tot["distinct"], tot["nontrivial"]),
              "rule": P["rule"] + " A run is non-trivial if at least one fault fired, a preemption separated two conflicting accesses or "
                      "synchronisation operations, or a crash/restart happened; two runs are distinct if their event hashes (order of "
                      "synchronisation, context switches, faults and results) differ.",
              "samples": [s for d in cov for s in d["samples"][:2]][:6],
              "scenarios": [d["scenario"] for d in cov],
              "runs_per_hour": int(tot["runs"] / hours), "seeds_per_hour": int(tot["runs"] / hours),
              "fault_free_runs": tot["runs"] - tot["runs_faulty"], "fault_injecting_runs": tot["runs_faulty"],
              "runs_in_which_a_fault_fired": tot["runs_with_fault"],
              "simulated_time_ns": tot["sim_ns"], "simulated_steps": tot["steps"],
              "simulated_time_note": "RoughPy reads no clock: simulated time is counted in instrumented memory accesses and "
                                     "synchronisation steps (simulated_steps); simulated_time_ns is the virtual clock behind timed waits.",
              "context_switches": tot["switches"], "accesses_to_memory_shared_between_tasks": tot["foreign_points"],
              "synchronisation_points": tot["sync_points"], "heap_allocations_decided": tot["allocs"], "io_calls_decided": tot["io_points"],
              "operations_completed": tot["ops_ok"], "operations_failed_by_fault": tot["ops_err"],
              "faults_fired": faults, "probes": probes,
              "distinct_interleavings": tot["distinct"],
              "interleaving_measure": "hash of the sequence of (task, synchronisation object, operation), context switches, fired faults and results",
              "runs_repeated_to_prove_determinism": tot["rechecked"], "repeats_that_differed": sum(d["nondeterministic"] for d in cov),
              "real_components": P["real"], "stub_components": P["stub"],
              "violations_suppressed_as_known": sup},
          "assumptions": P.get("assume", []),
          "wall_s": round(time.time() - t0, 1), "build_s": round(t_build, 1), "violations": len(good)}
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(f"{V}/evidence/{a.prop}.json", "w") as f: json.dump(ev, f, indent=1)
    print(f"{a.prop}: {tot['runs']} runs in {wall_search:.0f} s (build {t_build:.0f} s), {tot['distinct']} distinct, faults {faults}", flush=True)
    for v in good:
        print(f"VIOLATION property={a.prop} replay={v['replay']}")
        print(f"  {v['class']}: {v['msg'][:1500]}")
        st = symbolise(v["pcs"], exe)
        if st: print(st)
    sys.stdout.flush()
    return 1 if good else 0


sys.exit(main())
