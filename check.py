#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decide one property by simulation
check.py --setup               build the simulator
check.py --replay FILE         run a replay file again, with its event log
check.py --determinism [N]     every run N times over, in several processes

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Exit 2: the machinery itself failed."""
import fcntl, hashlib, json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BABS_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
TRIPLE = "x86_64-unknown-linux-gnu"
TARGET = os.path.join(SIM, "target")
EVID = os.path.join(HERE, "evidence")
# name, directory, flags, share of the runs
PROFILES = [("checked", "debug", [], 1.0), ("release", "release", ["--release"], 1.0), ("plain", "plain", ["--profile", "plain"], 0.1)]

# simulated runs per second differ; these take about half a minute per build
# profile on the eight processors of the sandbox
QUICK = {"C01": 170000, "C02": 190000, "C03": 180000, "C04": 200000, "C05": 170000, "C06": 110000,
         "C07": 230000, "C08": 120000, "C09": 120000, "C10": 150000, "C11": 130000}
CAP = {"quick": 75, "thorough": 390}
THOROUGH = 60

REAL = ["babs (all of src/), compiled from the working tree, instrumented but otherwise unmodified", "num-traits",
        "Rust's alloc and core (Vec, String, fmt, io::Write::write_fmt), the panic and unwinding machinery", "OS threads and thread-local storage"]
STUB = ["thread scheduler (one thread at a time, switched at instrumented instructions)", "global allocator", "futex, clock, sleep, yield, thread creation and join, random source",
        "text sinks and byte streams", "disk (files in memory shared by the incarnations of the simulated machine)"]


def die(msg):
    print("check error: " + msg, flush=True)
    sys.exit(2)


def sources():
    h = hashlib.sha256()
    files = []
    for root in (os.path.join(REPO, "src"), os.path.join(SIM, "dst"), os.path.join(SIM, "subject")):
        for d, _, names in os.walk(root):
            files += [os.path.join(d, n) for n in names]
    files += [os.path.join(REPO, "Cargo.toml"), os.path.join(SIM, "Cargo.toml"), os.path.join(SIM, "Cargo.lock"), os.path.join(SIM, "rustc-wrap.sh")]
    for f in sorted(files):
        try:
            data = open(f, "rb").read()
        except OSError:
            continue
        h.update(f.encode() + b"\0" + hashlib.sha256(data).digest())
    return h.hexdigest()


def build():
    os.makedirs(TARGET, exist_ok=True)
    env = dict(os.environ, RUSTC_WRAPPER=os.path.join(SIM, "rustc-wrap.sh"), CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_INCREMENTAL"):
        env.pop(k, None)
    stamp = os.path.join(TARGET, "sources")
    want = sources()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    bins = [os.path.join(TARGET, TRIPLE, p[1], "dst") for p in PROFILES]
    if have == want and all(os.path.exists(b) for b in bins):
        return bins
    # contents decide, not times of change
    if os.path.exists(stamp):
        os.unlink(stamp)
    for _, prof, flags, _ in PROFILES:
        if os.path.isdir(os.path.join(TARGET, TRIPLE, prof)):
            subprocess.run(["cargo", "clean", "--offline", "--target", TRIPLE] + flags +
                           ["-p", "babs", "-p", "subject", "-p", "dst"], cwd=SIM, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    procs = [subprocess.Popen(["cargo", "build", "--offline", "--locked", "--target", TRIPLE] + flags, cwd=SIM, env=env,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for _, _, flags, _ in PROFILES]
    outs = [p.communicate()[0] for p in procs]
    for p, o in zip(procs, outs):
        if p.returncode != 0:
            print(o[-6000:])
            die("the simulator does not build")
    open(stamp, "w").write(want)
    return bins


def known(prop):
    """Recorded, unrepaired findings of a property: (description, key)."""
    out = []
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2].strip()
                out.append(rest)
    except OSError:
        pass
    return out


def run(prop, tier):
    t0 = time.time()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    except ValueError:
        seed = 1
    os.makedirs(EVID, exist_ok=True)
    lock = open(os.path.join(HERE, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    bins = build()
    built = time.time() - t0
    print("VERIF_SEED=%d property=%s tier=%s" % (seed, prop, tier), flush=True)
    for f in known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, f))
    runs = QUICK[prop] * (THOROUGH if tier == "thorough" else 1)
    results, violation = [], None
    for i, (name, prof, _, share) in enumerate(PROFILES):
        out = os.path.join(EVID, "%s.%s.json" % (prop, name))
        rep = os.path.join(EVID, "%s.%s.replay" % (prop, name))
        for f in (out, rep):
            if os.path.exists(f):
                os.unlink(f)
        r = subprocess.run([bins[i], "check", "--property", prop, "--runs", str(int(runs * share)), "--seed", str(3 * seed + i), "--secs", str(int(CAP[tier] * max(share, 0.3))),
                            "--out", out, "--replay", rep], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        sys.stdout.write(r.stdout)
        sys.stderr.write(r.stderr[-4000:])
        if r.returncode not in (0, 1) or not os.path.exists(out):
            die("simulation (%s build) ended with %d: %s" % (name, r.returncode, r.stderr[-500:]))
        d = json.load(open(out))
        d["build"] = name
        os.unlink(out)
        results.append(d)
        if r.returncode == 1:
            # in a fresh process, from the file alone
            again = subprocess.run([bins[i], "replay", rep], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            d["replayed"] = again.returncode == 1 and again.stdout.strip() == r.stdout.strip().splitlines()[-1].strip()
            violation = (rep, name)
            break
    write_evidence(prop, tier, seed, results, time.time() - t0, built, violation)
    if violation:
        print("replay with: %s --replay %s" % (os.path.join(HERE, "check.py"), violation[0]))
        print("VIOLATION property=%s replay=%s" % (prop, violation[0]), flush=True)
        return 1
    n = sum(d["runs"] for d in results)
    print("%s held in %d simulated runs (%d distinct), %.0f s" % (prop, n, sum(d["distinct_runs"] for d in results), time.time() - t0), flush=True)
    return 0


def write_evidence(prop, tier, seed, res, wall, built, violation):
    s = lambda k: sum(d.get(k, 0) for d in res)
    sim_wall = sum(d["wall_s"] for d in res) or 1e-9
    keys = res[0].keys()
    faults = {k[6:]: s(k) for k in keys if k.startswith("fault_")}
    probes = {k[6:]: s(k) for k in keys if k.startswith("probe_")}
    cov = {
        "evaluations": s("runs"),
        "distinct_nontrivial": s("distinct_runs"),
        "rule": "One evaluation is one simulated run: its seed makes a workload of library requests, operands, faults and a schedule, and a forked process executes them under the simulator. "
                "A run is non-trivial when at least one thread was preempted inside a request or at least one fault fired; two runs are distinct when the hashes of their event histories "
                "(requests, operand sizes, every scheduling decision with its instruction count, every fault with its place) differ. Only runs that are both are counted.",
        "samples": [x for d in res for x in d["samples"]][:4],
        "runs_per_hour": int(s("runs") / sim_wall * 3600),
        "seeds_per_hour": int(s("runs") / sim_wall * 3600),
        "seeds_note": "each run has its own seed, derived from VERIF_SEED, the build profile and the number of the run",
        "simulated_time": {"instructions": s("ticks"), "seconds": s("ticks") * 1e-9, "note": "one instrumented basic block or memory access of library code is one simulated nanosecond"},
        "requests": {k: s(k) for k in ("ops", "ops_answered", "ops_refused_as_due", "ops_failed_by_fault", "ops_skipped")},
        "fault_kinds_fired": faults,
        "schedule": {k: s(k) for k in ("threads", "switches", "preemptions", "preempt_at_alloc", "preempt_at_static", "preempt_at_foreign_store", "futex_blocks", "subject_threads")},
        "rare_conditions_reached": probes,
        "memory": {k: s(k) for k in ("alloc_calls", "alloc_bytes", "reused_blocks")},
        "bytes_written_to_destinations": s("bytes_written"),
        "closest_to_step_budget_percent": max(d["max_budget_ppm"] for d in res) / 1e4,
        "longest_request_steps": max(d["max_op_ticks"] for d in res),
        "control_flow_edges": {d["build"]: {"instrumented": d["edges"], "reached": d["edges_hit"]} for d in res},
        "state_measure": "distinct event histories (distinct_nontrivial) and control-flow edges of the library reached, over all instances of its generic code",
        "runs_failing_in_ways_other_properties_cover": s("runs_other_property"),
        "runs_cut_short_after_600_million_steps": s("runs_cut_short"),
        "failures_not_reproduced": s("irreproducible"),
        "components_real": REAL,
        "components_simulated": STUB,
        "per_build": [{"build": d["build"], "seed": d["seed"], "runs": d["runs"], "wall_s": d["wall_s"], "workers": d["workers"]} for d in res],
        "build_s": round(built, 1),
    }
    if violation:
        cov["violation"] = [d["violation"] for d in res if d["violation"]]
        cov["replayed_in_fresh_process"] = [d.get("replayed") for d in res if "replayed" in d]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 1),
          "assumptions": ["interleavings are sequentially consistent", "the three instrumented builds behave like the shipped one",
                          "sampled, not exhaustive: numbers up to about 60000 bits, up to five threads, histories up to about 300 requests"],
          "violations": 1 if violation else 0}
    tmp = os.path.join(EVID, prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))


def determinism(n):
    """The event logs of many runs, from several processes, must be equal."""
    bins = build()
    bad = 0
    for i, (name, _, _, _) in enumerate(PROFILES):
        for prop in sorted(QUICK):
            for seed in (1, 2, 3):
                ps = [subprocess.Popen([bins[i], "determinism", "--property", prop, "--seed", str(seed), "--runs", str(n)], stdout=subprocess.PIPE, text=True,
                                       env=dict(os.environ, PADDING="x" * (97 * k))) for k in range(4)]
                outs = [p.communicate()[0] for p in ps]
                if any(p.returncode for p in ps) or len(set(outs)) != 1:
                    print(name, prop, seed, "DIFFERS", outs)
                    bad = 1
        print(name, "event logs agree" if not bad else "event logs differ", flush=True)
    return bad


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        build()
        return 0
    if a and a[0] == "--replay":
        bins = build()
        which = next((i for i, p in enumerate(PROFILES) if ".%s." % p[0] in os.path.basename(a[1])), 0)
        return subprocess.run([bins[which], "replay", a[1], "--trace"]).returncode
    if a and a[0] == "--determinism":
        return determinism(int(a[1]) if len(a) > 1 else 100)
    if not a or a[0] not in QUICK:
        print(__doc__)
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return run(a[0], "thorough" if tier == "thorough" else "quick")


try:
    sys.exit(main())
except (OSError, ValueError, KeyError, subprocess.SubprocessError) as e:
    die("%s: %s" % (type(e).__name__, e))
