#!/usr/bin/env python3
"""Builds the simulator against /repo's working tree and runs one property's batch.

usage: check.py build | check.py PROPERTY | check.py replay FILE

Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Exit 2: the check itself failed.
VERIF_SEED (default 1) and VERIF_TIER (quick or thorough) are read from the environment.
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile, time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
TARGET = os.path.join(HERE, "target")
REPO = "/repo"
TRIPLE = "x86_64-unknown-linux-gnu"
WORKERS = 8

FLAVOUR = {"C08": "plain"}
FLAVOURS = {
    # every run-time check, hooks, yield points in the library, its containers, core and alloc
    "sim": dict(
        args=["--profile", "sim", "--features", "hooks", "-Zbuild-std=std,panic_unwind", "--target", TRIPLE],
        bin=os.path.join(TARGET, "sim", TRIPLE, "sim", "simdrive"), wrap=True),
    # what users ship, hooks off
    "plain": dict(args=["--profile", "plain"], bin=os.path.join(TARGET, "plain", "plain", "simdrive"), wrap=False),
}


def fail(msg):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(2)


def digest(*roots):
    h = hashlib.sha256()
    for root in roots:
        files = [root] if os.path.isfile(root) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as x:
                h.update(x.read())
            h.update(b"\0")
    return h.hexdigest()


def build(name):
    fl = FLAVOURS[name]
    tdir = os.path.join(TARGET, name)
    os.makedirs(tdir, exist_ok=True)
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(("CARGO_", "RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    env.update(RUSTUP_TOOLCHAIN="stable", RUSTC_BOOTSTRAP="1", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    if fl["wrap"]:
        env["RUSTC_WRAPPER"] = os.path.join(SIM, "wrap.sh")
    with open(os.path.join(tdir, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        # time stamps cannot be trusted in copies: go by content
        lib = digest(*[p for p in (os.path.join(REPO, x) for x in ("src", "Cargo.toml", "Cargo.lock", "build.rs"))
                       if os.path.exists(p)])
        tool = digest(os.path.join(SIM, "wrap.sh"), os.path.join(SIM, "Cargo.toml"), os.path.join(SIM, "Cargo.lock"))
        own = digest(os.path.join(SIM, "src"), os.path.join(HERE, "corpus"))
        stamp = os.path.join(tdir, ".stamp")
        old = {}
        try:
            with open(stamp) as f:
                old = json.load(f)
        except (OSError, ValueError):
            pass
        new = dict(lib=lib, tool=tool, own=own)
        if old == new and os.path.exists(fl["bin"]):
            return fl["bin"]
        if os.path.exists(stamp):
            os.remove(stamp)
        base = ["--offline", "--target-dir", tdir]
        if old.get("tool") != tool:
            for d in os.listdir(tdir):
                p = os.path.join(tdir, d)
                if os.path.isdir(p):
                    shutil.rmtree(p)
        else:
            for pkg in ["undname"] * (old.get("lib") != lib) + ["simdrive"]:
                a = [x for x in fl["args"] if x != "--features" and x != "hooks" and not x.startswith("-Z")]
                subprocess.run(["cargo", "clean", "-p", pkg] + base + a, cwd=SIM, env=env,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build"] + base + fl["args"], cwd=SIM, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            fail("build failed\n" + r.stdout[-6000:])
        with open(stamp, "w") as f:
            json.dump(new, f)
    return fl["bin"]


def run_batch(binary, prop, tier, seed, seconds, runs=0, workers=WORKERS, logdir=None):
    rep = os.path.join(HERE, "replays")
    os.makedirs(rep, exist_ok=True)
    procs = []
    found = tempfile.mkdtemp(prefix="found-")
    for w in range(workers):
        cmd = [binary, "worker", prop, tier, str(seed), str(w), str(workers), str(runs), str(seconds), rep,
               os.path.join(logdir, f"{prop}.{w}") if logdir else "-", found]
        procs.append(subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                      text=True, env={"PATH": os.environ.get("PATH", "")}))
    outs = []
    for w, p in enumerate(procs):
        out, err = p.communicate()
        try:
            outs.append(json.loads(out))
        except ValueError:
            outs.append({"error": f"worker {w} ended with status {p.returncode}: {out[-300:]} {err[-1500:]}"})
    shutil.rmtree(found, ignore_errors=True)
    return outs


RULES = {
    "C01": "a run = 2-5 caller threads over 1-6 symbols under one drawn schedule; non-trivial: at least one preemption; distinct by switch trace, steps and outcomes of every call",
    "C02": "a run = a history of 3-2000 (some 200,000) calls; non-trivial: more than one call; distinct by steps and outcomes of every call",
    "C03": "a run = 3-25 calls into 1-3 reused strings, half with output refused part-way; non-trivial: some string held room before; distinct by steps, outcomes, capacities",
    "C04": "a run = one symbol with every (or 120 drawn) refusal points; non-trivial: a refusal fired, or a text around 1 MiB; distinct by steps, outcomes",
    "C05": "a run = one symbol under a plan of failing allocations; non-trivial: at least one allocation failed; distinct by steps, outcomes",
    "C06": "a run = 4-30 calls on the checking allocator; non-trivial: it handed out memory; distinct by steps, outcomes, peak",
    "C07": "a run = an expanding symbol, a text aimed at 1 MiB, or too many types, half beside ordinary calls; distinct by steps, outcomes, peak",
    "C08": "a run = a symbol nested 1-200,000 deep on a 1 MiB stack; distinct by symbol and outcome",
    "C09": "a run = 10-60 successive storage faults on a stored symbol, read after each; non-trivial: a fault was applied; distinct by steps, outcomes",
    "C10": "a run = a corpus symbol and its reads cut short at every byte; non-trivial: at least one cut; distinct by steps, outcomes",
    "C11": "a run = threads of which some stall for ever mid-call, a hostile symbol, or 30 malformed ones; non-trivial: the stall happened or work was bounded; distinct by trace, steps, outcomes",
    "C12": "a run = calls under a drawn ambient state (clock, random source, environment, addresses, memory content, stack position, threads); distinct by trace, steps, outcomes",
    "C13": "a run = calls interrupted by nested calls and forks at drawn instants; non-trivial: one fired; distinct by trace, steps, outcomes",
    "C14": "a run = calls of every fate (valid, hostile, damaged, deep, refused, short of memory) with every way out of the process watched and its answers drawn; distinct by trace, steps, outcomes",
}
REAL = ["undname (/repo, all of it)", "core, alloc and std of the toolchain", "bumpalo, arrayvec, smallvec, nonmax, bitflags",
        "operating-system threads, fork, page protection"]
STUB = {
    "sim": ["which thread runs (one at a time, switched only at simulated steps)", "heap (checking arena allocator)",
            "futex wait and wake", "clocks, random source, environment", "caller's symbol buffer (guard page behind it)",
            "refused output and refused elements (hooks)"],
    "plain": ["heap (checking arena allocator)", "stack of the calling thread (1 MiB)"],
}


def check(prop):
    if prop not in RULES:
        fail("unknown property " + prop)
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        fail("VERIF_TIER is " + tier)
    try:
        seed = int(os.environ.get("VERIF_SEED") or 1) % (1 << 64)
    except ValueError:
        fail("VERIF_SEED is not a number")
    print(f"property={prop} tier={tier} seed={seed}", flush=True)
    start = time.time()
    flavour = FLAVOUR.get(prop, "sim")
    binary = build(flavour)
    shipped = build("plain") if flavour != "plain" else None
    built = time.time()
    outs = run_batch(binary, prop, tier, seed, 300 if tier == "quick" else 5400)
    runs_as_shipped = 0
    if shipped and not any(o.get("error") or o.get("violation") for o in outs):
        # other runs of the same kind against the optimised code without run-time checks or hooks
        n = sum(o["runs"] for o in outs) // 6 + 1
        more = run_batch(shipped, prop, tier, (seed + (1 << 40)) % (1 << 64), 100 if tier == "quick" else 1200, n)
        runs_as_shipped = sum(o.get("runs", 0) for o in more)
        for o in more:
            o["cov"] = []
        outs += more
    wall = time.time() - start
    search = time.time() - built
    errors = [o["error"] for o in outs if o.get("error")]
    good = [o for o in outs if "runs" in o]
    found = sorted((o["violation"] for o in good if o["violation"]), key=lambda v: v["index"])
    total = Counter()
    faults, kinds = Counter(), Counter()
    distinct, traces, samples = set(), set(), []
    cov = []
    for o in good:
        for k in ("runs", "children", "calls", "ok", "err", "unwound", "steps", "switches"):
            total[k] += o[k]
        faults.update(o["faults"])
        kinds.update(o["kinds"])
        distinct.update(o["distinct"])
        traces.update(o["traces"])
        samples += o["samples"]
        c = [int(x, 16) for x in o["cov"]]
        if c:
            cov = [a | b for a, b in zip(cov, c)] if cov else c
    known = 0
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total["runs"],
            "distinct_nontrivial": len(distinct),
            "rule": RULES[prop],
            "samples": samples[:4],
            "evaluations_on_code_as_shipped": total["runs"] if flavour == "plain" else runs_as_shipped,
            "simulated_processes": total["children"],
            "calls": total["calls"],
            "calls_by_outcome": {"text": total["ok"], "error": total["err"], "unwound": total["unwound"],
                                 "not finished (stalled or cut)": total["calls"] - total["ok"] - total["err"] - total["unwound"]},
            "run_kinds": dict(sorted(kinds.items())),
            "faults_fired": dict(sorted(faults.items())),
            "runs_per_hour": int(total["runs"] / max(search, 0.001) * 3600),
            "seeds_per_hour": int(total["runs"] / max(search, 0.001) * 3600),
            "seeds_note": "each run has its own seed, derived from VERIF_SEED, the property and the run's number",
            "simulated_steps": total["steps"],
            "simulated_time_note": "the library has no timers; logical time is counted in steps (basic blocks, loads and stores of the code under test)",
            "longest_call_steps": max([o["max_steps"] for o in good], default=0),
            "peak_heap_bytes": max([o["peak"] for o in good], default=0),
            **({"most_work": dict(zip(("per_mille_of_bound", "symbol"), max(o["work"] for o in good)))}
               if prop == "C11" and good else {}),
            "distinct_interleavings": len(traces),
            "interleavings_measure": "distinct hashes of the sequence of (thread, step) switches that took place",
            "library_edges_reached": sum(bin(x).count("1") for x in cov),
            "library_edges": max([o["guards"] for o in good], default=0),
            "real_components": REAL,
            "simulated_components": STUB[flavour],
            "known_findings_seen": known,
        },
        "assumptions": [
            "sampled, not enumerated: a clean batch is evidence, not proof",
            "scheduling at basic blocks, loads and stores under sequential consistency (x86-64 code generation)",
        ],
        "wall_s": round(wall, 3),
        "violations": len(found),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    c = evidence["coverage"]
    print(f"{c['evaluations']} runs ({c['distinct_nontrivial']} distinct and non-trivial), {c['calls']} calls, "
          f"{c['simulated_steps']} steps, {search:.1f} s")
    print("faults fired: " + (", ".join(f"{k} {v}" for k, v in c["faults_fired"].items()) or "none"))
    if found:
        v = found[0]
        print(f"{v['class']}: {v['detail']}")
        print(f"VIOLATION property={prop} replay={v['replay']}")
        sys.exit(1)
    if errors:
        fail("; ".join(errors))
    if total["runs"] == 0:
        fail("nothing was run")


def replay(path):
    try:
        with open(path) as f:
            flavour = json.load(f)["build"]
    except (OSError, ValueError, KeyError) as e:
        fail(f"{path}: {e}")
    if flavour not in FLAVOURS:
        fail(f"{path}: unknown build {flavour}")
    sys.exit(subprocess.run([build(flavour), "replay", path]).returncode)


if __name__ == "__main__":
    if len(sys.argv) == 2 and sys.argv[1] == "build":
        for name in FLAVOURS:
            build(name)
    elif len(sys.argv) == 3 and sys.argv[1] == "replay":
        replay(sys.argv[2])
    elif len(sys.argv) == 2:
        check(sys.argv[1])
    else:
        fail(__doc__)
