import argparse
import json
import os
import subprocess
import sys
import tempfile
import time

SCN_TIMEOUT = int(os.environ.get("SIM_SCN_TIMEOUT", "150"))
MINIMISE_LIMIT = 150
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def spawn_worker(prop, tier, seed, wid, nw, n, deadline, errf, env=None):
    e = dict(os.environ)
    e.update(env or {})
    e["SIM_WORKER"] = str(wid)
    e["PYTENSOR_FLAGS"] = e.get("PYTENSOR_FLAGS", "").replace(
        "/pt", "/pt%s" % wid
    )
    return subprocess.Popen(
        [
            sys.executable,
            "-m",
            "sim.cli",
            "worker",
            prop,
            "--tier",
            tier,
            "--seed",
            str(seed),
            "--wid",
            str(wid),
            "--nw",
            str(nw),
            "--n",
            str(n),
            "--deadline",
            str(deadline),
        ],
        stdout=subprocess.PIPE,
        stderr=errf,
        text=True,
        env=e,
        cwd=HERE,
    )


def run_workers(prop, tier, seed, n, nw, deadline, env=None):
    """Returns (records, violation, errors, skipped)."""
    import threading

    scratch = os.environ.get("SIM_SCRATCH", "/tmp")
    procs = []
    errs = []
    claim = tempfile.mkdtemp(prefix="claim.", dir=scratch)
    env = dict(env or {}, SIM_CLAIM=claim)
    for w in range(nw):
        ef = open(os.path.join(scratch, f"err.{prop}.{w}"), "w+")
        errs.append(ef)
        procs.append(
            spawn_worker(prop, tier, seed, w, nw, n, deadline, ef, env)
        )
    recs, viol, errors, skipped = [], [], [], []
    lock = threading.Lock()
    current = {}  # worker -> (scenario, time it started)
    pending = {}  # worker -> violation that is still being minimised
    hung = []

    def read(w, p):
        for line in p.stdout:
            try:
                d = json.loads(line)
            except ValueError:
                continue
            with lock:
                if "start" in d:
                    current[w] = (d["start"], time.monotonic())
                elif "error" in d:
                    errors.append(d["error"])
                elif "timeout" in d:
                    hung.append(d["timeout"])
                elif "skipped" in d:
                    skipped.append(d["skipped"])
                elif d.get("pending"):
                    pending[w] = (d, time.monotonic())
                else:
                    recs.append(d)
                    if "violation" in d:
                        pending.pop(w, None)
                        viol.append(d)
        current.pop(w, None)

    ths = [
        threading.Thread(target=read, args=(w, p))
        for w, p in enumerate(procs)
    ]
    for t in ths:
        t.start()
    killed = set()

    def kill(w):
        killed.add(w)
        if procs[w].poll() is None:
            procs[w].kill()

    while any(t.is_alive() for t in ths):
        for t in ths:
            t.join(timeout=0.2)
        now = time.monotonic()
        with lock:
            for w, (i, t1) in list(current.items()):
                if w in pending:
                    if now - pending[w][1] > MINIMISE_LIMIT:
                        viol.append(pending.pop(w)[0])
                        kill(w)
                elif now - t1 > SCN_TIMEOUT + 30:
                    # stuck outside the interpreter
                    hung.append(i)
                    current.pop(w)
                    kill(w)
        if viol or hung:
            time.sleep(0.5)
            with lock:
                if not viol and pending:
                    continue
            for w in range(nw):
                kill(w)
    if pending and not viol:
        viol.extend(d for d, _ in pending.values())
    for i in hung:
        if not viol:
            viol.append(
                dict(
                    i=i,
                    violation=dict(
                        kind="no-progress",
                        msg=f"scenario {i} did not finish in "
                        f"{SCN_TIMEOUT} s (normally a fraction of a second)",
                        scn=None,
                        orig=None,
                    ),
                )
            )
    for w, p in enumerate(procs):
        rc = p.wait()
        if w in killed:
            continue
        if rc not in (0, 1, 2) and not viol:
            errs[w].seek(0)
            errors.append(f"worker {w} ended with {rc}: {errs[w].read()[-2000:]}")
        if rc == 1 and not viol:
            errs[w].seek(0)
            errors.append(f"worker {w} failed: {errs[w].read()[-3000:]}")
    for ef in errs:
        ef.close()
    return recs, viol, errors, skipped


def confirm(path):
    """Replay in a fresh process; returns the violation kind or None."""
    with open(path) as f:
        if json.load(f)["kind"] == "differs-between-processes":
            return twins(path)
    t0 = time.monotonic()
    try:
        r = subprocess.run(
            [sys.executable, "-m", "sim.cli", "replay", path],
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
            text=True,
            cwd=HERE,
            timeout=SCN_TIMEOUT + 60,
        )
    except subprocess.TimeoutExpired:
        return "no-progress"
    for line in r.stdout.splitlines():
        if line.startswith("REPLAYED "):
            return line.split()[1]
    if r.returncode == 1 and time.monotonic() - t0 > SCN_TIMEOUT:
        return "no-progress"
    return None


TWIN_HASH = ("0", "7")  # string hash seeds of the process and of its twin


def twins(path):
    """Run a scenario in two processes that hash strings differently; returns
    the violation kind if their numeric results are not the same."""
    got = []
    for hs in TWIN_HASH:
        r = subprocess.run(
            [sys.executable, "-m", "sim.cli", "answers", path],
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
            text=True,
            cwd=HERE,
            env=dict(os.environ, PYTHONHASHSEED=hs),
            timeout=SCN_TIMEOUT + 60,
        )
        got += [x for x in r.stdout.splitlines() if x.startswith("ANSWERS ")]
    if len(got) == 2 and got[0] != got[1]:
        return "differs-between-processes"
    return None


def generate(mod, prop, seed, i, tier):
    from . import core

    scn = mod.gen(core.rng_for(seed, prop, i), i, tier)
    scn.update(prop=prop, seed=seed, index=i)
    return json.loads(json.dumps(scn))


def check(prop, args):
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    if args.tier:
        tier = args.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from .engine import prop_module

    mod = prop_module(prop)
    n = args.n or mod.N[tier]
    nw = args.jobs
    deadline = 420.0 if tier == "quick" else 4 * 3600.0
    recs, viol, errors, skipped = run_workers(
        prop, tier, seed, n, nw, deadline
    )
    ntwin = 0
    if not (viol or errors) and getattr(mod, "TWIN", 0):
        # the first scenarios again, in processes with another string hash
        m = max(1, int(n * mod.TWIN))
        left = max(30.0, deadline - (time.monotonic() - t0))
        again, viol, errors, _ = run_workers(
            prop, tier, seed, m, nw, left, dict(PYTHONHASHSEED=TWIN_HASH[1])
        )
        first = {r["i"]: r["a"] for r in recs}
        again = [r for r in again if r["i"] in first]
        ntwin = len(again)
        for r in sorted(again, key=lambda r: r["i"]):
            if r["a"] != first[r["i"]] and not viol:
                scn = generate(mod, prop, seed, r["i"], tier)
                viol = [
                    dict(
                        i=r["i"],
                        violation=dict(
                            kind="differs-between-processes",
                            msg=f"scenario {r['i']} gives other results in a "
                            "process that hashes strings differently",
                            scn=scn,
                            orig=scn,
                        ),
                    )
                ]
    wall = time.monotonic() - t0

    status = 0
    nviol = 0
    if viol:
        viol.sort(key=lambda d: d["i"])
        d = viol[0]
        v = d["violation"]
        if v["orig"] is None:
            v["scn"] = v["orig"] = generate(mod, prop, seed, d["i"], tier)
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(
            HERE, "replays", f"{prop}-{seed}-{d['i']}.json"
        )
        kind = None
        for scn in (v["scn"], v["orig"]):
            with open(path, "w") as f:
                json.dump(
                    dict(
                        property=prop,
                        tier=tier,
                        kind=v["kind"],
                        message=v["msg"],
                        scenario=scn,
                    ),
                    f,
                    indent=1,
                )
            kind = confirm(path)
            if kind is not None:
                break
        if kind is None:
            print(
                f"ERROR: {prop}: violation {v['kind']} of scenario {d['i']} "
                f"was not reproduced in a fresh process: {v['msg']}"
            )
            status = 2
        else:
            nviol = 1
            status = 1
            print(f"{prop}: {v['kind']}: {v['msg']}")
            print(f"VIOLATION property={prop} replay={path}")
    from .core import open_findings

    for kind in sorted({k for r in recs for k in r.get("findings", [])}):
        what = open_findings().get((prop, kind), kind)
        print(f"KNOWN-FINDING: {what}")
    if status == 0 and errors:
        status = 2
    for e in errors[:3]:
        if status == 2:
            print("ERROR:", e)
    evidence(
        mod, prop, tier, seed, n, recs, skipped, nviol, wall, nw, ntwin
    )
    tot = sum(r["checks"] for r in recs)
    print(
        f"{prop} [{tier}] seed={seed}: {len(recs)} runs, {tot} checks, "
        f"{len(skipped)} skipped, {wall:.1f}s, exit {status}"
    )
    return status


def merge(recs, key):
    out = {}
    for r in recs:
        for k, v in r[key].items():
            out[k] = out.get(k, 0) + v
    return dict(sorted(out.items()))


def evidence(
    mod, prop, tier, seed, n, recs, skipped, nviol, wall, nw, ntwin
):
    states = set()
    for r in recs:
        states.update(r["states"])
    hashes = {r["h"] for r in recs}
    nontriv = {r["h"] for r in recs if r["nt"]}
    from . import core

    samples = []
    for r in sorted(recs, key=lambda r: r["i"])[:2]:
        s = mod.gen(core.rng_for(seed, prop, r["i"]), r["i"], tier)
        samples.append(
            dict(index=r["i"], log_hash=r["h"], scenario=s)
        )
    ops = merge(recs, "stats")
    cov = dict(
        evaluations=len(recs),
        distinct_nontrivial=len(nontriv),
        rule=mod.RULE,
        samples=samples,
        simulated_runs=len(recs),
        runs_skipped_for_time=len(skipped),
        runs_per_hour=round(3600 * len(recs) / max(wall, 1e-9)),
        seeds_per_hour=round(3600 * len(recs) / max(wall, 1e-9)),
        workers=nw,
        oracle_comparisons=sum(r["checks"] for r in recs),
        events_logged=sum(r["ev"] for r in recs),
        distinct_event_logs=len(hashes),
        distinct_states=len(states),
        states_measure=getattr(
            mod,
            "STATES",
            "hash of (configuration, operation kind, previous operation kind)",
        ),
        simulated_time=dict(
            model_days=round(sum(r["days"] for r in recs), 3),
            scheduler_steps=sum(r["ticks"] for r in recs),
        ),
        faults_injected=merge(recs, "faults"),
        runs_repeated_in_a_process_with_another_string_hash=ntwin,
        process_crash_restarts=sum(r["restarts"] for r in recs),
        operations=ops,
        configurations=merge(recs, "cover"),
        real_components=mod.REAL,
        stubbed_components=mod.STUB,
    )
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level=getattr(mod, "LEVEL", "exploration"),
        coverage=cov,
        assumptions=getattr(mod, "ASSUME", []),
        wall_s=round(wall, 2),
        violations=nviol,
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", f"{prop}.json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def selftest(args):
    """Same seeds, different worker counts and hash seeds: same event logs."""
    import glob

    props = args.props or sorted(
        os.path.basename(p)[:-3].upper()
        for p in glob.glob(os.path.join(HERE, "sim", "props", "c*.py"))
    )
    bad = 0
    for prop in props:
        n = args.n or 16
        logs = []
        for nw, hs in ((8, "0"), (3, "7")):
            recs, viol, errors, _ = run_workers(
                prop, "quick", 5, n, nw, 600, {"PYTHONHASHSEED": hs}
            )
            if errors or viol:
                print(prop, "errors", errors[:1], [v["violation"]["msg"] for v in viol])
                bad = 1
            logs.append({r["i"]: (r["h"], r["ev"]) for r in recs})
        diff = [i for i in logs[0] if logs[0][i] != logs[1].get(i)]
        print(f"{prop}: {n} runs, {len(diff)} differ {diff[:8]}")
        bad |= bool(diff)
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("prop")
    c.add_argument("--replay")
    c.add_argument("--tier")
    c.add_argument("--n", type=int)
    c.add_argument("--jobs", type=int, default=8)
    for cmd in ("replay", "answers"):
        sub.add_parser(cmd).add_argument("path")
    w = sub.add_parser("worker")
    w.add_argument("prop")
    for a in ("seed", "wid", "nw", "n"):
        w.add_argument("--" + a, type=int)
    w.add_argument("--tier")
    w.add_argument("--deadline", type=float)
    s = sub.add_parser("selftest")
    s.add_argument("props", nargs="*")
    s.add_argument("--n", type=int)
    o = sub.add_parser("one")
    o.add_argument("prop")
    o.add_argument("index", type=int)
    o.add_argument("--tier", default="quick")
    a = ap.parse_args()
    if a.cmd == "worker":
        from .engine import worker

        sys.exit(
            worker(a.prop, a.tier, a.seed, a.wid, a.nw, a.n, a.deadline)
        )
    if a.cmd == "selftest":
        sys.exit(selftest(a))
    if a.cmd == "one":
        from . import core
        from .engine import execute, prepare, prop_module

        world = prepare()
        mod = prop_module(a.prop)
        seed = int(os.environ.get("VERIF_SEED", "1"))
        scn = mod.gen(core.rng_for(seed, a.prop, a.index), a.index, a.tier)
        scn.update(prop=a.prop, seed=seed, index=a.index)
        scn = json.loads(json.dumps(scn))
        print(json.dumps(scn, indent=1)[:6000])
        t0 = time.monotonic()
        ctx, v = execute(world, mod, scn, a.tier)
        print(ctx.stats, ctx.faults, ctx.cover, "checks", ctx.checks)
        print("hash", ctx.h.hexdigest()[:16], "t", time.monotonic() - t0)
        print("VIOL", v)
        sys.exit(0)
    if a.cmd == "answers":
        from .engine import replay

        _, ctx, v = replay(a.path)
        print("ANSWERS", ctx.answers.hexdigest()[:16])
        sys.exit(0)
    if a.cmd == "replay" or a.replay:
        import faulthandler

        from .engine import Timeout, replay

        path = a.path if a.cmd == "replay" else a.replay
        with open(path) as f:
            rep = json.load(f)
        prop = rep["property"]
        if rep.get("kind") == "differs-between-processes":
            kind = twins(path)
            if kind is None:
                print("replay: the property held")
                sys.exit(0)
            print(f"REPLAYED {kind} {rep['message'][:300]}")
            print(f"VIOLATION property={prop} replay={path}")
            sys.exit(1)
        # a hang outside the interpreter ends the process with status 1
        faulthandler.dump_traceback_later(SCN_TIMEOUT + 30, exit=True)
        try:
            rep, ctx, v = replay(path)
        except Timeout:
            print("REPLAYED no-progress")
            print(f"VIOLATION property={prop} replay={path}")
            sys.exit(1)
        faulthandler.cancel_dump_traceback_later()
        if v is None:
            print("replay: the property held")
            sys.exit(0)
        print(f"REPLAYED {v.kind} {str(v.msg)[:300]}")
        path = a.path if a.cmd == "replay" else a.replay
        print(f"VIOLATION property={rep['property']} replay={path}")
        sys.exit(1)
    sys.exit(check(a.prop, a))


if __name__ == "__main__":
    main()
