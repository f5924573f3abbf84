"""C10: splitting, reordering or redelivering timestamps never changes values."""

import heapq

import numpy as np

from .. import core, streams
from ..core import FAULTS, Violation, fault

PROP = "C10"
N = {"quick": 560, "thorough": 16000}
RULE = (
    "a seeded series (orbit coordinates, velocities, in-transit indices, "
    "light curves, interpolated tables) is cut into seeded batches which a "
    "simulated master hands to simulated workers over a network that delays, "
    "reorders, duplicates and loses messages; workers crash, restart from "
    "saved bytes (sometimes with the whole process image), stall, and fail "
    "half-way; lost work is resent after a timeout. The values assembled per "
    "timestamp are compared with one evaluation of the whole series by the "
    "building process, and every redelivery with the earlier answer. "
    "Non-trivial: more than one batch was answered."
)
REAL = [
    "exoplanet.orbits (Keplerian, TTV, simple), exoplanet.light_curves "
    "(including the interpolated one), exoplanet.interp",
    "exoplanet_core ops, PyTensor graphs compiled in Python mode",
    "cloudpickle save/restore",
]
STUB = [
    "master, network and virtual clock: an event queue of the simulator",
    "process crash: package modules discarded and re-imported in process",
    "C linker (PyTensor runs its Python implementations)",
]
ASSUME = ["a worker handles one batch at a time"]
SHRINK = ("batches", "faults", "crashes")


def gen(rng, i, tier):
    n = rng.randint(3, 40 if tier == "quick" else 80)
    st = streams.gen(rng, n)
    idx = list(range(n))
    how = rng.choice(["runs", "shuffled", "shuffled", "strided", "singles"])
    if how == "shuffled":
        rng.shuffle(idx)
    elif how == "strided":
        k = rng.randint(2, 5)
        idx = [j for s in range(k) for j in range(s, n, k)]
    batches = []
    while idx:
        k = 1 if how == "singles" else rng.choice(
            [1, st["cfg"].get("npl", 2), rng.randint(1, max(1, n // 2)), n]
        )
        batches.append(idx[:k])
        idx = idx[k:]
    if rng.random() < 0.3:
        # overlapping resubmissions
        batches.append(sorted(rng.sample(range(n), rng.randint(1, n))))
    nb = len(batches)
    return dict(
        st=st,
        batches=batches,
        nw=rng.randint(1, 4),
        net=rng.randrange(1 << 30),
        loss=rng.choice([0, 0.1, 0.3]),
        dup=rng.choice([0, 0.2, 0.4]),
        fresh=rng.choice([0, 0.0, 0.3]),
        crashes=sorted(
            [round(rng.uniform(0, 4 + nb), 3), rng.randrange(4), rng.random() < 0.4]
            for _ in range(rng.choice([0, 1, 2, 3]))
        ),
        faults=[
            [rng.randrange(nb), rng.randint(1, 60), rng.choice(sorted(FAULTS))]
            for _ in range(rng.choice([0, 0, 1, 2]))
        ],
    )


def tol(st, whole):
    """Same numbers through the same operations: rounding only."""
    if streams.is_index(st):
        return 0.0
    if st["kind"] in ("lc", "ilc"):
        return 1e-12  # of a flux of one
    ok = np.where(np.isfinite(whole), np.abs(whole), 0.0)
    return 1e-11 * np.max(ok, axis=0, initial=1e-12)


def same(a, b, atol):
    with np.errstate(all="ignore"):
        return (
            (np.abs(a - b) <= atol + 1e-11 * np.abs(b))
            | (a == b)
            | (np.isnan(a) & np.isnan(b))
        )


def run(scn, ctx):
    w = ctx.w
    st = scn["st"]
    ctx.cov("stream." + st["kind"])
    ctx.cov("query." + st["q"]["q"])
    ax = streams.axis(st["kind"])
    x = st["init"][ax]
    n = len(x)
    vt = streams.vector_texp(st)
    texp = st["init"].get("texp") if vt else None
    boss = streams.Evaluator(w, st)
    blob = boss.save()
    whole = boss.rows(x, texp)
    index = streams.is_index(st)
    if index:
        flags = np.zeros(n)
        flags[[int(k) for k in whole]] = 1.0
        whole = flags[:, None]
    elif whole.shape[0] != n:
        raise Violation("wrong-shape", f"{whole.shape} for {n} timestamps")
    if index and st["kind"] in ("kepler", "ttv"):
        ctx.cov("index-query")
    atol = tol(st, whole)
    ctx.logval("whole", whole)

    rng = core.rng_for("net", scn["net"])
    workers = [None] * scn["nw"]
    busy = [False] * scn["nw"]
    faults = {}
    for b, nth, exc in scn["faults"]:
        faults.setdefault(b, []).append((nth, exc))
    got = [None] * n
    done = {}
    sent = {}
    q = []
    seq = 0
    trace = []

    def post(t, *ev):
        nonlocal seq
        heapq.heappush(q, (round(t, 6), seq, ev))
        seq += 1

    def send(now, b):
        sent[b] = sent.get(b, 0) + 1
        copies = 1
        # after many losses the network delivers: faults stop
        if rng.random() < scn["loss"] and sent[b] < 6:
            copies = 0
            ctx.fault("request-lost")
        elif rng.random() < scn["dup"]:
            copies = 2
            ctx.fault("request-duplicated")
        for _ in range(copies):
            post(now + rng.expovariate(1.0), "job", rng.randrange(scn["nw"]), b)
        post(now + 8 + rng.random(), "timeout", b)

    for b in range(len(scn["batches"])):
        send(0.0, b)
    for t, wid, hard in scn["crashes"]:
        post(t, "crash", wid % scn["nw"], hard)
    # some workers first see another series of the same length or no series
    now = 0.0
    steps = 0
    while q:
        now, _, ev = heapq.heappop(q)
        steps += 1
        if steps > 4000:
            raise Violation("no-progress", "batches never completed")
        if ev[0] == "crash":
            _, wid, hard = ev
            ctx.fault("worker-crash")
            workers[wid] = None
            if hard:
                ctx.fault("process-crash")
                w.restart()
                workers = [None] * scn["nw"]
            trace.append("c%d" % wid)
            continue
        if ev[0] == "timeout":
            if ev[1] not in done:
                ctx.fault("timeout-resend")
                send(now, ev[1])
            continue
        if ev[0] == "job":
            _, wid, b = ev
            if workers[wid] is None:
                e = streams.Evaluator.__new__(streams.Evaluator)
                e.w, e.st = w, st
                e.m = streams.KINDS[st["kind"]]
                e.cfg = dict(st["cfg"])
                e.restore(blob)
                workers[wid] = e
            e = workers[wid]
            if rng.random() < scn["fresh"]:
                e.fn = None
            rowsx = [x[k] for k in scn["batches"][b]]
            rowst = [texp[k] for k in scn["batches"][b]] if vt else None
            fl = faults.get(b)
            if fl:
                nth, exc = fl.pop()
                with fault(nth, exc) as plan:
                    try:
                        e.graph()
                    except FAULTS[exc]:
                        pass
                if plan.fired:
                    ctx.fault("failing-call:" + exc)
                    # the worker reports failure; the job is resent
                    post(now + 1.0, "timeout", b)
                    continue
            out = e.rows(rowsx, rowst)
            trace.append("%d@%d" % (b, wid))
            copies = 1
            if rng.random() < scn["loss"] and sent[b] < 6:
                copies = 0
                ctx.fault("result-lost")
            elif rng.random() < scn["dup"]:
                copies = 2
                ctx.fault("result-duplicated")
            for _ in range(copies):
                post(now + rng.expovariate(1.0), "result", b, out)
            continue
        _, b, out = ev
        members = scn["batches"][b]
        if index:
            flags = np.zeros(len(members))
            for k in out:
                if not 0 <= k < len(members):
                    raise Violation("wrong-value", f"index {k} of {len(members)}")
                flags[int(k)] = 1.0
            out = flags[:, None]
        if out.shape != (len(members),) + whole.shape[1:]:
            raise Violation(
                "wrong-shape",
                f"batch of {len(members)}: {out.shape}, whole {whole.shape}",
            )
        ctx.checks += 1
        for j, k in enumerate(members):
            ok = same(out[j], whole[k], atol)
            if not ok.all():
                c = int(np.argmin(ok))
                raise Violation(
                    "batch-differs",
                    f"{st['kind']} {st['q']}: entry {k} ({x[k]}) column {c}: "
                    f"{out[j][c]!r} in batch {members}, {whole[k][c]!r} in the "
                    f"whole series of {n}",
                )
            got[k] = out[j]
        if b in done:
            ctx.count("redelivered-result")
        done[b] = True
    ctx.ticks += steps
    ctx.sim_days += now / 86400.0
    # liveness: once faults stop every batch is answered
    if len(done) != len(scn["batches"]) or any(g is None for g in got):
        if len({k for b in scn["batches"] for k in b}) == n:
            raise Violation("no-progress", "some timestamps never got a value")
    ctx.state(st["kind"], st["q"]["q"], len(scn["batches"]), tuple(trace[:12]))
    ctx.log("trace", trace)
    ctx.nontrivial = len(done) > 1
    # the building process is not affected by what workers did
    again = boss.rows(x, texp)
    if index:
        flags = np.zeros(n)
        flags[[int(k) for k in again]] = 1.0
        again = flags[:, None]
    if not same(again, whole, atol).all():
        raise Violation("batch-differs", "the whole series changed afterwards")
