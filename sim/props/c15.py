"""C15: seeded draws are reproducible whatever else the process has done."""

import random

import cloudpickle
import numpy as np

from .. import core, priors
from ..core import FAULTS, Violation, fault
from ..session import lib
from ..threads import gen_sched, run_threads

PROP = "C15"
N = {"quick": 140, "thorough": 5000}
TWIN = 0.4  # share repeated in processes with another string hash
RULE = (
    "a seeded model of the library's priors is drawn from with a given random "
    "seed; then a seeded history scrambles the process-wide generators, "
    "builds, draws from and breaks other models, fails the construction of "
    "this one at the n-th call, pickles, crashes and restarts the process, "
    "or lets other simulated threads build and draw at the same time, and "
    "the same draws are repeated each time. All draws must be identical and "
    "inside the documented support, and so must the starting point. "
    "Non-trivial: at least one repetition."
)
REAL = [
    "exoplanet.distributions inside PyMC models",
    "pm.draw, pm.sample_prior_predictive, Model.initial_point",
    "threads (real threads under the simulator's scheduler)",
]
STUB = [
    "process crash: the package image is dropped and reloaded, only pickled "
    "bytes survive",
    "C linker (PyTensor runs its Python implementations)",
]
ASSUME = [
    "threads are preempted in the package's own code, not inside PyMC",
]
STATES = "hash of (priors and options, operation, previous operation); schedules"
SHRINK = ("ops", "preempts", "spec")

OPS = ["scramble", "other", "fault", "redraw", "rebuild", "unpickle", "crash", "threads"]


def gen_spec(rng):
    spec = []
    for k in range(rng.choice([1, 2, 2, 3])):
        e = priors.gen_one(rng, rng.choice(priors.GEOMETRIC + priors.ECC), f"q{k}_")
        if e.get("observed"):
            e.update(observed=None, init=None)
        spec.append(e)
    return spec


def gen(rng, i, tier):
    ops = []
    for _ in range(rng.randint(3, 7)):
        op = dict(op=rng.choice(OPS), s=rng.randrange(1 << 30))
        if op["op"] == "threads" and any(o["op"] == "threads" for o in ops):
            op["op"] = "rebuild"  # one schedule per scenario
        if op["op"] == "other":
            op["spec"] = gen_spec(rng)[:2]
            op["draw"] = rng.random() < 0.6
        if op["op"] == "fault":
            op["nth"] = rng.choice([rng.randint(1, 12), rng.randint(1, 80)])
            op["exc"] = rng.choice(sorted(FAULTS))
        if op["op"] == "threads":
            op["n"] = rng.choice([2, 2, 3])
            op["spec"] = gen_spec(rng)[:2]
        if op["op"] == "crash":
            op["pickled"] = rng.random() < 0.5
        ops.append(op)
    sched = gen_sched(rng)
    return dict(
        spec=gen_spec(rng),
        how=rng.choice(["draw", "draw", "predictive"]),
        seed2=rng.randrange(1 << 30),
        n=rng.randint(3, 40),
        ops=ops,
        sched=sched,
    )


def scramble(s):
    np.random.seed(s % (1 << 32))
    np.random.rand(s % 7)
    random.seed(s)


def draw(m, outs, scn):
    import pymc as pm

    names = [k for k, _ in outs]
    if scn["how"] == "draw":
        v = lib(
            "pm.draw", pm.draw, [t for _, t in outs], draws=scn["n"],
            random_seed=scn["seed2"],
        )
        return {k: np.asarray(a, float) for k, a in zip(names, v)}
    out = lib(
        "sample_prior_predictive", pm.sample_prior_predictive, draws=scn["n"],
        model=m, random_seed=scn["seed2"], return_inferencedata=False,
        var_names=names,
    )
    return {k: np.asarray(out[k], float) for k in names}


def start(m, scn):
    ip = lib("initial_point", m.initial_point, scn["seed2"])
    return {"start of " + k: np.asarray(v, float) for k, v in ip.items()}


def support(scn, out):
    for e in scn["spec"]:
        mine = {k: v for k, v in out.items() if k.startswith(e["name"])}
        for k, v in mine.items():
            want = (scn["n"],) + tuple(priors.expected_shape(e, k))
            if v.shape != want:
                raise Violation("wrong-shape", f"draws of {k}: {v.shape}, not {want}")
        for i in range(scn["n"]):
            priors.in_support(
                e, {k: v[i] for k, v in mine.items()}, np.array(e.get("rorv", 0.0), float)
            )


def same(ctx, what, got, want):
    ctx.checks += 1
    for k, v in want.items():
        g = got.get(k)
        if g is None or g.shape != v.shape or not np.array_equal(g, v, equal_nan=True):
            raise Violation("draws-differ", f"{what}: {k} is {g!r}, first time {v!r}")


def run(scn, ctx):
    w = ctx.w
    for e in scn["spec"]:
        ctx.cov("prior." + e["kind"])
        if e.get("spell"):
            ctx.cov("spelled." + e["spell"])
    ctx.cov("how." + scn["how"])
    ctx.log("begin")
    scramble(scn["seed2"] ^ 5)

    def fresh():
        m, _, outs = priors.build(ctx.w, scn["spec"])
        return m, outs

    m, outs = fresh()
    blob = cloudpickle.dumps((m, outs))
    want = draw(m, outs, scn)
    support(scn, want)
    want.update(start(m, scn))
    for k in sorted(want):
        ctx.logval("draw " + k, want[k])

    def again(what, m, outs):
        got = draw(m, outs, scn)
        got.update(start(m, scn))
        same(ctx, what, got, want)

    prev = ""
    for op in scn["ops"]:
        k = op["op"]
        ctx.count("op." + k)
        ctx.state(
            tuple((e["kind"], len(e["shape"]), e.get("fixed"), e.get("ror")) for e in scn["spec"]),
            k, prev,
        )
        prev = k
        if k == "scramble":
            ctx.fault("scrambled-generators")
            scramble(op["s"])
            again("after scrambling the process-wide generators", m, outs)
        elif k == "other":
            m2, _, outs2 = priors.build(w, op["spec"])
            if op["draw"]:
                draw(m2, outs2, dict(scn, seed2=op["s"]))
            again("after work with another model", m, outs)
        elif k == "fault":
            with fault(op["nth"], op["exc"]) as plan:
                try:
                    priors.build(w, scn["spec"])
                except FAULTS[op["exc"]]:
                    pass
                except Violation:
                    if plan.fired is None:
                        raise
            if plan.fired:
                ctx.fault("failing-call:" + op["exc"])
                ctx.log("fired", plan.fired)
            m, outs = fresh()
            again("after a failed construction", m, outs)
        elif k == "redraw":
            again("the second time", m, outs)
        elif k == "rebuild":
            m, outs = fresh()
            again("from the same model built again", m, outs)
        elif k == "unpickle":
            m, outs = lib("unpickling", cloudpickle.loads, cloudpickle.dumps((m, outs)))
            again("from a copied model", m, outs)
        elif k == "crash":
            ctx.fault("process-crash")
            w.restart()
            scramble(op["s"])
            m, outs = lib("unpickling", cloudpickle.loads, blob) if op["pickled"] else fresh()
            again("in a restarted process", m, outs)
        elif k == "threads":
            r = core.rng_for("thr", op["s"])

            def mine():
                a, b = fresh()
                d = draw(a, b, scn)
                d.update(start(a, scn))
                return d

            def other():
                scramble(r.randrange(1 << 30))
                m2, _, outs2 = priors.build(ctx.w, op["spec"])
                return None

            bodies = [mine] + [
                (mine if j % 2 else other) for j in range(op["n"] - 1)
            ]
            res = run_threads(ctx, scn, bodies)
            for d in res:
                if d is not None:
                    same(ctx, "while other threads work", d, want)
        ctx.nontrivial = True
