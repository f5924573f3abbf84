"""C12: chains give the same draws on any worker and after any crash."""

import heapq

import cloudpickle
import numpy as np

from .. import core, models
from ..core import FAULTS, Violation, fault
from ..session import PLAIN, lib

PROP = "C12"
N = {"quick": 44, "thorough": 2500}
TWIN = 0.2  # share repeated in processes with another string hash
RULE = (
    "a seeded model (radial velocities, transits, timing variations, simple "
    "orbits, secondary eclipses, astrometry, with the library's priors) is "
    "pickled and shipped to simulated workers, which run seeded "
    "gradient-informed Metropolis chains step by step in a seeded "
    "interleaving, checkpoint, crash, restart from bytes and resume; draws "
    "travel over a delaying, reordering, duplicating network to the store. "
    "The stored draws, derived quantities, log-probabilities and gradients "
    "are compared with the same chains run in the building process, and the "
    "gradient with the log-probability's finite differences at visited "
    "states. Non-trivial: a chain step ran on a worker."
)
REAL = [
    "exoplanet orbits, light curves and distributions inside PyMC models",
    "PyMC log-probability and gradient graphs, exoplanet_core ops",
    "cloudpickle of models together with orbits and light curves",
]
STUB = [
    "sampler: a small seeded Metropolis-adjusted Langevin kernel stands in "
    "for PyMC's NUTS (far too slow in Python mode)",
    "workers, network, store and clock: an event queue of the simulator",
    "C linker (PyTensor runs its Python implementations)",
]
ASSUME = ["the graph is compiled without PyTensor rewrites"]
SHRINK = ("crashes", "faults")


def gen(rng, i, tier):
    nw = rng.choice([1, 2])
    model = models.gen(rng)
    if i == 0:
        # the known finding is looked at in every run
        model.update(kind="rv", npl=1, ecc="kipping13", free=True)
        model.update(
            bounds=[None, 0.6], period=model["period"][:1], t0=model["t0"][:1]
        )
    elif model["bounds"].count(None) == 1 and model["ecc"] == "kipping13":
        # (its gradient takes a hundred times as long)
        model["free"] = model["free"] and tier != "quick" and i % 10 == 0
    if i % 2:
        # more models with fewer processes (each has to compile)
        model["kind"] = rng.choice(models.KINDS) if rng.random() < 0.65 else "ttv"
        models.tidy(model)
        return dict(
            model=model,
            nw=1,
            chains=[rng.randrange(1 << 30)],
            steps=rng.randint(5, 8),
            every=rng.randint(1, 4),
            net=rng.randrange(1 << 30),
            dup=rng.choice([0, 0.3]),
            crashes=[],
            faults=[],
        )
    return dict(
        model=model,
        nw=nw,
        chains=[rng.randrange(1 << 30) for _ in range(rng.choice([2, 3]))],
        steps=rng.randint(5, 10) if i else 4,
        every=rng.randint(1, 4),
        net=rng.randrange(1 << 30),
        dup=rng.choice([0, 0.3]),
        crashes=sorted(
            [round(rng.uniform(1, 14), 3), rng.randrange(nw), rng.random() < 0.4]
            for _ in range(rng.choice([0, 1, 1, 2]))
        ),
        faults=[
            [rng.randint(1, 400), rng.choice(sorted(FAULTS))]
            for _ in range(rng.choice([0, 0, 1]))
        ],
    )


class Worker:
    """One process's view of the model."""

    def __init__(self, w, blob, new):
        self.model, self.objs = lib("unpickling the model", cloudpickle.loads, blob)
        m = self.model
        self.names = [v.name for v in m.value_vars]
        dets = m.replace_rvs_by_values(m.deterministics)
        self.dnames = [d.name for d in m.deterministics] + ["prediction"]
        dets = list(dets) + m.replace_rvs_by_values([self.predict(new)])
        lp = lib("logp", m.logp)
        import pytensor.gradient

        g = lib(
            "gradient",
            pytensor.gradient.grad,
            lp,
            list(m.value_vars),
            disconnected_inputs="ignore",
        )
        self.fn = lib(
            "compile", m.compile_fn, [lp] + list(g) + list(dets),
            inputs=m.value_vars, mode=PLAIN, on_unused_input="ignore",
        )

    def predict(self, t):
        """Model values at new times, from the objects shipped with the model."""
        import pytensor.tensor as pt

        o = self.objs
        if "lc" in o:
            return lib(
                "prediction", o["lc"].get_light_curve, orbit=o["orbit"], r=o["r"], t=t
            )
        x = lib("prediction", o["orbit"].get_relative_position, t)
        return pt.stack([pt.flatten(v) for v in x])

    def ip(self):
        p = lib("initial_point", self.model.initial_point, 1)
        return {k: np.asarray(p[k], float) for k in self.names}

    def __call__(self, x):
        out = lib("eval", self.fn, {k: x[k] for k in self.names})
        k = len(self.names)
        return (
            float(out[0]),
            {n: np.asarray(v, float) for n, v in zip(self.names, out[1 : 1 + k])},
            {n: np.asarray(v, float) for n, v in zip(self.dnames, out[1 + k :])},
        )


def scale_of(name):
    """Typical widths of the parameters of models.py."""
    for k, s in (("logP", 3e-4), ("t0", 2e-3), ("tts", 2e-3), ("oc", 2e-3), ("dlp", 3e-3)):
        if name.startswith(k):
            return s
    return 0.03


class Chain:
    """x, the answers there, and the random stream: all durable as bytes."""

    def __init__(self, seed, x0):
        # (as PyMC's samplers do, in the order of the model's variables)
        self.rng = np.random.default_rng(seed)
        self.x = {k: v + scale_of(k) * 0.5 * self.rng.normal(size=np.shape(v))
                  for k, v in x0.items()}
        self.n = 0
        self.cur = None

    def drift(self, g):
        return {
            k: np.clip(0.02 * scale_of(k) ** 2 * np.nan_to_num(v), -scale_of(k), scale_of(k))
            for k, v in g.items()
        }

    def step(self, f):
        if self.cur is None:
            self.cur = f(self.x)
        lp, g, _ = self.cur
        d = self.drift(g)
        prop = {
            k: v + d[k] + 0.3 * scale_of(k) * self.rng.normal(size=np.shape(v))
            for k, v in self.x.items()
        }
        new = f(prop)
        d2 = self.drift(new[1])

        def q(a, b, dr):
            return sum(
                -0.5 * np.sum(((b[k] - a[k] - dr[k]) / (0.3 * scale_of(k))) ** 2)
                for k in sorted(a)
            )

        a = new[0] - lp + q(prop, self.x, d2) - q(self.x, prop, d)
        u = np.log(self.rng.uniform())
        if np.isfinite(new[0]) and u < a:
            self.x, self.cur = prop, new
        self.n += 1
        return self.x, self.cur


def close(a, b, rtol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        return bool(
            (
                (np.abs(a - b) <= rtol * (1e-6 + np.abs(b)))
                | (a == b)
                | (np.isnan(a) & np.isnan(b))
            ).all()
        )


def compare(what, got, want):
    (x, (lp, g, d)), (x0, (lp0, g0, d0)) = got, want
    for tag, a, b in (("draw", x, x0), ("derived", d, d0), ("gradient", g, g0)):
        for k in b:
            if k not in a or not close(a[k], b[k]):
                raise Violation(
                    "draws-differ",
                    f"{what}: {tag} {k}: {a.get(k)!r}, in the building process {b[k]!r}",
                )
    if not close(lp, lp0):
        raise Violation("draws-differ", f"{what}: logp {lp!r}, else {lp0!r}")


def slope(ctx, f, x, rng, what, model):
    """The gradient against the log-probability's slope at a visited state."""
    lp, g, _ = f(x)
    g = dict(g)
    if not np.isfinite(lp):
        return
    ctx.checks += 1
    for k, v in g.items():
        if not np.isfinite(v).all():
            if (
                model["ecc"] == "kipping13"
                and model["free"]
                and model["bounds"].count(None) == 1
                and k.startswith(("ecc::alpha", "ecc::beta"))
            ):
                # known: the normalization at an open end of the bounds
                ctx.finding(
                    "kipping13-open-bound-gradient",
                    "kipping13 with marginalized parameters and one bound",
                )
                g[k] = None
                continue
            raise Violation(
                "gradient", f"{what}: d logp / d {k} = {v!r} where logp = {lp!r}"
            )
    names = sorted(n for n in x if g[n] is not None)
    for k in rng.sample(names, len(names)):
        slope_along(ctx, f, x, lp, g, k, rng, what)


def slope_along(ctx, f, x, lp, g, k, rng, what):
    d = {n: np.zeros(np.shape(v)) for n, v in x.items()}
    d[k] = np.array(
        [rng.gauss(0, 1) for _ in range(np.size(x[k]))]
    ).reshape(np.shape(x[k]))
    want = float(np.sum(g[k] * d[k]))
    est = []
    for h in (1e-2, 2.5e-3, 6.25e-4):
        h = h * scale_of(k)
        up = f({n: x[n] + h * d[n] for n in x})[0]
        dn = f({n: x[n] - h * d[n] for n in x})[0]
        est.append((up - dn) / (2 * h))
    r1 = (16 * est[1] - est[0]) / 15
    r2 = (16 * est[2] - est[1]) / 15
    noise = 1e-9 * abs(lp) / scale_of(k)
    err = 20 * abs(r2 - r1) + noise + 1e-5 * abs(want) + 1e-6 / scale_of(k)
    if err > 0.2 * (abs(want) + 1.0 / scale_of(k)):
        ctx.count("slope-not-resolved")
        return
    ctx.count("slope-checked")
    if abs(want - r2) > err:
        raise Violation(
            "gradient",
            f"{what}: d logp / d {k} along {d[k]!r} is {want!r} but the slope "
            f"is {r2!r} +- {err:.2g}",
        )


def run(scn, ctx):
    w = ctx.w
    c = scn["model"]
    ctx.cov("model." + c["kind"])
    ctx.cov("ecc.%s" % c["ecc"])
    for nth, exc in scn["faults"]:
        with fault(nth, exc) as plan:
            try:
                models.build(w, c)
            except FAULTS[exc]:
                pass
        if plan.fired:
            ctx.fault("failing-call:" + exc)
    m, objs = lib("building the model", models.build, w, c)
    blob = cloudpickle.dumps((m, objs))
    new = models.new_times(c)
    boss = Worker(w, blob, new)
    x0 = boss.ip()

    # the undisturbed run
    want = {}
    for ci, seed in enumerate(scn["chains"]):
        ch = Chain(seed, x0)
        for s in range(scn["steps"]):
            x, cur = ch.step(boss)
            want[ci, s] = (dict(x), cur)
    rng = core.rng_for("c12", scn["net"])
    for ci, s in sorted(want):
        if s == ci or s == 5 and len(want) < 12:
            slope(ctx, boss, want[ci, s][0], rng, f"chain {ci} step {s}", c)

    # the distributed run
    nw, nc = scn["nw"], len(scn["chains"])
    workers = [None] * nw
    owner = {}
    durable = {}
    live = {}
    store = {}
    q = []
    seq = 0
    trace = []
    moved = False

    def post(t, *ev):
        nonlocal seq
        heapq.heappush(q, (round(t, 6), seq, ev))
        seq += 1

    for ci in range(nc):
        durable[ci] = cloudpickle.dumps(Chain(scn["chains"][ci], x0))
        owner[ci] = rng.randrange(nw)
        post(rng.random(), "step", ci, owner[ci], 0)
    for t, wid, hard in scn["crashes"]:
        post(t, "crash", wid, hard)
    now = 0.0
    epoch = {ci: 0 for ci in range(nc)}
    guard = 0
    while q:
        now, _, ev = heapq.heappop(q)
        guard += 1
        if guard > 3000:
            raise Violation("no-progress", "chains never completed")
        if ev[0] == "crash":
            _, wid, hard = ev
            ctx.fault("worker-crash")
            dead = range(nw) if hard else [wid]
            if hard:
                ctx.fault("process-crash")
                w.restart()
            for k in dead:
                workers[k] = None
            trace.append("c")
            for ci in range(nc):
                if owner[ci] in dead:
                    live.pop(ci, None)
                    epoch[ci] += 1
                    owner[ci] = rng.randrange(nw)
                    post(now + rng.random(), "step", ci, owner[ci], epoch[ci])
            continue
        if ev[0] == "step":
            _, ci, wid, ep = ev
            if ep != epoch[ci]:
                continue
            if workers[wid] is None:
                workers[wid] = Worker(w, blob, new)
                ip = workers[wid].ip()
                for k in x0:
                    if not close(ip[k], x0[k]):
                        raise Violation(
                            "draws-differ",
                            f"initial point of {k}: {ip[k]!r}, else {x0[k]!r}",
                        )
            if ci not in live:
                live[ci] = cloudpickle.loads(durable[ci])
            ch = live[ci]
            if ch.n >= scn["steps"]:
                continue
            x, cur = ch.step(workers[wid])
            moved = True
            trace.append("%d@%d" % (ci, wid))
            for _ in range(2 if rng.random() < scn["dup"] else 1):
                post(now + rng.expovariate(0.7), "draw", ci, ch.n - 1, (dict(x), cur))
            if ch.n % scn["every"] == 0:
                durable[ci] = cloudpickle.dumps(ch)
            if rng.random() < 0.15 and nw > 1:
                # hand the chain over to another worker, from durable state
                durable[ci] = cloudpickle.dumps(ch)
                live.pop(ci)
                owner[ci] = rng.randrange(nw)
                ctx.count("chain-migrated")
            post(now + rng.expovariate(1.0), "step", ci, owner[ci], ep)
            continue
        _, ci, s, val = ev
        compare(f"chain {ci} step {s}", val, want[ci, s])
        ctx.checks += 1
        if (ci, s) in store:
            ctx.fault("draw-redelivered")
        store[ci, s] = val
    if sorted(store) != sorted(want):
        raise Violation("no-progress", "some draws were never stored")
    ctx.ticks += guard
    ctx.nontrivial = moved
    for k in sorted(want):
        ctx.logval("draw", want[k][1][0])
    ctx.state(c["kind"], c["ecc"], tuple(trace[:10]))
    ctx.log("trace", trace)
