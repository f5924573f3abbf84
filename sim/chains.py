"""Seeded chains over one prior model, with crashes, restarts and resumption."""

import cloudpickle
import numpy as np

from . import core, priors
from .core import FAULTS, Violation, fault
from .session import lib


class Walk:
    """The durable part of a chain: position, current ror, random stream."""

    def __init__(self, seed, x0, env):
        self.rng = np.random.default_rng(seed)
        self.x = {k: np.array(v, float) for k, v in x0.items()}
        self.env = {k: np.array(v, float) for k, v in env.items()}
        self.n = 0

    def propose(self):
        r = self.rng.uniform()
        s = 0.3 if r < 0.5 else 1.5 if r < 0.8 else 6.0 if r < 0.95 else 40.0
        return {
            k: np.asarray(v + s * self.rng.normal(size=np.shape(v)))
            for k, v in sorted(self.x.items())
        }


class Runner:
    def __init__(self, ctx, scn, exact):
        self.ctx, self.scn, self.exact = ctx, scn, exact
        self.spec = scn["spec"]
        self.const = None
        self.angle = self.spec[0]["kind"] == "angle"

    # -- judging one state
    def ror(self, e, env):
        return env.get(e["name"])

    def judge(self, probe, x, env, answer, where):
        ctx = self.ctx
        lp, val, ld = answer
        for e in self.spec:
            mine = {
                k: v
                for k, v in val.items()
                if k.startswith(e["name"])
            }
            for k, v in mine.items():
                want = priors.expected_shape(e, k)
                if v.shape != tuple(want):
                    raise Violation(
                        "wrong-shape", f"{where}: {k} has shape {v.shape}, not {want}"
                    )
            priors.in_support(e, mine, self.ror(e, env))
        ctx.checks += 1
        far = max([np.abs(v).max() for v in x.values() if v.size] or [0.0])
        if self.angle:
            # only a box around the origin is numerically meaningful
            if far < 30 and np.isfinite(lp):
                self.judge_angle(probe, x, lp, val, where)
            return
        if far > 11:
            ctx.count("far-out-state")
            return
        ref = sum(
            priors.reference(
                e,
                {k: v for k, v in val.items() if k.startswith(e["name"])},
                self.ror(e, env),
            )
            for e in self.spec
        )
        if np.isnan(ref) or (np.isfinite(ref) and abs(ref) > 500):
            # (without rewrites PyTensor's logaddexp underflows far out)
            ctx.count("density-not-resolvable")
            return
        if np.isnan(lp) or lp == np.inf:
            raise Violation("bad-density", f"{where}: log-density {lp!r} at {x!r}")
        if not np.isfinite(ref) or not np.isfinite(lp):
            if np.isneginf(ref) != np.isneginf(lp):
                raise Violation(
                    "wrong-density",
                    f"{where}: log-density {lp!r} where the documented one is {ref!r} at {val!r}",
                )
            ctx.count("outside-bounds-state")
            return
        got = lp - ld
        if not np.isfinite(ld):
            return
        tol = 2e-6 * (1 + abs(got) + abs(ref))
        if self.exact:
            c = 0.0
        else:
            if self.const is None:
                self.const = got - ref
            c = self.const
        ctx.count("density-checked")
        if not abs(got - ref - c) <= tol:
            raise Violation(
                "wrong-density",
                f"{where}: log-density of {val!r} is {got!r}, documented "
                f"{ref!r} (+ {c!r})",
            )

    def judge_angle(self, probe, x, lp, val, where):
        e = self.spec[0]
        names = sorted(x)
        if len(names) != 2 or x[names[0]].shape != x[names[1]].shape:
            raise Violation(
                "wrong-density",
                f"{where}: an angle is not sampled in two dimensions: {names}",
            )
        rng = core.rng_for("angle", self.scn["seed2"], where)
        a, b = x[names[0]], x[names[1]]
        if (np.hypot(a, b) < 1e-6).any():
            return
        phi = np.reshape(
            [rng.uniform(-3.1, 3.1) for _ in range(a.size)], a.shape
        )
        c, s = np.cos(phi), np.sin(phi)
        y = {names[0]: a * c + b * s, names[1]: b * c - a * s}
        lp2, val2, _ = probe(y)
        self.ctx.count("density-checked")
        if not abs(lp2 - lp) <= 1e-9 * (1 + abs(lp) + float(np.sum(a**2 + b**2))):
            raise Violation(
                "wrong-density",
                f"{where}: the log-density of direction {val2!r} is {lp2!r}, "
                f"that of {val!r} is {lp!r}, at the same distance from the origin",
            )
        d = np.asarray(val2[e["name"]] - val[e["name"]])
        for sgn in (1, -1):
            r = np.abs(np.angle(np.exp(1j * (d - sgn * phi))))
            if (r < 1e-9).all():
                break
        else:
            raise Violation(
                "wrong-value",
                f"{where}: turning the two-dimensional vector by {phi!r} turns "
                f"the angle by {d!r}",
            )

    def start(self, probe, env):
        """Chains begin where the user asked."""
        lp, val, _ = probe(probe.ip)
        for e in self.spec:
            for k, want in priors.start_values(e).items():
                if not np.allclose(val[k], want, rtol=1e-7, atol=1e-7):
                    if e["kind"] == "angle" and np.allclose(
                        np.angle(np.exp(1j * (val[k] - want))), 0, atol=1e-7
                    ):
                        continue
                    raise Violation(
                        "wrong-start",
                        f"{e['kind']} {k} starts at {val[k]!r}, not at {want!r}",
                    )
                self.ctx.count("start-checked")
        if not np.isfinite(lp) and not any(e.get("observed") for e in self.spec):
            raise Violation(
                "wrong-start", f"log-density {lp!r} at the starting point {val!r}"
            )
        self.judge(probe, probe.ip, env, (lp, val, probe(probe.ip)[2]), "start")

    # -- the model, in whichever process
    def fresh(self):
        m, env, outs = priors.build(self.ctx.w, self.spec)
        return m, env, outs

    def extra(self, m):
        """No variables beyond the ones asked for."""
        free = {v.name for v in m.free_RVs}
        for e in self.spec:
            if e.get("observed") is None:
                continue
            ok = {e["name"] + "_h"}
            if not e["fixed"]:
                ok |= {n for n in free if n.startswith(e["name"] + "::")}
            more = {n for n in free if n.split("::")[0].startswith(e["name"])} - ok
            if more:
                raise Violation(
                    "extra-variable",
                    f"{e['kind']} with observed= adds the variables {sorted(more)}",
                )
            hyper = {n for n in free if n.startswith(e["name"] + "::")}
            want = 0 if e["fixed"] else 2 if e["kind"] == "kipping13" else 3
            if len(hyper) != want:
                raise Violation(
                    "extra-variable", f"{e['kind']}: hyperparameters {sorted(hyper)}"
                )

    def run(self):
        scn, ctx, w = self.scn, self.ctx, self.ctx.w
        for e in self.spec:
            ctx.cov("prior." + e["kind"])
            if e.get("spell"):
                ctx.cov("spelled." + e["spell"])
        for nth, exc in scn["faults"]:
            with fault(nth, exc) as plan:
                try:
                    priors.build(w, self.spec)
                except FAULTS[exc]:
                    pass
                except Violation:
                    if plan.fired is None:
                        raise
            if plan.fired:
                ctx.fault("failing-call:" + exc)
        m, env, outs = self.fresh()
        self.extra(m)
        blob = cloudpickle.dumps((m, env, outs))
        probe = priors.Probe(m, outs, jac=not self.angle)
        env0 = {
            e["name"]: np.array(e["rorv"], float)
            for e in self.spec
            if e.get("ror") == "shared"
        }
        self.start(probe, env0)

        # undisturbed chains
        want = {}
        for ci, seed in enumerate(scn["chains"]):
            walk = Walk(seed, probe.ip, env0)
            for s in range(scn["steps"]):
                want[ci, s] = self.step(probe, env, walk, s, f"chain {ci} step {s}")
                ctx.logval("draw", want[ci, s][0])
        ctx.nontrivial = True

        # the same with crashes
        trace = []
        for ci, seed in enumerate(scn["chains"]):
            walk = Walk(seed, probe.ip, env0)
            durable = cloudpickle.dumps(walk)
            crashes = {s for c, s in scn["crashes"] if c == ci}
            if not crashes:
                continue
            todo = set(crashes)
            while walk.n < scn["steps"]:
                if walk.n in todo:
                    todo.discard(walk.n)
                    ctx.fault("process-crash")
                    trace.append((ci, walk.n))
                    w.restart()
                    if (ci + walk.n) % 2:
                        m, env, outs = lib("unpickling", cloudpickle.loads, blob)
                    else:
                        m, env, outs = self.fresh()
                    probe = priors.Probe(m, outs, jac=not self.angle)
                    walk = cloudpickle.loads(durable)
                s = walk.n
                got = self.step(probe, env, walk, s, f"chain {ci} step {s}", quiet=True)
                self.same(got, want[ci, s], f"chain {ci} step {s} after a crash")
                if walk.n % scn["every"] == 0:
                    durable = cloudpickle.dumps(walk)
        ctx.state(
            tuple(
                (e["kind"], len(e["shape"]), e.get("fixed"), e.get("observed"), e.get("ror"), e.get("lower") is None, e.get("upper") is None)
                for e in self.spec
            ),
            tuple(trace),
        )
        ctx.ticks += len(want)

    def step(self, probe, env, walk, s, where, quiet=False):
        if self.scn["updates"] and walk.env:
            for at, f in self.scn["updates"]:
                if at == s:
                    walk.env = {k: np.asarray(v * f) for k, v in walk.env.items()}
        for k, v in walk.env.items():
            env[k].set_value(np.array(v, float))
        cur = probe(walk.x)
        prop = walk.propose()
        new = probe(prop)
        if not quiet:
            self.judge(probe, prop, walk.env, new, where + " (proposal)")
        u = np.log(walk.rng.uniform())
        if not np.isfinite(cur[0]) or u < new[0] - cur[0]:
            walk.x, cur = prop, new
        walk.n += 1
        if not quiet:
            self.judge(probe, walk.x, walk.env, cur, where)
        x = np.concatenate([np.ravel(walk.x[k]) for k in sorted(walk.x)] + [[cur[0]]])
        return x, {k: np.array(v) for k, v in cur[1].items()}

    def same(self, got, want, what):
        self.ctx.checks += 1
        with np.errstate(all="ignore"):
            if not np.allclose(got[0], want[0], rtol=1e-9, atol=1e-12, equal_nan=True):
                raise Violation("draws-differ", f"{what}: {got[0]!r}, else {want[0]!r}")
            for k, v in want[1].items():
                if not np.allclose(got[1][k], v, rtol=1e-9, atol=1e-12, equal_nan=True):
                    raise Violation("draws-differ", f"{what}: {k} {got[1][k]!r}, else {v!r}")


def gen(rng, spec, steps):
    nch = rng.choice([1, 2])
    return dict(
        spec=spec,
        chains=[rng.randrange(1 << 30) for _ in range(nch)],
        steps=steps,
        every=rng.randint(1, 4),
        crashes=[
            [rng.randrange(nch), rng.randrange(steps)]
            for _ in range(rng.choice([0, 1, 2]))
        ],
        updates=[
            [rng.randrange(steps), rng.choice([0.3, 0.8, 1.5, 2.2])]
            for _ in range(rng.choice([0, 1, 2]))
        ],
        faults=[
            [rng.randint(1, 60), rng.choice(sorted(FAULTS))]
            for _ in range(rng.choice([0, 0, 1]))
        ],
        seed2=rng.randrange(1 << 30),
    )


REAL = [
    "exoplanet.distributions inside PyMC models",
    "PyMC log-probability, transforms and initial points",
    "cloudpickle of models; a restarted package image",
]
STUB = [
    "sampler: a small seeded Metropolis kernel with occasional far-out "
    "proposals stands in for PyMC's NUTS",
    "process crash: the package image is dropped and reloaded, only pickled "
    "bytes survive",
    "C linker (PyTensor runs its Python implementations)",
]
