"""C19: calls leave process-wide state alone, even when they fail."""

import gc
import logging
import os

import numpy as np
import pymc as pm
import pytensor.tensor as pt

from .. import catalog, procstate
from ..core import FAULTS, Violation, fault
from ..session import lib
from ..threads import gen_sched, run_threads

PROP = "C19"
N = {"quick": 520, "thorough": 30000}
RULE = (
    "seeded programs, run by one to three simulated threads, make calls of "
    "every kind (successful, refused, deprecated, reading acknowledgements) "
    "from scrambled process states, with a fault injected at the n-th call "
    "(sweeps take every n in turn); all process-wide state is compared before "
    "and after each call, and by each thread while the others are half-way. "
    "Non-trivial: at least one comparison."
)
LEVEL = "fault_enumeration"
REAL = ["exoplanet (all public calls)", "PyMC, PyTensor, astropy, scipy", "threads (real threads under the simulator's scheduler)"]
STUB = ["answers are not evaluated here"]
ASSUME = [
    "faults hit calls made by the package's own code",
    "private caches of the package are not process-wide state",
]
STATES = "hash of (call, outcome, where the fault hit)"
SHRINK = ("progs.0", "progs.1", "progs.2", "preempts")


# calls that are refused, or that only talk to the user
def refused(w, k):
    import astropy.units as u

    O = w.orbits.KeplerianOrbit
    E = w.est
    x = np.linspace(0, 10, 40)
    table = [
        lambda: O(),
        lambda: O(period=1.0, incl=0.1, b=0.2),
        lambda: O(period=1.0, ecc=0.1),
        lambda: O(period=1.0, duration=0.1),
        lambda: O(period=1.0, duration=0.1, b=0.2),
        lambda: O(period=1.0, t0=0.0, t_periastron=0.1),
        lambda: O(period=1.0, m_star=1.0, r_star=1.0, rho_star=1.4),
        lambda: O(period=1.0, rho_star=1.4, rho_star_units=u.kg / u.m**3),
        lambda: O(period=1.0, m_planet=1.4, m_planet_units=u.M_earth),
        lambda: w.orbits.TTVOrbit(period=1.0),
        lambda: w.orbits.TTVOrbit(ttvs=[np.zeros(3)], transit_times=[x]),
        lambda: w.lc.LimbDarkLightCurve(0.3),
        lambda: w.lc.LimbDarkLightCurve(0.3, 0.2).get_light_curve(),
        lambda: w.lc.LimbDarkLightCurve(0.3, 0.2).get_light_curve(
            orbit=O(period=1.0, b=0.1), r=0.1, t=x, texp=0.1, order=7
        ),
        lambda: E.find_peaks(x, np.ones_like(x)),
        lambda: E.find_peaks(x, 0 * x),
        lambda: E.estimate_semi_amplitude([1.0, 1.0], x, x, x),
        lambda: E.bls_estimator(x, x[:-1]),
        lambda: E.lomb_scargle_estimator(x, 0 * x, max_peaks=0),
        lambda: E.autocorr_estimator(x, 0 * x),
        lambda: w.dist.angle("a"),
        lambda: w.ecc.kipping13("e"),
        lambda: w.ecc.vaneylen19("e"),
        lambda: w.units.with_unit(w.units.with_unit(1.0, u.day), u.day),
        lambda: w.units.to_unit(w.units.with_unit(1.0, u.day), u.kg),
        lambda: w.interp.RegularGridInterpolator([x], x[:-1]).evaluate(
            x[:, None]
        ),
        lambda: w.interp.regular_grid_interp([], x, x[:, None]),
        lambda: w.citations.get_citations_for_model(),
        lambda: w.utils.deprecation_warning("message"),
        lambda: w.utils.deprecated("other")(len)([]),
        lambda: w.lc.SecondaryEclipseLightCurve([0.3, 0.2], [0.1, 0.2], 0.1)
        .get_light_curve(orbit=O(period=1.0, b=0.1), r=0.1),
        lambda: w.kep.get_true_anomaly("x", "y"),
        lambda: w.ttv.compute_expected_transit_times(0, 1, "a", 0),
        lambda: O(period=pt.as_tensor_variable(1.0), ecc=0.1, omega=0.2)
        .get_radial_velocity("t"),
    ]
    return table[k % len(table)]


NREF = 34


def gen_prog(rng, nth):
    ops = []
    for k in range(rng.randint(3, 6) if nth > 1 else rng.randint(4, 8)):
        r = rng.random()
        if r < 0.2:
            op = dict(op="refused", k=rng.randrange(NREF))
        elif r < 0.3:
            op = dict(op="cite", empty=rng.random() < 0.5)
        else:
            op = dict(op="call", **catalog.gen_call(rng, sorted(catalog.CALLS)))
        f = rng.random()
        if f < 0.35:
            op["mode"] = "plain"
        elif f < 0.7:
            op["mode"] = "fault"
            op["nth"] = rng.choice([rng.randint(1, 12), rng.randint(1, 90)])
        else:
            op["mode"] = "sweep"
            op["first"] = rng.choice([1, 1, rng.randint(1, 60)])
        op["exc"] = rng.choice(sorted(FAULTS))
        ops.append(op)
    return ops


def gen(rng, i, tier):
    nth = rng.choice([1, 1, 1, 2, 3])
    return dict(
        progs=[gen_prog(rng, nth) for _ in range(nth)],
        state=rng.randrange(1 << 30),
        env=rng.random() < 0.3,
        instr=nth > 1 and rng.random() < 0.3,
        sched=gen_sched(rng),
    )


def body(w, op, name):
    if op["op"] == "refused":
        return refused(w, op["k"])
    if op["op"] == "cite":

        def go():
            with pm.Model() as m:
                if not op["empty"]:
                    w.orbits.KeplerianOrbit(period=1.0)
                w.citations.get_citations_for_model(model=m)

        return go
    c = catalog.CALLS[op["call"]]
    inp = c.inputs(op["p"])

    def go():
        if c.prior:
            with pm.Model():
                c.call(w, op["p"], inp, name=name)
        else:
            c.call(w, op["p"], inp, name=name)

    return go


class Quiet(logging.Handler):
    def emit(self, record):
        pass


def run(scn, ctx):
    w = ctx.w
    from ..core import rng_for

    gc.collect()
    import matplotlib  # noqa: F401

    many = len(scn["progs"]) > 1
    ctx.cov("threads%d" % len(scn["progs"]))

    def compare(what, first):
        now = procstate.take(w)
        ctx.checks += 1
        ctx.nontrivial = True
        d = procstate.changed(first, now)
        if d:
            raise Violation("state-changed", f"{what}: " + "; ".join(d[:3]))

    def thread(t, prog, first):
        if many:
            own = procstate.take(w)
            first = dict(first, **{k: own[k] for k in procstate.LOCAL})
        for k, op in enumerate(prog):
            what = op.get("call") or f"{op['op']} {op.get('k', '')}"
            ctx.count(op["op"])
            if not many:
                procstate.scramble(rng_for(scn["state"], k))
                first = procstate.take(w)
            go = body(w, op, f"v{t}_{k}")
            if op["mode"] == "plain":
                if op["op"] == "refused":
                    try:
                        go()
                    except Exception as e:
                        ctx.fault("refused-call")
                        if not many:
                            ctx.log(what, type(e).__name__)
                else:
                    lib(what, go)
                compare(what, first)
                if not many:
                    ctx.log(what)
                continue
            ns = (
                [op["nth"]]
                if op["mode"] == "fault"
                else range(op["first"], op["first"] + (8 if many else 14))
            )
            for n in ns:
                go = body(w, op, f"v{t}_{k}_{n}")
                with fault(n, op["exc"]) as plan:
                    try:
                        go()
                    except FAULTS[op["exc"]]:
                        if plan.fired is None:
                            raise
                    except Exception as e:
                        if plan.fired is None and op["op"] != "refused":
                            raise Violation(
                                "unexpected-exception",
                                f"{what}: {type(e).__name__}: {e}",
                            )
                compare(f"{what} with {op['exc']} at {plan.fired}", first)
                if plan.fired is None:
                    break
                ctx.fault("failing-call:" + op["exc"])
                if not many:
                    ctx.log("fired", what, plan.fired)
                    ctx.state(what, plan.fired)

    hd = Quiet()
    root = logging.getLogger()
    keep = root.handlers[:]
    try:
        if scn["env"]:
            # an application that has set up its own logging and environment
            root.addHandler(hd)
            os.environ["SIM_MARK"] = "1"
        procstate.scramble(rng_for(scn["state"], "start"))
        first = procstate.take(w)
        if many:
            run_threads(
                ctx,
                scn,
                [
                    (lambda t=t, p=p: thread(t, p, first))
                    for t, p in enumerate(scn["progs"])
                ],
            )
            compare("all threads", first)
        else:
            thread(0, scn["progs"][0], first)
    finally:
        root.handlers[:] = keep
        os.environ.pop("SIM_MARK", None)
        procstate.restore()
