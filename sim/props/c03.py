"""C03: concurrent threads build models without influencing each other."""

import numpy as np
import pymc as pm

from .. import catalog
from ..core import FAULTS, Violation, fault
from ..session import lib
from ..threads import gen_sched, run_threads

PROP = "C03"
N = {"quick": 560, "thorough": 20000}
RULE = (
    "two or three simulated threads build and evaluate their own orbits, light "
    "curves, priors, interpolators and estimates (sometimes of the same inputs) "
    "while a seeded scheduler switches between them at any line or bytecode "
    "instruction of the package; some calls are made to fail half-way. Every "
    "answer is compared with the answer of the same call made alone. "
    "Non-trivial: at least one comparison and one context switch."
)
REAL = ["exoplanet (all public calls)", "PyMC models", "threads (real threads under the simulator's scheduler)"]
STUB = ["compiled C code of PyTensor (not used)"]
ASSUME = [
    "switches between threads happen inside the package's own code, one line "
    "or one bytecode instruction at a time",
]
STATES = "hash of the sequence of context switches and of (call, outcome)"
SHRINK = ("progs.0", "progs.1", "progs.2", "preempts")

HEAVY = ("bls_estimator", "autocorr_estimator", "InterpolatedLightCurve")
NAMES = [n for n in catalog.CALLS if n not in HEAVY] * 3 + list(HEAVY)


FAMILIES = [
    [n for n in catalog.CALLS if n in g]
    for g in (
        ("LimbDarkLightCurve", "SecondaryEclipseLightCurve", "get_ror_from_approx_transit_depth"),
        ("KeplerianOrbit", "TTVOrbit", "LimbDarkLightCurve", "with_unit/to_unit"),
        ("SimpleTransitOrbit", "LimbDarkLightCurve", "KeplerianOrbit"),
        ("angle", "unit_disk", "quad_limb_dark", "impact_parameter"),
        ("kipping13", "vaneylen19"),
        ("interp", "RegularGridInterpolator"),
        ("estimate_semi_amplitude", "estimate_minimum_mass", "lomb_scargle_estimator"),
    )
]
FAMILIES = [f for f in FAMILIES if f]


def gen(rng, i, tier):
    nth = rng.choice([2, 2, 3])
    fam = rng.choice(FAMILIES) if rng.random() < 0.4 else None
    pool = []
    progs = []
    same_kind = rng.random() < 0.5
    base = rng.choice(NAMES)
    for t in range(nth):
        ops = []
        for k in range(rng.randint(1, 4)):
            if pool and rng.random() < 0.2:
                j = rng.randrange(len(pool))
            else:
                nm = base if same_kind and rng.random() < 0.7 else rng.choice(NAMES)
                if fam is not None:
                    nm = rng.choice(fam)
                pool.append(dict(call=nm, p=catalog.CALLS[nm].gen(rng)))
                j = len(pool) - 1
            op = dict(i=j, same=rng.random() < 0.3)
            if rng.random() < 0.3:
                op["fault"] = dict(
                    nth=rng.choice([rng.randint(1, 12), rng.randint(1, 90)]),
                    exc=rng.choice(sorted(FAULTS)),
                )
            ops.append(op)
        progs.append(ops)
    return dict(
        pool=pool,
        progs=progs,
        sched=gen_sched(rng),
        instr=rng.random() < 0.3,
    )


def run(scn, ctx):
    w = ctx.w
    used = sorted({op["i"] for p in scn["progs"] for op in p})
    refs, shared = {}, {}
    for j in used:
        c = scn["pool"][j]
        call = catalog.CALLS[c["call"]]
        refs[j] = lib(c["call"], catalog.fresh_value, w, call, c["p"])
        shared[j] = call.inputs(c["p"])
        if "__units" in shared[j]:
            lib("with_unit", catalog.tag_units, w, shared[j])
        ctx.cov(c["call"])

    def thread(t, prog):
        for k, op in enumerate(prog):
            c = scn["pool"][op["i"]]
            call = catalog.CALLS[c["call"]]
            inp = shared[op["i"]] if op["same"] else call.inputs(c["p"])

            def go():
                if call.prior:
                    with pm.Model() as m:
                        return call.call(w, c["p"], inp, name=f"v{t}_{k}"), m
                return call.call(w, c["p"], inp), None

            if "fault" in op:
                f = op["fault"]
                with fault(f["nth"], f["exc"]) as plan:
                    try:
                        go()
                    except FAULTS[f["exc"]]:
                        if plan.fired is None:
                            raise
                    except Exception as e:
                        if plan.fired is None:
                            raise Violation(
                                "unexpected-exception",
                                f"{c['call']}: {type(e).__name__}: {e}",
                            )
                if plan.fired:
                    ctx.fault("failing-call:" + f["exc"])
            res, m = lib(c["call"], go)
            val = lib(c["call"] + " value", call.value, w, c["p"], inp, res, m)
            ctx.checks += 1
            if not catalog.same(val, refs[op["i"]]):
                raise Violation(
                    "different-answer",
                    f"{c['call']} in thread {t}: "
                    f"{[np.round(v, 6).tolist() for v in val]!r:.300}, alone "
                    f"{[np.round(v, 6).tolist() for v in refs[op['i']]]!r:.300}",
                )
            ctx.count(c["call"])

    run_threads(
        ctx,
        scn,
        [(lambda t=t, p=p: thread(t, p)) for t, p in enumerate(scn["progs"])],
    )
    ctx.nontrivial = ctx.checks > 0 and ctx.stats.get("context-switches", 0) > 0
