"""C04: calls never modify the caller's inputs, and can be retried."""

import numpy as np
import pymc as pm

from .. import catalog
from ..core import FAULTS, Violation, fault
from ..session import lib
from ..snapshot import snap, where

PROP = "C04"
N = {"quick": 700, "thorough": 40000}
RULE = (
    "seeded programs own a pool of inputs (arrays, lists, tensors, shared "
    "containers, tagged tensors), several calls share the same inputs, and "
    "calls succeed or have a fault injected at the n-th call they make (sweeps "
    "take every n in turn). After every operation all inputs are compared with "
    "their first snapshot, and every successful answer with the answer of the "
    "same call on fresh inputs. Non-trivial: at least one answer compared."
)
LEVEL = "fault_enumeration"
REAL = ["exoplanet (all public calls)", "PyTensor evaluation in its Python mode", "astropy, scipy"]
STUB = ["compiled C code of PyTensor (not used)"]
ASSUME = [
    "faults hit calls made by the package's own code",
    "attributes that PyTensor itself computes lazily are not compared",
]
STATES = "hash of (call, kinds of inputs, operation, where the fault hit)"

NAMES = [n for n in catalog.CALLS if n != "with_unit/to_unit"]
ORBITAL = ["LimbDarkLightCurve", "SecondaryEclipseLightCurve"]


def gen(rng, i, tier):
    groups = []
    for g in range(rng.randint(1, 3)):
        nm = rng.choice(NAMES + ["TTVOrbit"] * 3)
        p = catalog.CALLS[nm].gen(rng)
        if nm == "TTVOrbit" and rng.random() < 0.5:
            # the lists in the lists belong to the caller too
            p["cfg"].update(inds=True, indkind="list")
        calls = [dict(call=nm, p=p)]
        if nm == "LimbDarkLightCurve" and rng.random() < 0.6:
            # other calls on the very same inputs
            for q in rng.sample(["pos", "rv", "rvK", "planet", "star", "vel", "tr"], 2):
                calls.append(dict(call="KeplerianOrbit", p=dict(p, q=q)))
        elif nm == "KeplerianOrbit" and rng.random() < 0.6:
            for q in rng.sample(["pos", "rv", "rvK", "planet", "star", "vel", "tr"], 2):
                calls.append(dict(call=nm, p=dict(p, q=q)))
        elif nm in ("estimate_semi_amplitude", "estimate_minimum_mass"):
            calls = [
                dict(call="estimate_semi_amplitude", p=p),
                dict(call="estimate_minimum_mass", p=p),
            ]
            if rng.random() < 0.5:
                calls.append(dict(call="lomb_scargle_estimator", p=p))
        elif nm == "bls_estimator":
            calls.append(dict(call="lomb_scargle_estimator", p=p))
        groups.append(
            dict(calls=calls, ro=rng.random() < 0.25)
        )
    ops = []
    for _ in range(rng.randint(4, 9)):
        g = rng.randrange(len(groups))
        c = rng.randrange(len(groups[g]["calls"]))
        k = rng.random()
        op = dict(g=g, c=c)
        if k < 0.4:
            op["op"] = "call"
        elif k < 0.8:
            op.update(
                op="fault",
                nth=rng.choice([rng.randint(1, 12), rng.randint(1, 90)]),
                exc=rng.choice(sorted(FAULTS)),
            )
        else:
            op.update(
                op="sweep",
                first=rng.choice([1, 1, rng.randint(1, 60)]),
                n=12,
                exc=rng.choice(sorted(FAULTS)),
            )
        ops.append(op)
    # whatever happened before, everything can be called again
    for g in range(len(groups)):
        for c in range(len(groups[g]["calls"])):
            ops.append(dict(op="call", g=g, c=c))
    return dict(groups=groups, ops=ops)


def freeze(x):
    """Data the caller may not even write to itself (memory maps)."""
    if isinstance(x, np.ndarray):
        x.flags.writeable = False
    elif isinstance(x, dict):
        for v in x.values():
            freeze(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            freeze(v)


def run(scn, ctx):
    w = ctx.w
    pools, refs = [], {}
    for gi, g in enumerate(scn["groups"]):
        inp = None
        for ci, c in enumerate(g["calls"]):
            call = catalog.CALLS[c["call"]]
            refs[gi, ci] = lib(
                c["call"], catalog.fresh_value, w, call, c["p"]
            )
            if inp is None:
                inp = call.inputs(c["p"])
                if "__units" in inp:
                    lib("with_unit", catalog.tag_units, w, inp)
            ctx.cov(c["call"])
        if g["ro"]:
            freeze({k: v for k, v in inp.items() if k != "__units"})
            ctx.cov("read-only")
        pools.append(inp)
    first = [snap(p) for p in pools]

    def compare(what):
        ctx.checks += 1
        for i, p in enumerate(pools):
            s = snap(p)
            if s != first[i]:
                raise Violation(
                    "input-modified",
                    f"{what}: inputs {sorted(k for k in p)}: "
                    + where(first[i], s),
                )

    def go(gi, ci, k):
        c = scn["groups"][gi]["calls"][ci]
        call = catalog.CALLS[c["call"]]
        inp = pools[gi]
        if call.prior:
            with pm.Model() as m:
                res = call.call(w, c["p"], inp, name="v")
        else:
            m = None
            res = call.call(w, c["p"], inp)
        return call, c, inp, res, m

    for k, op in enumerate(scn["ops"]):
        if op["g"] >= len(pools):
            continue
        nm = scn["groups"][op["g"]]["calls"][op["c"]]["call"]
        ctx.count(op["op"])
        if op["op"] == "call":
            call, c, inp, res, m = lib(nm, go, op["g"], op["c"], k)
            compare(f"{nm} returned")
            val = lib(nm + " value", call.value, w, c["p"], inp, res, m)
            compare(f"{nm} evaluated")
            if not catalog.same(val, refs[op["g"], op["c"]]):
                raise Violation(
                    "different-answer",
                    f"{nm}: {[np.round(v, 6).tolist() for v in val]!r:.300}, "
                    "with fresh inputs "
                    f"{[np.round(v, 6).tolist() for v in refs[op['g'], op['c']]]!r:.300}",
                )
            ctx.nontrivial = True
            for v in val:
                ctx.logval(nm, v)
        else:
            ns = [op["nth"]] if op["op"] == "fault" else range(
                op["first"], op["first"] + op["n"]
            )
            for n in ns:
                with fault(n, op["exc"]) as plan:
                    try:
                        go(op["g"], op["c"], k)
                    except FAULTS[op["exc"]]:
                        if plan.fired is None:
                            raise
                    except Exception as e:
                        if plan.fired is None:
                            raise Violation(
                                "unexpected-exception",
                                f"{nm}: {type(e).__name__}: {e}",
                            )
                compare(f"{nm} with {op['exc']} at {plan.fired}")
                if plan.fired is None:
                    break
                ctx.fault("failing-call:" + op["exc"])
                ctx.log("fired", nm, plan.fired)
                ctx.state(nm, plan.fired)
