"""C14: eccentricity priors keep bounds and documented density."""

from .. import chains, priors
from ..core import Violation
from ..session import lib

PROP = "C14"
N = {"quick": 160, "thorough": 5000}
RULE = (
    "seeded models of one or two eccentricity priors (population, fixed or "
    "marginalized parameters, bounds, shapes, starting values, observed "
    "eccentricities from numbers, arrays or sampled unit-disk coordinates) "
    "are walked by seeded Metropolis chains with far-out proposals; at every "
    "proposed and visited state the bounds are checked and the log-density "
    "of eccentricity and hyperparameters is compared with the published "
    "densities computed with SciPy. Chains are crashed, restarted from bytes "
    "or from source and must give the same draws; construction is retried "
    "after injected failures. Non-trivial: a chain step was judged."
)
REAL, STUB = chains.REAL, chains.STUB
ASSUME = [
    "densities are compared where no unconstrained coordinate exceeds 11",
    "no judgement where the beta mass between the bounds is below 1e-6 or the "
    "log-density beyond +-500",
    "vaneylen19 with bounds: the mixture is cut, not renormalized (as "
    "implemented and as far as documented)",
]
STATES = "hash of (priors and options, crash points)"
SHRINK = ("crashes", "faults", "chains", "spec")


def gen(rng, i, tier):
    spec = [
        priors.gen_one(rng, rng.choice(priors.ECC), f"q{k}_")
        for k in range(rng.choice([1, 1, 2]))
    ]
    if i == 0:
        # the known finding is looked at in every run
        spec = [priors.gen_one(rng, "kipping13", "q0_")]
        spec[0].update(long=None, fixed=True, observed=None, lower=None, upper=None)
        spec[0].pop("obs", None)
        spec[0]["init"] = None
    return chains.gen(rng, spec, rng.randint(4, 12))


def full_sample(ctx):
    """Without `long` the fit to the full sample is documented; the library
    uses the long-period numbers (1.12, 3.09 instead of 0.867, 3.03)."""
    import pymc as pm
    from scipy import stats

    with pm.Model() as m:
        lib("kipping13", ctx.w.ecc.kipping13, "e", observed=0.3)
    lp = float(m.compile_logp()({}))
    if abs(lp - stats.beta.logpdf(0.3, 0.867, 3.03)) < 1e-6:
        return
    if abs(lp - stats.beta.logpdf(0.3, 1.12, 3.09)) > 1e-6:
        raise Violation(
            "wrong-density", f"kipping13 without 'long': log-density {lp!r} at 0.3"
        )
    ctx.finding(
        "kipping13-full-sample",
        "kipping13 without 'long' has the long-period parameters",
    )


def run(scn, ctx):
    if not scn["spec"] or not scn["chains"]:
        return
    for e in scn["spec"]:
        if e["kind"] == "kipping13" and e["long"] is None:
            full_sample(ctx)
            break
    chains.Runner(ctx, scn, exact=True).run()
