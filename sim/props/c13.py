"""C13: geometric priors stay in support with the documented density."""

from .. import chains, priors

PROP = "C13"
N = {"quick": 200, "thorough": 6000}
RULE = (
    "seeded models of one to three geometric priors (any options, shapes, "
    "starting values, radius ratios that are constant, updated along the "
    "chain or sampled) are walked by seeded Metropolis chains with far-out "
    "proposals; at every proposed and visited state the support is checked "
    "and the log-density of the user-facing quantities (log-probability "
    "minus the log-determinant of their Jacobian) is compared with the "
    "documented density up to one constant per model, for angles by turning "
    "the sampled vector. Chains are crashed, restarted from bytes or from "
    "source and must give the same draws; construction is retried after "
    "injected failures. Non-trivial: a chain step was judged."
)
REAL, STUB = chains.REAL, chains.STUB
ASSUME = [
    "an angle is sampled as a vector proportional to (sin, cos), as documented",
    "densities are compared where no unconstrained coordinate exceeds 11",
]
STATES = "hash of (priors and options, crash points)"
SHRINK = ("crashes", "faults", "updates", "chains", "spec")


def gen(rng, i, tier):
    if rng.random() < 0.3:
        spec = [priors.gen_one(rng, "angle", "q0_")]
    else:
        spec = [
            priors.gen_one(rng, rng.choice(priors.GEOMETRIC[1:]), f"q{k}_")
            for k in range(rng.choice([1, 1, 2, 3]))
        ]
    return chains.gen(rng, spec, rng.randint(4, 14))


def run(scn, ctx):
    if not scn["spec"] or not scn["chains"]:
        return
    chains.Runner(ctx, scn, exact=False).run()
