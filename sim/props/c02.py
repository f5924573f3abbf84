"""C02: a failed or interrupted component call leaves contexts intact."""

import pymc as pm
from pymc.model.core import MODEL_MANAGER

from .. import catalog
from ..core import FAULTS, Violation, fault
from ..session import lib
from ..threads import gen_sched, run_threads

PROP = "C02"
N = {"quick": 640, "thorough": 30000}
RULE = (
    "seeded programs, run by one or two simulated threads, nest models and "
    "make component calls into the current or an explicitly given model; calls "
    "succeed, fail for a reason of their own, or get a fault injected at the "
    "n-th call they make (sweeps take every n in turn). After every call the "
    "stack of active models, the variables of every model and what a retry "
    "adds are compared with the state before and with a first-time call. "
    "Non-trivial: at least one call compared."
)
LEVEL = "fault_enumeration"
REAL = [
    "exoplanet.distributions, orbits, light_curves, interp, citations",
    "PyMC model contexts and variable registration",
    "threads (real threads under the simulator's scheduler)",
]
STUB = ["no sampling", "PyTensor graphs are not compiled here"]
ASSUME = [
    "faults hit calls made by the package's own code, not the entry and exit "
    "of a context manager itself",
    "variables that a failed call already added to its target may remain",
]
STATES = "hash of (call, where it was directed, depth of the stack, fault)"
SHRINK = ("progs.0", "progs.1", "preempts")

NAMES = [
    "kipping13",
    "kipping13",
    "kipping13",
    "vaneylen19",
    "vaneylen19",
    "vaneylen19",
    "angle",
    "unit_disk",
    "quad_limb_dark",
    "impact_parameter",
    "KeplerianOrbit",
    "LimbDarkLightCurve",
    "SecondaryEclipseLightCurve",
    "TTVOrbit",
    "SimpleTransitOrbit",
    "RegularGridInterpolator",
    "get_ror_from_approx_transit_depth",
]


def gen_prog(rng, th, nth):
    ops = []
    own, stack = [], []
    for i in range(rng.randint(4, 8)):
        k = rng.random()
        if not own or k < 0.25:
            nm = f"m{th}.{len(own)}"
            own.append(nm)
            op = dict(
                op="model",
                name=nm,
                enter=rng.random() < 0.75,
                named=rng.random() < 0.4,
                var=rng.random() < 0.7,
            )
            ops.append(op)
            if op["enter"]:
                stack.append(nm)
        elif k < 0.32 and stack:
            ops.append(dict(op="pop"))
            stack.pop()
        else:
            op = dict(op="call", **catalog.gen_call(rng, NAMES))
            op["how"] = rng.choice(["current", "explicit", "explicit", "with"])
            op["tgt"] = rng.choice(own)
            f = rng.random()
            op["exc"] = rng.choice(sorted(FAULTS))
            if f < 0.2:
                op["mode"] = "plain"
            elif f < 0.35:
                op["mode"] = "own-failure"
            elif f < 0.75:
                op["mode"] = "fault"
                op["nth"] = rng.choice([rng.randint(1, 8), rng.randint(1, 40)])
            else:
                op["mode"] = "sweep"
                op["max"] = 14 if nth > 1 else 40
            ops.append(op)
    return ops


def gen(rng, i, tier):
    nth = rng.choice([1, 1, 1, 2])
    return dict(
        progs=[gen_prog(rng, t, nth) for t in range(nth)],
        sched=gen_sched(rng),
    )


def snap(m):
    """What a model holds, by identity."""
    return dict(
        named=[(k, id(v)) for k, v in m.named_vars.items()],
        free=[id(v) for v in m.free_RVs],
        obs=[id(v) for v in m.observed_RVs],
        det=[id(v) for v in m.deterministics],
        pot=[id(v) for v in m.potentials],
        val=[(id(k), id(v)) for k, v in m.rvs_to_values.items()],
        ini=[(id(k), id(v)) for k, v in m.rvs_to_initial_values.items()],
        tra=[(id(k), id(v)) for k, v in m.rvs_to_transforms.items()],
    )


def diff(before, after):
    """Are all entries of `before` still there, in order, and first?"""
    for k, v in before.items():
        if after[k][: len(v)] != v:
            return k
    return None


def describe(m, names, name, prefix):
    """The variables a call added, independent of what it was called."""
    out = []
    roles = {}
    for role, vs in (
        ("free", m.free_RVs),
        ("observed", m.observed_RVs),
        ("deterministic", m.deterministics),
        ("potential", m.potentials),
    ):
        for v in vs:
            roles[id(v)] = role
    for n in names:
        v = m.named_vars[n]
        k = n[len(prefix) :] if n.startswith(prefix) else n
        tr = m.rvs_to_transforms.get(v)
        out.append(
            (
                k.replace(name, "@"),
                roles.get(id(v), "other"),
                tuple(v.type.shape),
                type(tr).__name__,
            )
        )
    return sorted(out)


class Run:
    def __init__(self, ctx, scn):
        self.ctx, self.w = ctx, ctx.w
        self.nth = len(scn["progs"])
        self.models = {}
        self.first = {}

    def thread(self, th, prog):
        stack = []
        mine = {}
        try:
            for k, op in enumerate(prog):
                kind = op["op"]
                if kind == "model":
                    self.model(mine, stack, op)
                elif kind == "pop":
                    if stack:
                        mine[stack.pop()].__exit__(None, None, None)
                else:
                    self.call(th, k, op, mine, stack)
                self.ctx.count(kind)
        finally:
            # the harness' own clean-up, whatever the call left behind
            del MODEL_MANAGER.active_contexts[:]

    def model(self, mine, stack, op):
        m = pm.Model(name=op["name"].replace(".", "_") if op["named"] else "")
        mine[op["name"]] = m
        m.__enter__()
        if op["var"]:
            q = op["name"].replace(".", "_")
            x = pm.Normal("existing" + q, 0.3, 2.0, initval=0.1)
            pm.Deterministic("twice" + q, 2 * x)
            pm.Potential("pot" + q, -(x**2))
        if op["enter"]:
            stack.append(op["name"])
        else:
            m.__exit__(None, None, None)

    def call(self, th, k, op, mine, stack):
        c = catalog.CALLS[op["call"]]
        p = op["p"]
        how, tgt = op["how"], op["tgt"]
        if tgt not in mine:
            return
        if how == "explicit" and not c.takes_model:
            how = "with"
        if how == "current":
            if not stack:
                return
            tgt = stack[-1]
        base = f"v{th}x{k}"
        go = self.caller(c, p, how, tgt, mine)
        want = self.reference(c, p, op)
        mode = op["mode"]
        if mode == "plain":
            self.guard(mine, stack, tgt, op, lambda: lib(op["call"], go, base))
        elif mode == "own-failure":
            self.own_failure(c, p, op, go, base, mine, stack, tgt)
        elif mode == "fault":
            self.one(mine, stack, tgt, op, go, base + "f", op["nth"])
        else:
            for n in range(1, op["max"] + 1):
                if not self.one(mine, stack, tgt, op, go, f"{base}f{n}_", n):
                    break
        # a new component after that
        name = base + "again"
        m = mine[tgt]
        old = set(m.named_vars)
        self.guard(mine, stack, tgt, op, lambda: lib(op["call"], go, name))
        new = [n for n in m.named_vars if n not in old]
        got = describe(m, new, name, m.prefix + "::" if m.prefix else "")
        self.ctx.checks += 1
        if got != want:
            raise Violation(
                "different-variables",
                f"{op['call']} after {mode}: added {got}, a first-time call "
                f"adds {want}",
            )
        self.ctx.nontrivial = True
        if self.nth == 1:
            self.ctx.log(op["call"], how, mode, len(got))

    def caller(self, c, p, how, tgt, mine):
        def go(name):
            inp = c.inputs(p)
            if how == "explicit":
                c.call(self.w, p, inp, name=name, model=mine[tgt])
            elif how == "with":
                with mine[tgt]:
                    c.call(self.w, p, inp, name=name)
            else:
                c.call(self.w, p, inp, name=name)

        return go

    def reference(self, c, p, op):
        """What a first-time call adds to an empty model."""
        act = MODEL_MANAGER.active_contexts
        keep = list(act)
        del act[:]
        try:
            with pm.Model() as m:
                lib(op["call"], c.call, self.w, p, c.inputs(p), name="@first@")
            return describe(m, list(m.named_vars), "@first@", "")
        finally:
            act[:] = keep

    def own_failure(self, c, p, op, go, base, mine, stack, tgt):
        """The caller's own mistake: a name that is already taken."""
        if not c.prior:
            return

        def thunk():
            lib(op["call"], go, base + "d")
            before = {n: snap(m) for n, m in mine.items()}
            try:
                go(base + "d")
            except ValueError:
                pass
            except Exception as e:
                raise Violation(
                    "unexpected-exception",
                    f"{op['call']} with a taken name: {type(e).__name__}: {e}",
                )
            else:
                raise Violation("accepted-taken-name", op["call"])
            for n, m in mine.items():
                d = diff(before[n], snap(m))
                if d:
                    raise Violation("variable-touched", f"{op['call']}: {n} {d}")

        self.ctx.fault("taken-name")
        self.guard(mine, stack, tgt, op, thunk)

    def one(self, mine, stack, tgt, op, go, name, nth):
        fired = []

        def thunk():
            with fault(nth, op["exc"]) as plan:
                try:
                    go(name)
                except FAULTS[op["exc"]]:
                    if plan.fired is None:
                        raise
                except Exception as e:
                    # the fault may surface as another error
                    if plan.fired is None:
                        raise Violation(
                            "unexpected-exception",
                            f"{op['call']}: {type(e).__name__}: {e}",
                        )
            fired.append(plan.fired)

        self.guard(mine, stack, tgt, op, thunk)
        if fired[0]:
            self.ctx.fault("failing-call:" + op["exc"])
            if self.nth == 1:
                self.ctx.log("fired", fired[0])
            self.ctx.state(op["call"], op["how"], len(stack), fired[0])
        return bool(fired[0])

    def guard(self, mine, stack, tgt, op, thunk):
        act = MODEL_MANAGER.active_contexts
        before = [id(m) for m in act]
        snaps = {n: snap(m) for n, m in mine.items()}
        thunk()
        self.ctx.checks += 1
        after = [id(m) for m in MODEL_MANAGER.active_contexts]
        if after != before:
            raise Violation(
                "context-stack-changed",
                f"{op['call']} ({op['how']}, {op['mode']}): depth "
                f"{len(before)} before, {len(after)} after",
            )
        want = mine[stack[-1]] if stack else None
        cur = pm.modelcontext(None) if stack else None
        if cur is not want:
            raise Violation("wrong-current-model", op["call"])
        up, m = [], mine[tgt].parent
        while m is not None:
            up += [n for n, x in mine.items() if x is m]
            m = m.parent
        for n, m in mine.items():
            s = snap(m)
            d = diff(snaps[n], s)
            if d:
                raise Violation(
                    "variable-touched", f"{op['call']}: {d} of model {n}"
                )
            if n in up:
                # a nested model's variables are its ancestors' as well
                new = set(s["named"]) - set(snaps[n]["named"])
                add = set(snap(mine[tgt])["named"]) - set(snaps[tgt]["named"])
                if new != add:
                    raise Violation(
                        "wrong-model",
                        f"{op['call']} directed at {tgt}: its ancestor {n} got "
                        f"{sorted(k for k, _ in new ^ add)}",
                    )
            elif n != tgt and s != snaps[n]:
                raise Violation(
                    "wrong-model",
                    f"{op['call']} directed at {tgt} added to {n}: "
                    f"{[k for k in m.named_vars if (k, id(m.named_vars[k])) not in snaps[n]['named']]}",
                )


def run(scn, ctx):
    r = Run(ctx, scn)
    ctx.cov("threads%d" % len(scn["progs"]))
    if len(scn["progs"]) == 1:
        r.thread(0, scn["progs"][0])
    else:
        run_threads(
            ctx,
            scn,
            [
                (lambda t=t, p=p: r.thread(t, p))
                for t, p in enumerate(scn["progs"])
            ],
        )
