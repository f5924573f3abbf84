"""C01: a model's acknowledgement lists exactly what its components need."""

import re

import cloudpickle
import pymc as pm

from .. import catalog
from ..core import FAULTS, Violation, fault
from ..session import lib
from ..threads import gen_sched, run_threads

PROP = "C01"
N = {"quick": 1400, "thorough": 40000}
RULE = (
    "seeded programs, run by one to three simulated threads, create nested and "
    "explicit models, build every kind of component in them, fail or are "
    "interrupted half-way, ship models to a restarted process, and read the "
    "acknowledgement at arbitrary points; every reading is compared with the "
    "set of components built. Non-trivial: at least one reading compared."
)
REAL = [
    "exoplanet.citations, every component that registers citations",
    "PyMC model contexts",
    "threads (real threads under the simulator's scheduler)",
]
STUB = ["no sampling", "PyTensor graphs are not compiled here"]
ASSUME = [
    "the works of a component whose construction failed may be listed",
    "switches between threads happen inside the package's own code, one line "
    "or one bytecode instruction at a time",
]
STATES = "hash of (operation, model kind, thread count) and of schedules"
SHRINK = (
    "progs.0", "progs.1", "progs.2", "preempts",
)

BASE = ["exoplanet", "arviz"]


def gen_prog(rng, th, nth, names):
    """A program is a list of operations on named models."""
    ops = []
    own = []
    stack = []
    n = rng.randint(5, 12)
    for i in range(n):
        k = rng.random()
        if not own or k < 0.18:
            nm = f"m{th}.{len(own)}"
            own.append(nm)
            ops.append(
                dict(
                    op="model",
                    name=nm,
                    enter=rng.random() < 0.6,
                    named=rng.random() < 0.3,
                )
            )
            if ops[-1]["enter"]:
                stack.append(nm)
        elif k < 0.6:
            tgt = rng.choice(own)
            if nth > 1 and rng.random() < 0.6:
                tgt = "shared"
            op = dict(op="build", **catalog.gen_call(rng, names))
            how = rng.choice(["current", "explicit", "with", "with"])
            if catalog.CALLS[op["call"]].prior and not (
                stack or how in ("explicit", "with")
            ):
                how = "with"
            op.update(how=how, tgt=tgt)
            if rng.random() < 0.2:
                op["fault"] = dict(
                    nth=rng.choice([1, 2, rng.randint(1, 12), rng.randint(1, 60)]),
                    exc=rng.choice(sorted(FAULTS)),
                )
            ops.append(op)
        elif k < 0.88:
            tgt = rng.choice(own + (["shared"] if nth > 1 else []))
            op = dict(
                op="read",
                tgt=tgt,
                how=rng.choice(["explicit", "with"]),
                width=rng.choice([None, 20, 79, 200]),
            )
            if rng.random() < 0.15:
                op["fault"] = dict(
                    nth=rng.randint(1, 14), exc=rng.choice(sorted(FAULTS))
                )
            ops.append(op)
        elif k < 0.95 and stack:
            ops.append(dict(op="pop"))
            stack.pop()
        elif nth == 1:
            ops.append(dict(op="ship", tgt=rng.choice(own)))
        else:
            ops.append(
                dict(
                    op="read", tgt=rng.choice(own), how="explicit", width=None
                )
            )
    return ops


# building anything that is not under test here keeps the histories short
NAMES = [
    n
    for n in catalog.CALLS
    if n not in ("bls_estimator", "autocorr_estimator", "lomb_scargle_estimator")
]
LIGHT = [
    "KeplerianOrbit",
    "LimbDarkLightCurve",
    "get_ror_from_approx_transit_depth",
    "quad_limb_dark",
    "kipping13",
    "vaneylen19",
    "angle",
]


def gen(rng, i, tier):
    nth = rng.choice([1, 1, 2, 2, 3])
    names = LIGHT if nth > 1 else NAMES
    return dict(
        progs=[gen_prog(rng, t, nth, names) for t in range(nth)],
        sched=gen_sched(rng),
        instr=nth > 1 and rng.random() < 0.35,
    )


CITE = re.compile(r"\\citep\{([^{}]*)\}")


class Run:
    def __init__(self, ctx, scn):
        self.ctx, self.w = ctx, ctx.w
        self.models = {"shared": pm.Model()}
        self.must = {"shared": set()}
        self.may = {"shared": set()}
        self.table = dict(self.w.citations.CITATIONS)
        self.nth = len(scn["progs"])

    def thread(self, th, prog):
        stack = []
        try:
            for k, op in enumerate(prog):
                self.step(th, k, op, stack)
        finally:
            while stack:
                self.models[stack.pop()].__exit__(None, None, None)

    def step(self, th, k, op, stack):
        kind = op["op"]
        ctx = self.ctx
        if kind == "model":
            m = pm.Model(name=op["name"].replace(".", "_") if op["named"] else "")
            self.models[op["name"]] = m
            self.must[op["name"]] = set()
            self.may[op["name"]] = set()
            if op["enter"]:
                m.__enter__()
                stack.append(op["name"])
        elif kind == "pop":
            if stack:
                self.models[stack.pop()].__exit__(None, None, None)
        elif kind == "build":
            self.build(th, k, op, stack)
        elif kind == "read":
            if op["tgt"] in self.models:
                self.read(op)
        elif kind == "ship":
            if op["tgt"] in self.models and not stack:
                ctx.fault("process-crash")
                try:
                    blob = cloudpickle.dumps(self.models[op["tgt"]])
                except Exception as e:
                    raise Violation("model-not-saved", str(e)[:300])
                self.w.restart()
                # every other model is lost with the process
                m = lib("restoring", cloudpickle.loads, blob)
                keep = op["tgt"]
                self.models = {keep: m, "shared": pm.Model()}
                self.must = {keep: self.must[keep], "shared": set()}
                self.may = {keep: self.may[keep], "shared": set()}
        if self.nth == 1:
            ctx.log(kind, op.get("call"), op.get("how"))
            ctx.state(kind, op.get("call"), op.get("how"), len(stack))
        ctx.count(kind)

    def build(self, th, k, op, stack):
        c = catalog.CALLS[op["call"]]
        p = op["p"]
        how, tgt = op["how"], op["tgt"]
        if tgt not in self.models:
            return
        if how == "explicit" and not c.takes_model:
            how = "with"
        if how == "current":
            if not stack:
                if c.prior:
                    return
                target = None
            else:
                target = stack[-1]
        else:
            target = tgt
        cites = set(c.cites(p))
        inp = c.inputs(p)
        name = f"v{th}_{k}"
        current = tgt if how == "with" else (stack[-1] if stack else None)

        def go():
            if how == "explicit":
                c.call(self.w, p, inp, name=name, model=self.models[tgt])
            elif how == "with":
                with self.models[tgt]:
                    c.call(self.w, p, inp, name=name)
            else:
                c.call(self.w, p, inp, name=name)

        # things built while evaluating belong to the current model as well
        if current is not None:
            self.may[current] |= cites
        if target is not None:
            self.may[target] |= cites
        f = op.get("fault")
        if f:
            with fault(f["nth"], f["exc"]) as plan:
                try:
                    go()
                except FAULTS[f["exc"]]:
                    if plan.fired is None:
                        raise
                except Exception as e:
                    if plan.fired is None:
                        raise Violation(
                            "unexpected-exception",
                            f"{op['call']}: {type(e).__name__}: {e}",
                        )
            if plan.fired:
                self.ctx.fault("failing-call:" + f["exc"])
                return
        else:
            lib(op["call"], go)
        if target is not None:
            self.must[target] |= cites

    def read(self, op):
        m = self.models[op["tgt"]]
        f = self.w.citations.get_citations_for_model
        kw = {} if op["width"] is None else {"width": op["width"]}

        def go():
            if op["how"] == "explicit":
                return f(model=m, **kw)
            with m:
                return f(**kw)

        if op.get("fault"):
            with fault(op["fault"]["nth"], op["fault"]["exc"]) as plan:
                try:
                    go()
                except FAULTS[op["fault"]["exc"]]:
                    if plan.fired is None:
                        raise
            if plan.fired:
                self.ctx.fault("failing-read:" + op["fault"]["exc"])
        # other threads may add while this one reads
        must0 = set(self.must[op["tgt"]])
        got = lib("get_citations_for_model", go)
        may1 = set(self.may[op["tgt"]])
        self.judge(op, got, must0, may1)
        if self.nth == 1:
            again = lib("get_citations_for_model", go)
            if again != got:
                raise Violation("reading-changes-answer", op["tgt"])

    def judge(self, op, got, must, may):
        ctx = self.ctx
        ctx.checks += 1
        ctx.nontrivial = True
        if not (
            isinstance(got, tuple)
            and len(got) == 2
            and all(isinstance(x, str) for x in got)
        ):
            raise Violation("wrong-answer", f"{got!r:.200}")
        txt, bib = got
        if txt == "" and bib == "":
            if must:
                raise Violation(
                    "missing-citation",
                    f"{op['tgt']}: nothing listed, expected {sorted(must)}",
                )
            ctx.log("read", "empty")
            return
        listed = []
        rest = bib
        for key, (ids, entry) in sorted(
            self.table.items(), key=lambda kv: -len(kv[1][1])
        ):
            n = rest.count(entry.strip())
            if n:
                rest = rest.replace(entry.strip(), "")
                listed.append((key, n))
        listed = dict(listed)
        if rest.strip():
            raise Violation("unknown-entry", rest.strip()[:200])
        twice = [k for k, n in listed.items() if n != 1]
        if twice:
            raise Violation("listed-twice", f"{op['tgt']}: {twice} in bibliography")
        keys = set(listed)
        for k in BASE:
            if k not in keys:
                raise Violation("missing-citation", f"{op['tgt']}: {k} not listed")
        keys -= set(BASE)
        if not must <= keys:
            raise Violation(
                "missing-citation",
                f"{op['tgt']}: {sorted(must - keys)} not in the bibliography",
            )
        if not keys <= may:
            raise Violation(
                "extra-citation",
                f"{op['tgt']}: {sorted(keys - may)} in the bibliography",
            )
        if not keys and not may:
            raise Violation(
                "not-empty", f"{op['tgt']}: a model without components"
            )
        groups = CITE.findall("".join(txt.split()))
        cited = [k.strip() for g in groups for k in g.split(",")]
        want = sorted(
            i for k in list(keys) + BASE for i in self.table[k][0]
        )
        if sorted(cited) != want:
            raise Violation(
                "text-and-bibliography-differ",
                f"{op['tgt']}: cited {sorted(cited)}, expected {want}",
            )
        if "exoplanet" not in txt:
            raise Violation("wrong-text", txt[:200])
        if op["width"]:
            if max(len(x) for x in txt.split("\n")) > op["width"]:
                raise Violation("too-wide", txt[:200])
        if self.nth == 1:
            ctx.log("read", sorted(keys))

    def final(self):
        for nm in sorted(self.models):
            self.read(dict(tgt=nm, how="explicit", width=79))
            self.ctx.log("final", nm, sorted(self.must[nm]))
        if dict(self.w.citations.CITATIONS) != self.table:
            raise Violation("table-changed", "the published table changed")


def run(scn, ctx):
    r = Run(ctx, scn)
    ctx.cov("threads%d" % len(scn["progs"]))
    if len(scn["progs"]) == 1:
        r.thread(0, scn["progs"][0])
    else:
        run_threads(
            ctx,
            scn,
            [
                (lambda t=t, p=p: r.thread(t, p))
                for t, p in enumerate(scn["progs"])
            ],
        )
    r.final()
