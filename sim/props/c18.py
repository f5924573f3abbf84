"""C18: a unit tag is attached once, survives restarts, is always honoured."""

import astropy.units as u
import cloudpickle
import numpy as np
import pytensor
import pytensor.tensor as pt

from .. import kepgen
from ..catalog import run_graph
from ..core import FAULTS, Violation, fault
from ..kepgen import sig6
from ..session import lib
from ..threads import gen_sched, run_threads

PROP = "C18"
N = {"quick": 1400, "thorough": 50000}
RULE = (
    "seeded histories, run by one or two simulated threads over a shared pool "
    "of values (numbers, lists, arrays, constants, shared containers, "
    "expressions, integer data), attach units, attach them again, ask, convert, "
    "update, derive, build orbits in different units, are interrupted at the "
    "n-th call, and go through save, crash and restore; a table of which value "
    "holds which number and unit predicts every answer. "
    "Non-trivial: at least one answer compared."
)
REAL = ["exoplanet.units, exoplanet.orbits", "PyTensor evaluation in its Python mode", "astropy.units"]
STUB = ["compiled C code of PyTensor (not used)"]
ASSUME = ["faults hit calls made by the package's own code"]
STATES = "hash of (operation, kind of value, tagged or not, unit)"
SHRINK = ("ops", "progs.0", "progs.1", "orbits", "preempts")

FAMILIES = [
    ["day", "hour", "s", "year"],
    ["R_sun", "km", "AU", "R_jup"],
    ["M_sun", "kg", "M_earth", "M_jup"],
    ["g/cm^3", "kg/m^3", "M_sun/R_sun^3"],
    ["m/s", "km/s", "R_sun/day"],
]
KINDS = ["float", "int", "list", "array", "intarray", "const", "intconst", "shared", "expr", "f32"]


def gen_ops(rng, n, vals, threads=False):
    ops = []
    for _ in range(n):
        k = rng.random()
        v = rng.choice(vals)
        fam = rng.choice(FAMILIES)
        if k < 0.3:
            op = dict(op="tag", v=v, unit=rng.choice(fam))
            f = rng.random()
            if f < 0.3:
                op["fault"] = dict(
                    nth=rng.randint(1, 9), exc=rng.choice(sorted(FAULTS))
                )
        elif k < 0.5:
            op = dict(op="has", v=v)
        elif k < 0.78:
            op = dict(op="to", v=v, k=rng.randrange(9), bad=rng.random() < 0.12)
            if rng.random() < 0.2:
                op["fault"] = dict(
                    nth=rng.randint(1, 9), exc=rng.choice(sorted(FAULTS))
                )
        elif k < 0.88:
            op = dict(op="set", v=v, x=sig6(rng.uniform(0.1, 9)))
        elif k < 0.94 or threads:
            op = dict(op="derive", v=v, c=sig6(rng.uniform(0.5, 2)))
        else:
            op = dict(op=rng.choice(["save", "crash"]), v=v)
        ops.append(op)
    return ops


def gen(rng, i, tier):
    vals = []
    pool = []
    for k in range(rng.randint(3, 6)):
        vals.append("v%d" % k)
        n = rng.choice([None, 1, 3])
        pool.append(
            dict(
                name="v%d" % k,
                kind=rng.choice(KINDS),
                n=n,
                x=[sig6(rng.uniform(0.1, 9)) for _ in range(n or 1)],
            )
        )
    scn = dict(pool=pool)
    if rng.random() < 0.25:
        scn["progs"] = [gen_ops(rng, rng.randint(3, 8), vals, True) for _ in range(2)]
        scn["ops"] = gen_ops(rng, 4, vals)
        scn["instr"] = rng.random() < 0.4
    else:
        scn["ops"] = gen_ops(rng, rng.randint(6, 18), vals)
    scn["orbits"] = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        cfg = kepgen.gen_cfg(rng)
        cfg["units"], cfg["cont"] = {}, {}
        cfg.pop("mpl_kw", None)
        cfg.pop("rho_kw", None)
        cfg["sincos"] = False
        base = kepgen.gen_vals(rng, cfg)
        o = kepgen.ref_orbit(cfg, base)
        vs = []
        for _ in range(2):
            un = {
                a: rng.choice(kepgen.UNITS[a])
                for a in cfg["args"]
                if a in kepgen.UNITS and rng.random() < 0.75
            }
            vs.append(
                dict(
                    units=un,
                    cont={
                        a: rng.choice(["shared", "array", "const"])
                        for a in cfg["args"]
                    },
                    kw={
                        a: rng.random() < 0.3
                        for a in ("m_planet", "rho_star")
                        if a in un
                    },
                    fault=rng.choice([None, None, rng.randint(1, 60)]),
                    crash=rng.random() < 0.3,
                )
            )
        scn["orbits"].append(
            dict(
                cfg=cfg,
                base=base,
                variants=vs,
                t=kepgen.gen_times(rng, o, 4),
                exc=rng.choice(sorted(FAULTS)),
            )
        )
    scn["sched"] = gen_sched(rng)
    return scn


class Val:
    """What the table knows about one value."""

    def __init__(self, obj, num, unit=None, kind=""):
        self.obj, self.num, self.unit, self.kind = obj, num, unit, kind
        # a value another thread may be tagging right now
        self.maybe = []


class Run:
    def __init__(self, ctx, scn):
        self.ctx, self.w, self.scn = ctx, ctx.w, scn
        self.vals = {}
        self.threads = False
        for d in scn["pool"]:
            self.vals[d["name"]] = self.make(d)
        self.save()

    def make(self, d):
        kind = d["kind"]
        x = np.array(d["x"] if d["n"] else d["x"][0])
        if kind in ("int", "intarray", "intconst"):
            x = np.round(x).astype("int64") + 1
        if kind == "f32":
            x = x.astype("float32")
        num = np.array(x, float)
        if kind == "float" or kind == "int":
            o = x.item() if x.ndim == 0 else x.tolist()
        elif kind == "list":
            o = x.tolist() if x.ndim else [x.item()]
            num = np.array(o, float)
        elif kind in ("array", "intarray"):
            o = x
        elif kind in ("const", "intconst"):
            o = pt.as_tensor_variable(x)
        elif kind in ("shared", "f32"):
            o = pytensor.shared(x)
        else:
            o = pytensor.shared(x * 0.5) * 2.0
        return Val(o, num, None, kind)

    # -- durable state
    def save(self):
        self.saved = (
            cloudpickle.dumps({k: v.obj for k, v in self.vals.items()}),
            {k: (v.num.copy(), v.unit, v.kind) for k, v in self.vals.items()},
        )

    def crash(self):
        self.ctx.fault("process-crash")
        self.w.restart()
        objs = lib("restoring", cloudpickle.loads, self.saved[0])
        self.vals = {
            k: Val(objs[k], n.copy(), un, kd)
            for k, (n, un, kd) in self.saved[1].items()
        }

    # -- operations
    def step(self, op, th=0):
        ctx, U = self.ctx, self.w.units
        kind = op["op"]
        ctx.count(kind)
        if kind == "save":
            return self.save()
        if kind == "crash":
            return self.crash()
        v = self.vals.get(op["v"])
        if v is None:
            return
        ctx.state(kind, v.kind, v.unit, th)
        if not self.threads:
            ctx.log(kind, op["v"], v.unit)
        if kind == "tag":
            self.tag(op, v, th)
        elif kind == "has":
            # what other threads have under way may count already
            maybe = list(v.maybe)
            must = v.unit is not None
            got = lib("has_unit", U.has_unit, v.obj)
            self.judge_has(op["v"], v, got, must, maybe)
        elif kind == "to":
            self.to(op, v)
        elif kind == "set":
            if v.kind == "shared" and not self.threads:
                x = np.full(v.num.shape, op["x"])
                v.obj.set_value(x)
                v.num = np.array(x, float)
        elif kind == "derive":
            if v.kind in ("float", "int", "list", "array", "intarray"):
                return
            d = v.obj * op["c"]
            if lib("has_unit", U.has_unit, d):
                raise Violation("tag-out-of-nothing", f"{op['v']} * {op['c']}")
            self.number("derived", d, v.num * op["c"])

    def judge_has(self, name, v, got, must, maybe):
        self.ctx.checks += 1
        self.ctx.nontrivial = True
        if bool(got) != must and not (got and (maybe or v.maybe or v.unit)):
            raise Violation(
                "wrong-tag",
                f"{name} ({v.kind}): has_unit is {got}, tagged: {v.unit}",
            )

    def number(self, what, x, want):
        got = run_graph([pt.as_tensor_variable(x)])[0]
        self.ctx.checks += 1
        self.ctx.nontrivial = True
        if got.shape != want.shape or not np.allclose(
            got, want, rtol=1e-7 if "f32" in what else 1e-10, atol=0
        ):
            raise Violation(
                "wrong-number", f"{what}: {got.tolist()}, expected {want.tolist()}"
            )
        if not self.threads:
            self.ctx.logval("num", want)

    def tag(self, op, v, th):
        U = self.w.units
        unit = u.Unit(op["unit"])
        before = v.unit
        earlier = len(v.maybe)
        if before is None:
            v.maybe.append(op["unit"])
        f = op.get("fault")
        res = err = None
        fired = None
        if f:
            with fault(f["nth"], f["exc"]) as plan:
                try:
                    res = U.with_unit(v.obj, unit)
                except FAULTS[f["exc"]] as e:
                    if plan.fired is None:
                        raise
                    err = e
                except TypeError as e:
                    err = e
            fired = plan.fired
            if fired:
                self.ctx.fault("failing-call:" + f["exc"])
        else:
            try:
                res = self._tag(v.obj, unit)
            except TypeError as e:
                err = e
        if err is None and res is None:
            raise Violation("wrong-answer", "with_unit gave None")
        if err is not None and not fired and before is None and not (
            self.threads and (earlier or len(v.maybe) > 1)
        ):
            raise Violation("tag-refused", f"{op['v']} ({v.kind}): {err}")
        if fired and err is not None:
            # either tagged or untagged, and the number is what it was
            has = U.has_unit(v.obj)
            if before is None and has:
                if not self.threads:
                    self.resolve(op["v"], v, op["unit"])
            elif before is not None and not has:
                raise Violation("tag-lost", f"{op['v']} ({v.kind})")
            self.check_unit(op["v"], v)
            return
        if err is None:
            if v.unit is not None and (not self.threads or before is not None):
                raise Violation(
                    "tagged-twice", f"{op['v']} had {v.unit}, got {op['unit']}"
                )
            if res is v.obj:
                if v.unit is not None:
                    raise Violation(
                        "tagged-twice",
                        f"{op['v']} had {v.unit}, got {op['unit']}",
                    )
                v.unit = op["unit"]
                tgt = v
            else:
                # the caller's object was only read
                tgt = Val(res, v.num, op["unit"], v.kind)
                if v.kind in ("shared", "expr", "const"):
                    # a tensor of the right type is decorated itself
                    if not U.has_unit(res):
                        raise Violation("not-tagged", op["v"])
                if before is None and not self.threads and U.has_unit(v.obj):
                    raise Violation("tag-out-of-nothing", op["v"])
            if not self.threads:
                self.ask(op["v"] + " tagged", tgt)
                self.double(op, tgt)
                if tgt is not v:
                    self.vals[op["v"] + "'"] = tgt
        self.check_unit(op["v"], v)

    def _tag(self, o, unit):
        # (TypeError is a documented answer here)
        try:
            return self.w.units.with_unit(o, unit)
        except TypeError:
            raise
        except Exception as e:
            raise Violation(
                "unexpected-exception", f"with_unit: {type(e).__name__}: {e}"
            )

    def resolve(self, name, v, unit):
        v.unit = unit

    def double(self, op, tgt):
        """A second unit is refused and changes nothing."""
        try:
            self.w.units.with_unit(tgt.obj, u.Unit("kg" if op["unit"] != "kg" else "m"))
        except TypeError:
            pass
        else:
            raise Violation("tagged-twice", op["v"])
        self.ask(op["v"] + " tagged twice", tgt)

    def check_unit(self, name, v):
        if v.kind in ("float", "int"):
            return
        if not self.threads:
            self.ask(name, v)

    def ask(self, name, v):
        """Tag, number and a conversion of a value."""
        U = self.w.units
        got = lib("has_unit", U.has_unit, v.obj)
        self.ctx.checks += 1
        if bool(got) != (v.unit is not None):
            raise Violation(
                "wrong-tag",
                f"{name} ({v.kind}): has_unit is {got}, tagged: {v.unit}",
            )
        self.number(name + " " + v.kind, v.obj, v.num)
        if v.unit is not None:
            self.to(dict(v=name, k=1, bad=False), v)

    def to(self, op, v):
        U = self.w.units
        unit = v.unit
        if unit is None and v.maybe and self.threads:
            return
        fam = next((f for f in FAMILIES if unit in f), FAMILIES[op["k"] % 5])
        target = fam[op["k"] % len(fam)]
        if op["bad"] and unit is not None:
            target = FAMILIES[(FAMILIES.index(fam) + 1) % 5][0]
        f = op.get("fault")
        if f:
            with fault(f["nth"], f["exc"]) as plan:
                try:
                    U.to_unit(v.obj, u.Unit(target))
                except FAULTS[f["exc"]]:
                    if plan.fired is None:
                        raise
                except u.UnitConversionError:
                    pass
            if plan.fired:
                self.ctx.fault("failing-call:" + f["exc"])
        try:
            got = U.to_unit(v.obj, u.Unit(target))
        except u.UnitConversionError as e:
            if op["bad"] and unit is not None:
                return
            if self.threads and unit is None and v.maybe:
                return
            raise Violation("conversion-refused", f"{unit} to {target}: {e}")
        except Exception as e:
            raise Violation(
                "unexpected-exception", f"to_unit: {type(e).__name__}: {e}"
            )
        if op["bad"] and unit is not None:
            raise Violation("wrong-conversion", f"{unit} to {target} accepted")
        if self.threads and unit is None and v.maybe:
            return  # tagged meanwhile
        if unit is None:
            fac = 1.0
        else:
            fac = float((1.0 * u.Unit(unit)).to_value(u.Unit(target)))
        self.number(
            f"{op['v']} {v.kind} in {target} (from {unit})", got, v.num * fac
        )

    # -- orbits
    def orbit(self, d):
        w = self.w
        cfg, base = d["cfg"], d["base"]
        ref = None
        for var in d["variants"]:
            kw, conts = {}, {}
            extra = {}
            for a in cfg["args"]:
                x = np.array(base[a], float)
                un = var["units"].get(a)
                if un is not None:
                    f = float(u.Unit(kepgen.BASE_UNIT[a]).to(u.Unit(un)))
                    x = x * f
                kind = var["cont"][a]
                if kind == "shared":
                    c = pytensor.shared(x)
                elif kind == "const":
                    c = pt.as_tensor_variable(x)
                else:
                    c = x
                conts[a] = c
                if un is not None and var["kw"].get(a):
                    extra[a + "_units"] = u.Unit(un)
                elif un is not None:
                    c = lib("with_unit", w.units.with_unit, c, u.Unit(un))
                    if lib("has_unit", w.units.has_unit, c) is not True:
                        raise Violation("not-tagged", a)
                kw[a] = c
            tags = {a: w.units.has_unit(c) for a, c in kw.items()}

            def build():
                return w.orbits.KeplerianOrbit(**kw, **extra)

            if var["fault"]:
                with fault(var["fault"], d["exc"]) as plan:
                    try:
                        build()
                    except FAULTS[d["exc"]]:
                        if plan.fired is None:
                            raise
                if plan.fired:
                    self.ctx.fault("failing-call:" + d["exc"])
                    self.ctx.log("fired", plan.fired)
            if var["crash"]:
                blob = cloudpickle.dumps(kw)
                w.restart()
                self.ctx.fault("process-crash")
                kw = lib("restoring", cloudpickle.loads, blob)
            o = lib("KeplerianOrbit", build)
            for a, c in kw.items():
                if w.units.has_unit(c) != tags[a]:
                    raise Violation("wrong-tag", f"{a} after building an orbit")
            outs = [o.a, o.period, o.m_star, o.r_star, o.m_planet, o.rho_star]
            outs += list(o.get_relative_position(np.array(d["t"])))
            outs += [o.get_radial_velocity(np.array(d["t"]))]
            outs = [pt.as_tensor_variable(x) for x in outs]
            got = [np.array(x) for x in lib("evaluating", run_graph, outs)]
            R = kepgen.ref_orbit(dict(cfg, units={}), base)
            want = [R.a, R.period, R.m_star, R.r_star, R.m_planet]
            for nm, g, x in zip(
                ("a", "period", "m_star", "r_star", "m_planet"), got, want
            ):
                self.ctx.checks += 1
                self.ctx.nontrivial = True
                x = np.asarray(x, float)
                if not np.allclose(g, x, rtol=1e-6, atol=1e-12):
                    raise Violation(
                        "unit-not-honoured",
                        f"{nm} of the orbit is {g.tolist()}, expected "
                        f"{x.tolist()}; inputs in {var['units']}",
                    )
            if ref is None:
                ref = got
            else:
                for k, (g, x) in enumerate(zip(got, ref)):
                    # (axes of length one depend on what is known statically)
                    g, x = np.squeeze(g), np.squeeze(x)
                    s = max(1.0, float(np.max(np.abs(x))))
                    self.ctx.checks += 1
                    if g.shape != x.shape or not np.allclose(
                        g, x, rtol=1e-7, atol=1e-6 * s
                    ):
                        raise Violation(
                            "units-disagree",
                            f"output {k}: {g.tolist()} with {var['units']}, "
                            f"{x.tolist()} with {d['variants'][0]['units']}",
                        )
            self.ctx.logval("a", got[0])


def run(scn, ctx):
    r = Run(ctx, scn)
    if "progs" in scn:
        ctx.cov("threads")
        r.threads = True
        run_threads(
            ctx,
            scn,
            [
                (lambda t=t, p=p: [r.step(op, t) for op in p])
                for t, p in enumerate(scn["progs"])
            ],
        )
        r.threads = False
        for nm in sorted(r.vals):
            v = r.vals[nm]
            if v.unit is None and v.maybe and r.w.units.has_unit(v.obj):
                if v.kind in ("float", "int", "list", "array", "intarray"):
                    raise Violation("tag-out-of-nothing", nm)
                # an interrupted attempt went through
                v.unit = None
                v.kind = "unknown"
                continue
            v.maybe = []
            r.ask(nm, v)
    for op in scn["ops"]:
        if op.get("v") in r.vals and r.vals[op["v"]].kind == "unknown":
            continue
        v = r.vals.get(op.get("v"))
        if v is not None:
            v.maybe = []
        r.step(op)
    for nm in sorted(r.vals):
        if r.vals[nm].kind != "unknown":
            r.vals[nm].maybe = []
            r.ask(nm, r.vals[nm])
    for d in scn["orbits"]:
        r.orbit(d)
