"""Long-lived objects over updatable inputs, driven through a history.

A session owns containers (PyTensor shared variables or constants), objects
of the package built on them, and a plain dictionary of the values they hold
now.  Every answer is compared with the reference model evaluated from that
dictionary."""

import copy
import json

import cloudpickle
import numpy as np
import pytensor
import pytensor.tensor as pt
from pytensor.compile.mode import Mode

from .core import FAULTS, INJECTED, HarnessError, Violation, fault

PLAIN = Mode("py", optimizer=None)
OPT = Mode("py", optimizer="fast_compile")


def compile_(outs, inputs=(), opt=False):
    return pytensor.function(
        list(inputs),
        list(outs),
        mode=OPT if opt else PLAIN,
        on_unused_input="ignore",
    )


def arr(x):
    return np.array(x, dtype=float)


DTYPES = {"f4": np.float32, "i8": np.int64}
INTS = ("period", "a", "t0", "t_periastron", "m_star", "r_star", "rho_star",
        "b", "omega", "Omega", "K", "t")


def gen_dtypes(rng, cfg, names, ints=True):
    """Some inputs come as whole or single-precision numbers."""
    cfg["dt"] = {}
    if rng.random() < 0.7:
        return
    held = set(cfg.get("units", ()))
    held |= {"m_planet"} if cfg.get("mpl_kw") else set()
    held |= {"rho_star"} if cfg.get("rho_kw") else set()
    for a in sorted(names):
        if rng.random() < 0.4:
            whole = ints and a in INTS and a not in held
            cfg["dt"][a] = rng.choice(["f4", "i8"]) if whole else "f4"
    if "duration" in names:
        # the conversion of durations is as precise as its inputs
        for a in ("period", "duration", "b", "ror", "r_star"):
            if cfg["dt"].get(a) == "f4":
                del cfg["dt"][a]


def whole(name, cfg, v):
    """Numbers that an integer input can hold."""
    if cfg.get("dt", {}).get(name) != "i8":
        return v
    v = np.rint(np.asarray(v, float))
    if name in ("period", "a", "m_star", "r_star", "rho_star", "K"):
        v = np.maximum(v, 1.0)
    return v.tolist()


def lib(what, fn, *a, **k):
    """Call the code under test where the reference expects success."""
    try:
        return fn(*a, **k)
    except (Violation, HarnessError):
        raise
    except INJECTED:
        raise
    except BaseException as e:
        if type(e).__name__ == "Timeout":
            raise
        raise Violation(
            "unexpected-exception",
            f"{what}: {type(e).__name__}: {str(e)[:500]}",
        )


def compare(ctx, what, got, want, atol, rtol=1e-9, mask=None, kind="wrong-value"):
    got = np.asarray(got, float)
    want = np.asarray(want, float)
    ctx.checks += 1
    ctx.logval(what, want if got.shape == want.shape else got)
    if got.shape != want.shape:
        raise Violation(
            "wrong-shape", f"{what}: got {got.shape}, expected {want.shape}"
        )
    atol = np.broadcast_to(np.asarray(atol, float), want.shape)
    with np.errstate(all="ignore"):
        ok = np.abs(got - want) <= atol + rtol * np.abs(want)
        ok |= np.isnan(got) & np.isnan(want)
        ok |= got == want
    if mask is not None:
        ok |= ~np.broadcast_to(mask, want.shape)
    if not ok.all():
        ix = np.argwhere(~ok)[0]
        ix = tuple(int(i) for i in ix)
        raise Violation(
            kind,
            f"{what}: at {list(ix)} got {got[ix]!r}, expected {want[ix]!r} "
            f"({int((~ok).sum())} of {ok.size} entries differ)",
        )


class Session:
    """`spec` is the property module: it knows how to build and to ask."""

    def __init__(self, ctx, spec, scn):
        self.ctx, self.spec, self.scn = ctx, spec, scn
        self.cfg = scn["cfg"]
        self.w = ctx.w
        self.opt = bool(scn["cfg"].get("opt"))
        self.vals = {
            k: self.round(k, v) for k, v in copy.deepcopy(scn["init"]).items()
        }
        self.drops = {}
        self.cont = {}
        self.objs = {}
        self.fns = {}
        self.raw = {}
        for name, v in self.vals.items():
            self.cont[name] = self.container(name, v)
        self.build("main", {})
        self.saved = None
        self.checkpoint()

    # -- containers
    def kind(self, name):
        return self.cfg["cont"].get(name, "shared")

    def container(self, name, v):
        kind = self.kind(name)
        a = self.cast(name, v)
        if name in self.cfg.get("dt", {}):
            self.ctx.cov("dtype." + self.cfg["dt"][name])
        if kind == "shared":
            c = self.raw[name] = pytensor.shared(a, name=name)
        elif kind == "tensor":
            c = pt.as_tensor_variable(a)
        elif kind == "float" and np.ndim(a) == 0:
            c = a.item() if self.dt(name) == "i8" else float(a)
        else:
            c = np.array(a)
        unit = self.cfg.get("units", {}).get(name)
        if unit is not None:
            import astropy.units as u

            c = lib(
                "with_unit",
                self.w.units.with_unit,
                pt.as_tensor_variable(c),
                u.Unit(unit),
            )
        return c

    def dt(self, name):
        return self.cfg.get("dt", {}).get(name)

    def cast(self, name, v):
        return arr(v).astype(DTYPES.get(self.dt(name), float))

    def round(self, name, v):
        """The value as its container holds it."""
        if self.dt(name) is None:
            return v
        if self.dt(name) == "i8" and not np.all(np.abs(arr(v)) < 1e15):
            return None  # (not even a number)
        with np.errstate(all="ignore"):
            return arr(np.rint(v) if self.dt(name) == "i8" else self.cast(name, v)).tolist()

    def set(self, values):
        for name, v in values.items():
            if self.kind(name) != "shared" or name not in self.raw:
                continue
            v = self.round(name, v)
            if v is None:
                continue
            self.vals[name] = v
            self.raw[name].set_value(self.cast(name, v))

    # -- objects
    def build(self, name, var):
        obj = lib(
            "building " + name, self.spec.build, self.w, self.cont, self.cfg, var
        )
        self.objs[name] = obj
        self.drops[name] = var
        for k in [k for k in self.fns if k[0] == name]:
            del self.fns[k]

    def checkpoint(self):
        blob = cloudpickle.dumps((self.raw, self.cont, self.objs))
        self.saved = (blob, copy.deepcopy(self.vals), dict(self.drops))

    def crash(self):
        blob, vals, drops = self.saved
        self.cont = self.objs = None
        self.fns = {}
        self.w.restart()
        self.raw, self.cont, self.objs = lib(
            "restoring", cloudpickle.loads, blob
        )
        self.vals = copy.deepcopy(vals)
        self.drops = dict(drops)

    # -- asking
    def ask(self, name, q, fresh=False):
        key = (name, json.dumps(q, sort_keys=True))
        fn = self.fns.get(key)
        what = f"{name}.{q['q']}{ {k: v for k, v in q.items() if k != 'q'} }"
        cont = self.literals(q)
        if fn is None or fresh:
            outs = lib(
                what,
                self.spec.ask,
                self.w,
                self.objs[name],
                cont,
                self.cfg,
                q,
            )
            fn = lib(what + " compile", compile_, outs, opt=self.opt)
            self.fns[key] = fn
        got = lib(what + " eval", fn)
        self.judge(what, name, q, got)
        self.ctx.nontrivial = True

    def joint(self, parts):
        """Several questions answered by one compiled function."""
        outs, lens = [], []
        for name, q in parts:
            o = lib(
                f"{name}.{q['q']}",
                self.spec.ask,
                self.w,
                self.objs[name],
                self.literals(q),
                self.cfg,
                q,
            )
            outs += list(o)
            lens.append(len(o))
        fn = lib("joint compile", compile_, outs, opt=self.opt)
        got = lib("joint eval", fn)
        for (name, q), n in zip(parts, lens):
            what = f"joint {name}.{q['q']}{ {k: v for k, v in q.items() if k != 'q'} }"
            self.judge(what, name, q, got[:n])
            got = got[n:]

    def literals(self, q):
        """The containers, some replaced by data given with the question."""
        if not q.get("lit"):
            return self.cont
        self.ctx.cov("literal." + q["as"])
        out = dict(self.cont)
        for k, v in q["lit"].items():
            v = arr(v).astype(DTYPES.get(q["as"], float))
            out[k] = v if v.ndim or q["as"] != "array" else float(v)
        return out

    def judge(self, what, name, q, got):
        keep = self.vals
        if q.get("lit"):
            self.vals = dict(
                keep,
                **{
                    k: arr(arr(v).astype(DTYPES.get(q["as"], float))).tolist()
                    for k, v in q["lit"].items()
                },
            )
        try:
            self.spec.judge(self, what, name, q, got)
        finally:
            self.vals = keep

    def refvals(self, name):
        drop = self.drops[name].get("drop", ())
        return {k: v for k, v in self.vals.items() if k not in drop}

    # -- the history
    def run(self):
        prev = "start"
        for op in self.scn["ops"]:
            k = op["op"]
            self.ctx.count("op." + k)
            self.ctx.log("op", k)
            self.ctx.state(self.spec.sig(self.cfg), prev, k, op.get("q", {}))
            prev = k
            if k == "set":
                self.set(op["v"])
            elif k == "ask":
                name = op.get("obj", "main")
                if name in self.objs:
                    self.ask(name, op["q"], op.get("fresh", False))
            elif k == "joint":
                parts = [p for p in op["parts"] if p[0] in self.objs]
                if parts:
                    self.joint(parts)
            elif k == "build":
                self.build(op["obj"], op.get("var", {}))
            elif k == "checkpoint":
                self.checkpoint()
            elif k == "crash":
                self.ctx.fault("process-crash")
                self.crash()
            elif k == "fault-ask":
                name = op.get("obj", "main")
                if name in self.objs:
                    self.faulted(
                        op,
                        lambda: self.spec.ask(
                            self.w,
                            self.objs[name],
                            self.literals(op["q"]),
                            self.cfg,
                            op["q"],
                        ),
                    )
            elif k == "fault-build":
                self.faulted(
                    op,
                    lambda: self.spec.build(
                        self.w, self.cont, self.cfg, op.get("var", {})
                    ),
                )
            elif k == "corrupt":
                # a bad value is used in a query and then repaired
                keep = {
                    n: self.vals[n]
                    for n in op["v"]
                    if n in self.vals and self.kind(n) == "shared"
                }
                self.set(op["v"])
                self.ctx.fault("corrupt-input")
                for (nm, qk), fn in list(self.fns.items()):
                    try:
                        fn()
                    except Exception:
                        self.ctx.count("query-failed-on-corrupt-input")
                        # the compiled operations of exoplanet_core (not under
                        # test) can't be reused after an error: their buffers
                        # for scalars come back as vectors
                        del self.fns[nm, qk]
                self.set(keep)
            elif k == "requery":
                # all cached functions again, in a given order
                keys = sorted(self.fns)
                rot = op.get("rot", 0)
                for nm, qk in keys[rot % max(1, len(keys)) :] + keys[
                    : rot % max(1, len(keys))
                ]:
                    self.ask(nm, json.loads(qk))
            else:
                raise HarnessError("unknown op " + k)

    def faulted(self, op, thunk):
        with fault(op["nth"], op["exc"]) as plan:
            try:
                thunk()
            except FAULTS[op["exc"]]:
                pass
            except Exception as e:
                if plan.fired is None:
                    raise Violation(
                        "unexpected-exception",
                        f"{op['op']}: {type(e).__name__}: {str(e)[:300]}",
                    )
        if plan.fired:
            self.ctx.fault("failing-call:" + op["exc"])
            self.ctx.log("fired", plan.fired)


def gen_history(rng, gen, cfg, vals, n):
    """Generic history; `gen` supplies set/times/query generators."""
    ops = []
    cur = copy.deepcopy(vals)
    saved = copy.deepcopy(cur)
    names = ["main"]

    def query():
        q = gen.gen_query(rng, cfg, cur)
        if hasattr(gen, "gen_literal") and rng.random() < 0.12:
            # asked about data of its own, not the containers'
            q["lit"] = gen.gen_literal(rng, cfg, cur, q)
            q["as"] = rng.choice(["array", "array", "f4"])
        return q

    def do_set():
        v = gen.gen_set(rng, cfg, cur)
        cur.update(v)
        ops.append(dict(op="set", v=v))

    ops.append(dict(op="ask", q=query()))
    for _ in range(n):
        k = rng.random()
        if k < 0.28:
            do_set()
        elif k < 0.62:
            ops.append(
                dict(
                    op="ask",
                    obj=rng.choice(names),
                    q=query(),
                    fresh=rng.random() < 0.25,
                )
            )
        elif k < 0.69:
            ops.append(dict(op="requery", rot=rng.randrange(8)))
        elif k < 0.72:
            parts = [
                [rng.choice(names), query()]
                for _ in range(rng.choice([2, 2, 3]))
            ]
            ops.append(dict(op="joint", parts=parts))
        elif k < 0.78:
            nm = rng.choice(["main", "o1", "o2"])
            ops.append(dict(op="build", obj=nm, var=gen.gen_var(rng, cfg)))
            if nm not in names:
                names.append(nm)
        elif k < 0.86:
            what = rng.choice(["fault-ask", "fault-build"])
            op = dict(
                op=what,
                nth=rng.choice([rng.randint(1, 12), rng.randint(1, 80)]),
                exc=rng.choice(sorted(FAULTS)),
            )
            if what == "fault-ask":
                op["q"] = query()
                op["obj"] = rng.choice(names)
            else:
                op["var"] = gen.gen_var(rng, cfg)
            ops.append(op)
        elif k < 0.90:
            ops.append(dict(op="checkpoint"))
            saved = copy.deepcopy(cur)
        elif k < 0.94:
            ops.append(dict(op="crash"))
            cur.clear()
            cur.update(copy.deepcopy(saved))
        else:
            ops.append(dict(op="corrupt", v=gen.gen_corrupt(rng, cfg, cur)))
    do_set()
    ops.append(dict(op="requery", rot=rng.randrange(8)))
    return ops
