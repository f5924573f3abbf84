"""Observation streams for C10 and C11: one time series, one model.

A stream is a configuration of one of the session modules (orbits, light
curves, simple orbits, interpolation tables) with a query whose answer has one
row per timestamp (or per coordinate)."""

import copy

import numpy as np

from . import kepgen
from .props import c05, c06, c07, c08, c09
from .session import compile_, lib

KINDS = {
    "kepler": c05,
    "lc": c06,
    "ilc": c06,
    "ttv": c07,
    "simple": c08,
    "interp": c09,
}


def axis(kind):
    return "x" if kind == "interp" else "t"


def more(rng, kind, cfg, init, n):
    """n timestamps (coordinates) for a stream."""
    m = KINDS[kind]
    if kind == "interp":
        return m.gen_coords(rng, cfg, init, n)
    if kind in ("lc", "ilc", "simple"):
        return m.times(rng, cfg, init, n)
    o = (kepgen.ref_orbit if kind == "kepler" else c07.refo)(cfg, init)
    return kepgen.gen_times(rng, o, n)


def gen(rng, n, kinds=None):
    kind = rng.choice(
        kinds
        or ["kepler"] * 4 + ["lc"] * 6 + ["ttv"] * 2 + ["simple"] * 2
        + ["interp"] * 2 + ["ilc"]
    )
    m = KINDS[kind]
    while True:
        s = getattr(m, "base", m.gen)(rng, 0, "quick")
        cfg, init = s["cfg"], s["init"]
        if kind == "ilc" and (
            cfg["orbit"] != "kepler"
            or cfg["lck"] == "secondary"
            or cfg["texp"] == "vector"
            or "t_periastron" in cfg["args"]
            or (cfg["npl"] > 1 and "t0" in cfg["scalars"])
            or any(
                cfg["npl"] == 1 and np.ndim(v)
                for k, v in init.items()
                if k in cfg["args"]
            )
            or (cfg["npl"] > 1 and "t0" not in cfg["args"])
        ):
            continue
        break
    init[axis(kind)] = more(rng, kind, cfg, init, n)
    f = m.gen_texp if kind in ("lc", "ilc") else None
    if cfg.get("texp") == "vector":
        if f:
            init["texp"] = f(rng, cfg, n)
        elif kind == "simple":
            init["texp"] = [m.val(rng, "texp", cfg) for _ in range(n)]
        else:
            init["texp"] = [
                kepgen.gen_value(rng, "texp", cfg) for _ in range(n)
            ]
        cfg["cont"]["texp"] = "shared"
    cfg["cont"].pop(axis(kind), None)
    while True:
        q = m.gen_query(rng, cfg, init)
        if q["q"] in ("attrs", "jac", "timing", "mid", "ror", "window"):
            continue
        if kind == "ilc":
            q["uit"] = None
            q["ilc"] = rng.choice([30, 60, 100])
        q.pop("pad", None)
        q.pop("grid", None)
        if q.get("ts") == "scalar":
            q.pop("ts")
        break
    return dict(kind=kind, cfg=cfg, init=init, q=q)


def vector_texp(st):
    return st["cfg"].get("texp") == "vector" and st["q"].get("texp")


def is_index(st):
    return st["q"]["q"] == "in_transit"


class Evaluator:
    """The model of a stream, built on its own containers."""

    def __init__(self, w, st):
        import pytensor
        import pytensor.tensor as pt

        self.w, self.st = w, st
        self.m = KINDS[st["kind"]]
        self.cfg = copy.deepcopy(st["cfg"])
        self.fn = None
        self.raw, self.cont = {}, {}
        for name, v in st["init"].items():
            kind = self.cfg["cont"].get(name, "shared")
            a = np.array(v, dtype=float)
            if kind == "shared":
                c = self.raw[name] = pytensor.shared(a, name=name)
            elif kind == "tensor":
                c = pt.as_tensor_variable(a)
            elif kind == "float" and a.ndim == 0:
                c = float(a)
            else:
                c = a
            unit = self.cfg.get("units", {}).get(name)
            if unit is not None:
                import astropy.units as u

                c = lib(
                    "with_unit",
                    w.units.with_unit,
                    pt.as_tensor_variable(c),
                    u.Unit(unit),
                )
            self.cont[name] = c
        self.obj = lib("build", self.m.build, w, self.cont, self.cfg, {})

    def graph(self):
        q = self.st["q"]
        if q.get("ilc"):
            o, lc = self.obj
            from exoplanet.light_curves.interpolated import (
                InterpolatedLightCurve,
            )

            ilc = InterpolatedLightCurve(
                lc, q["ilc"], num_planets=self.cfg["npl"]
            )
            kw = dict(orbit=o, r=self.cont["r"], t=self.cont["t"])
            if q.get("texp"):
                kw["texp"] = self.cont["texp"]
            return [ilc.get_light_curve(**kw)]
        return list(self.m.ask(self.w, self.obj, self.cont, self.cfg, q))

    def compile(self):
        self.fn = lib("compile", compile_, self.graph(), opt=bool(self.cfg.get("opt")))

    def set(self, **values):
        for k, v in values.items():
            self.raw[k].set_value(np.array(v, dtype=float))

    def rows(self, x, texp=None):
        """One row of numbers per entry of x (or the indices in transit)."""
        kw = {axis(self.st["kind"]): x}
        if texp is not None:
            kw["texp"] = texp
        self.set(**kw)
        return self.call(len(x))

    def call(self, n):
        if self.fn is None:
            self.compile()
        out = lib("eval", self.fn)
        if is_index(self.st):
            return np.asarray(out[0])
        try:
            return np.concatenate(
                [np.reshape(np.asarray(o, float), (n, -1)) for o in out],
                axis=1,
            )
        except ValueError:
            from .core import Violation

            raise Violation(
                "wrong-shape",
                f"{[np.shape(o) for o in out]} for {n} timestamps",
            )

    def restore(self, blob):
        import cloudpickle

        self.fn = None
        self.raw, self.cont, self.obj = lib(
            "restoring", cloudpickle.loads, blob
        )

    def save(self):
        import cloudpickle

        return cloudpickle.dumps((self.raw, self.cont, self.obj))
