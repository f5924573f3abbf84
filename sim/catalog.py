"""Every kind of call a user makes, behind one interface.

A call is described by JSON parameters.  `inputs` makes the objects a caller
would hand over, `call` makes the call, `value` turns what came back into
numbers.  Nothing in here knows how the package works inside."""

import numpy as np
import pymc as pm
import pytensor
import pytensor.tensor as pt

from . import kepgen
from .kepgen import sig6
from .session import PLAIN


def box(kind, v, dtype=float):
    a = np.array(v, dtype=dtype)
    if kind == "shared":
        return pytensor.shared(a)
    if kind == "tensor":
        return pt.as_tensor_variable(a)
    if kind == "list":
        return a.tolist()
    if kind == "float" and a.ndim == 0:
        return float(a)
    return a


def pick(rng, *extra):
    return rng.choice(["shared", "array", "array", "tensor"] + list(extra))


def run_graph(outs):
    f = pytensor.function([], list(outs), mode=PLAIN, on_unused_input="ignore")
    return [np.array(x) for x in f()]


def model_value(model):
    """Everything a sampler would see of a model at its starting point."""
    ip = model.initial_point(random_seed=0)
    f = pytensor.function(
        model.value_vars, model.logp(), mode=PLAIN, on_unused_input="ignore"
    )
    out = [np.array([float(len(model.named_vars))])]
    for k in sorted(ip):
        out.append(np.atleast_1d(np.array(ip[k], float)).ravel())
    out.append(np.array([float(f(**ip))]))
    return out


class Call:
    name = ""
    component = False  # registers citations / adds variables
    prior = False  # adds variables
    takes_model = False
    slow = False

    def cites(self, p):
        return []

    def gen(self, rng):
        return {}

    def inputs(self, p):
        return {}

    def call(self, w, p, inp, name="x", model=None):
        raise NotImplementedError

    def value(self, w, p, inp, res, model=None):
        raise NotImplementedError

    def kw(self, model):
        return {} if model is None or not self.takes_model else {"model": model}


CALLS = {}


def register(cls):
    c = cls()
    CALLS[c.name] = c
    return cls


def tag_units(w, inp):
    """The caller attaches units once, to tensors made for that purpose."""
    cont = dict(inp)
    done = inp.setdefault("__tagged", {})
    for k, un in inp["__units"].items():
        if k not in done:
            x = pt.as_tensor_variable(inp[k]).copy()
            done[k] = w.units.with_unit(x, un)
        cont[k] = done[k]
    return cont


# ------------------------------------------------------------------ orbits
class _Orbit(Call):
    component = True
    takes_model = True
    npl = None
    transiting = False

    def gencfg(self, rng):
        cfg = kepgen.gen_cfg(rng, npl=self.npl, transiting=self.transiting)
        cfg["sincos"] = cfg.get("sincos", False)
        return cfg

    def cites(self, p):
        return ["astropy"]

    def gen(self, rng):
        cfg = self.gencfg(rng)
        vals = kepgen.gen_vals(rng, cfg)
        o = kepgen.ref_orbit(cfg, vals)
        p = dict(cfg=cfg, vals=vals)
        p["t"] = kepgen.gen_times(rng, o, rng.randint(2, 6))
        p["tk"] = pick(rng)
        p["q"] = rng.choice(["pos", "rv", "rvK", "planet", "star", "vel", "tr"])
        p["r"] = [sig6(rng.uniform(0.02, 0.2)) for _ in range(cfg["npl"])]
        p["rk"] = pick(rng)
        p["texp"] = rng.choice([None, sig6(10 ** rng.uniform(-3, -1))])
        p["K"] = [sig6(rng.uniform(1, 9)) for _ in range(cfg["npl"])]
        return p

    def inputs(self, p):
        import astropy.units as u

        cfg = p["cfg"]
        inp = {}
        for k, v in p["vals"].items():
            c = box(cfg["cont"].get(k, "shared"), v)
            inp[k] = c
        inp["__units"] = {k: u.Unit(x) for k, x in cfg["units"].items()}
        inp["t"] = box(p["tk"], p["t"])
        inp["r"] = box(p["rk"], p["r"])
        inp["K"] = box(p["rk"], p["K"])
        return inp

    def orbit(self, w, p, inp, model):
        cont = tag_units(w, inp)
        return kepgen.build_orbit(
            w, cont, p["cfg"], extra=self.kw(model)
        )

    def call(self, w, p, inp, name="x", model=None):
        o = self.orbit(w, p, inp, model)
        q = p["q"]
        t = inp["t"]
        if q == "pos":
            return list(o.get_relative_position(t))
        if q == "planet":
            return list(o.get_planet_position(t))
        if q == "star":
            return list(o.get_star_position(t))
        if q == "vel":
            return list(o.get_planet_velocity(t))
        if q == "rv":
            return [o.get_radial_velocity(t)]
        if q == "rvK":
            return [o.get_radial_velocity(t, K=inp["K"])]
        tt = t if hasattr(t, "type") else pt.as_tensor_variable(t)
        return [o.in_transit(tt, r=inp["r"], texp=p["texp"])]

    def value(self, w, p, inp, res, model=None):
        return run_graph(res)


@register
class Kepler(_Orbit):
    name = "KeplerianOrbit"


@register
class LightCurve(_Orbit):
    name = "LimbDarkLightCurve"
    transiting = True

    def cites(self, p):
        return ["astropy", "starry"]

    def gen(self, rng):
        p = super().gen(rng)
        p["u"] = [sig6(rng.uniform(0.1, 0.6)), sig6(rng.uniform(0, 0.3))]
        p["uk"] = rng.choice(["shared", "float", "tensor"])
        p["vec"] = rng.random() < 0.25
        p["uit"] = rng.choice([None, False])
        p["oversample"] = rng.choice([1, 3, 4, 7])
        p["order"] = rng.choice([0, 1, 2]) if p["oversample"] > 2 else 0
        p["texpk"] = rng.choice(["scalar", "vec"])
        return p

    def inputs(self, p):
        inp = super().inputs(p)
        if p["vec"]:
            inp["u"] = box(pick_kind(p["uk"]), p["u"])
        else:
            inp["u1"] = box(p["uk"], p["u"][0])
            inp["u2"] = box(p["uk"], p["u"][1])
        if p["texp"] is not None:
            if p["texpk"] == "vec":
                inp["texp"] = box(p["tk"], [p["texp"]] * len(p["t"]))
            else:
                inp["texp"] = p["texp"]
        return inp

    def lc(self, w, p, inp, model):
        if p["vec"]:
            return w.lc.LimbDarkLightCurve(inp["u"], **self.kw(model))
        return w.lc.LimbDarkLightCurve(inp["u1"], inp["u2"], **self.kw(model))

    def call(self, w, p, inp, name="x", model=None):
        o = self.orbit(w, p, inp, model)
        lc = self.lc(w, p, inp, model)
        kw = dict(orbit=o, r=inp["r"], t=inp["t"], use_in_transit=p["uit"])
        if p["texp"] is not None:
            kw.update(
                texp=inp["texp"], oversample=p["oversample"], order=p["order"]
            )
        return [lc.get_light_curve(**kw)]


def pick_kind(k):
    return "array" if k == "float" else k


@register
class Secondary(_Orbit):
    name = "SecondaryEclipseLightCurve"
    npl = 1
    transiting = True

    def cites(self, p):
        return ["astropy", "starry"]

    def gen(self, rng):
        p = super().gen(rng)
        p["r"] = p["r"][0]
        p["u"] = [0.3, 0.2]
        p["v"] = [0.1, 0.5]
        p["s"] = sig6(10 ** rng.uniform(-2, 0))
        return p

    def inputs(self, p):
        inp = super().inputs(p)
        inp["u"] = np.array(p["u"])
        inp["v"] = list(p["v"])
        inp["s"] = box(p["rk"], p["s"])
        return inp

    def call(self, w, p, inp, name="x", model=None):
        o = self.orbit(w, p, inp, model)
        lc = w.lc.SecondaryEclipseLightCurve(
            inp["u"], inp["v"], inp["s"], **self.kw(model)
        )
        return [lc.get_light_curve(orbit=o, r=inp["r"], t=inp["t"])]


@register
class TTV(_Orbit):
    name = "TTVOrbit"
    takes_model = True

    def gen(self, rng):
        from .props import c07

        s = c07.gen(rng, 0, "quick")
        cfg, vals = s["cfg"], s["init"]
        p = dict(cfg=cfg, vals=vals, t=vals["t"], q=rng.choice(["pos", "tr", "lc"]))
        p["r"] = [sig6(rng.uniform(0.02, 0.2)) for _ in range(cfg["npl"])]
        return p

    def inputs(self, p):
        import astropy.units as u

        from .props import c07

        cfg = p["cfg"]
        inp = {
            k: box(cfg["cont"].get(k, "shared"), v, dtype=_dtype(k))
            for k, v in p["vals"].items()
        }
        inp["__units"] = {k: u.Unit(x) for k, x in cfg["units"].items()}
        lists = inp["__lists"] = {}
        names = [c07.nm("tt", j) for j in range(cfg["npl"])]
        if not any(k in cfg["units"] for k in names):
            lists["tts"] = [inp[k] for k in names]
        if cfg["inds"] and cfg["indkind"] != "shared":
            lists["inds"] = [
                np.array(x) if cfg["indkind"] == "array" else list(x)
                for x in cfg["ind"]
            ]
        return inp

    def cites(self, p):
        return ["astropy", "starry"] if p["q"] == "lc" else ["astropy"]

    def call(self, w, p, inp, name="x", model=None):
        from .props import c07

        cont = tag_units(w, inp)
        if model is not None:
            with model:
                o = c07.build(w, cont, p["cfg"], {})
        else:
            o = c07.build(w, cont, p["cfg"], {})
        if p["q"] == "pos":
            return list(o.get_relative_position(inp["t"]))
        if p["q"] == "tr":
            return [o.in_transit(pt.as_tensor_variable(inp["t"]), r=0.1)]
        lc = w.lc.LimbDarkLightCurve(0.3, 0.2, **self.kw(model))
        return [lc.get_light_curve(orbit=o, r=np.array(p["r"]), t=inp["t"])]


def _dtype(k):
    return "int64" if k.startswith("ti") and k[2:].isdigit() else float


@register
class Simple(Call):
    name = "SimpleTransitOrbit"

    def gen(self, rng):
        from .props import c08

        s = c08.base(rng, 0, "quick")
        return dict(
            cfg=s["cfg"], vals=s["init"], q=rng.choice(["pos", "tr"])
        )

    def inputs(self, p):
        return {
            k: box(p["cfg"]["cont"].get(k, "shared"), v)
            for k, v in p["vals"].items()
        }

    def call(self, w, p, inp, name="x", model=None):
        from .props import c08

        o = c08.build(w, inp, p["cfg"], {})
        if p["q"] == "pos":
            return list(o.get_relative_position(inp["t"]))
        return [o.in_transit(pt.as_tensor_variable(inp["t"]), r=0.1)]

    def value(self, w, p, inp, res, model=None):
        return run_graph(res)


@register
class Interpolated(Call):
    """Phase interpolation of a light curve."""

    name = "InterpolatedLightCurve"
    component = True
    slow = True

    def gen(self, rng):
        return dict(
            P=sig6(rng.uniform(2, 6)),
            t0=sig6(rng.uniform(-1, 1)),
            b=sig6(rng.uniform(0, 0.8)),
            t=[sig6(rng.uniform(-9, 9)) for _ in range(4)],
            k=pick(rng),
            n=rng.choice([20, 50]),
        )

    def cites(self, p):
        return ["astropy", "starry"]

    def inputs(self, p):
        return dict(
            P=box(p["k"], p["P"]),
            t0=box(p["k"], p["t0"]),
            b=box(p["k"], p["b"]),
            t=box(p["k"], p["t"]),
            r=box(p["k"], 0.1),
        )

    def call(self, w, p, inp, name="x", model=None):
        o = w.orbits.KeplerianOrbit(period=inp["P"], t0=inp["t0"], b=inp["b"])
        lc = w.lc.LimbDarkLightCurve(0.3, 0.2)
        il = w.lc.InterpolatedLightCurve(lc, p["n"], num_planets=1)
        return [il.get_light_curve(orbit=o, r=inp["r"], t=inp["t"])]

    def value(self, w, p, inp, res, model=None):
        return run_graph(res)


# ----------------------------------------------------- small deterministic
@register
class Depth(Call):
    name = "get_ror_from_approx_transit_depth"
    component = True
    takes_model = True

    def cites(self, p):
        return ["starry"]

    def gen(self, rng):
        return dict(
            d=[sig6(10 ** rng.uniform(-5, -2)) for _ in range(2)],
            b=[sig6(rng.uniform(0, 0.9)) for _ in range(2)],
            k=pick(rng),
            jac=rng.random() < 0.5,
        )

    def inputs(self, p):
        return dict(d=box(p["k"], p["d"]), b=box(p["k"], p["b"]))

    def call(self, w, p, inp, name="x", model=None):
        lc = w.lc.LimbDarkLightCurve(0.3, 0.2, **self.kw(model))
        r = lc.get_ror_from_approx_transit_depth(
            inp["d"], inp["b"], jac=p["jac"]
        )
        return list(r) if p["jac"] else [r]

    def value(self, w, p, inp, res, model=None):
        return run_graph(res)


@register
class Interp(Call):
    name = "RegularGridInterpolator"

    def gen(self, rng):
        nd = rng.choice([1, 2])
        pts = [
            np.cumsum([sig6(rng.uniform(0.2, 1)) for _ in range(rng.randint(2, 5))]).tolist()
            for _ in range(nd)
        ]
        shape = [len(q) for q in pts]
        vals = [sig6(rng.uniform(-2, 2)) for _ in range(int(np.prod(shape)))]
        x = [[sig6(rng.uniform(0, 4)) for _ in range(nd)] for _ in range(4)]
        return dict(
            pts=pts,
            shape=shape,
            vals=vals,
            x=x,
            k=pick(rng),
            fill=rng.choice([None, 0.0, -7.5, "nan"]),
            fun=rng.random() < 0.4,
        )

    def inputs(self, p):
        return dict(
            pts=[box(p["k"], q) for q in p["pts"]],
            vals=box(p["k"], np.reshape(p["vals"], p["shape"])),
            x=box(p["k"], p["x"]),
        )

    def call(self, w, p, inp, name="x", model=None):
        fill = float("nan") if p["fill"] == "nan" else p["fill"]
        if p["fun"]:
            return [
                w.interp.regular_grid_interp(
                    inp["pts"], inp["vals"], inp["x"], fill_value=fill
                )
            ]
        g = w.interp.RegularGridInterpolator(
            inp["pts"], inp["vals"], fill_value=fill
        )
        return [g.evaluate(inp["x"])]

    def value(self, w, p, inp, res, model=None):
        return run_graph(res)


@register
class TrueAnomaly(Call):
    name = "get_true_anomaly"

    def gen(self, rng):
        n = rng.randint(1, 4)
        return dict(
            M=[sig6(rng.uniform(-7, 7)) for _ in range(n)],
            e=[sig6(rng.uniform(0, 0.9)) for _ in range(n)],
            k=pick(rng, "list"),
        )

    def inputs(self, p):
        return dict(M=box(p["k"], p["M"]), e=box(p["k"], p["e"]))

    def call(self, w, p, inp, name="x", model=None):
        return [w.kep.get_true_anomaly(inp["M"], inp["e"])]

    def value(self, w, p, inp, res, model=None):
        return run_graph(res)


@register
class Expected(Call):
    name = "compute_expected_transit_times"

    def gen(self, rng):
        n = rng.randint(1, 3)
        return dict(
            a=sig6(rng.uniform(-5, 5)),
            d=sig6(rng.uniform(5, 30)),
            P=[sig6(rng.uniform(1, 9)) for _ in range(n)],
            t0=[sig6(rng.uniform(-9, 9)) for _ in range(n)],
            k=rng.choice(["list", "array"]),
        )

    def inputs(self, p):
        return dict(P=box(p["k"], p["P"]), t0=box(p["k"], p["t0"]))

    def call(self, w, p, inp, name="x", model=None):
        return w.ttv.compute_expected_transit_times(
            p["a"], p["a"] + p["d"], inp["P"], inp["t0"]
        )

    def value(self, w, p, inp, res, model=None):
        return [np.array(x) for x in res]


@register
class Unit(Call):
    name = "with_unit/to_unit"

    def gen(self, rng):
        return dict(
            v=[sig6(rng.uniform(0.1, 5)) for _ in range(rng.randint(1, 3))],
            k=rng.choice(["array", "list"]),
            a=rng.choice(["day", "hour", "year"]),
            b=rng.choice(["day", "s", "min"]),
        )

    def inputs(self, p):
        return dict(v=box(p["k"], p["v"]))

    def call(self, w, p, inp, name="x", model=None):
        import astropy.units as u

        x = w.units.with_unit(inp["v"], u.Unit(p["a"]))
        assert w.units.has_unit(x)
        return [w.units.to_unit(x, u.Unit(p["b"])), x]

    def value(self, w, p, inp, res, model=None):
        return run_graph(res)


# -------------------------------------------------------------- estimators
class _Est(Call):
    def gen(self, rng):
        n = rng.randint(30, 60)
        P = rng.uniform(1.5, 3.5)
        ph = rng.uniform(0, 6)
        x = sorted({sig6(rng.uniform(0, 20)) for _ in range(n)})
        y = [
            sig6(2 * np.sin(2 * np.pi * t / P + ph) + 0.1 * rng.gauss(0, 1))
            for t in x
        ]
        if rng.random() < 0.5:
            o = list(range(len(x)))
            rng.shuffle(o)
            x, y = [x[i] for i in o], [y[i] for i in o]
        e = [sig6(rng.uniform(0.1, 0.3)) for _ in x]
        return dict(x=x, y=y, e=e, P=sig6(P), ye=rng.random() < 0.6)

    def inputs(self, p):
        inp = dict(x=np.array(p["x"]), y=np.array(p["y"]))
        inp["e"] = np.array(p["e"]) if p["ye"] else None
        inp["P"] = np.array([p["P"], p["P"] * 2.7])
        inp["t0"] = np.array([0.3, 0.7])
        return inp


@register
class SemiAmp(_Est):
    name = "estimate_semi_amplitude"

    def call(self, w, p, inp, name="x", model=None):
        return [
            w.est.estimate_semi_amplitude(
                inp["P"], inp["x"], inp["y"], inp["e"]
            ),
            w.est.estimate_semi_amplitude(
                inp["P"], inp["x"], inp["y"], inp["e"], t0s=inp["t0"]
            ),
        ]

    def value(self, w, p, inp, res, model=None):
        return [np.array(r) for r in res]


@register
class MinMass(_Est):
    name = "estimate_minimum_mass"

    def call(self, w, p, inp, name="x", model=None):
        return [
            w.est.estimate_minimum_mass(
                inp["P"], inp["x"], inp["y"], inp["e"], m_star=1.3
            )
        ]

    def value(self, w, p, inp, res, model=None):
        return [np.array(r.value) for r in res]


@register
class LombScargle(_Est):
    name = "lomb_scargle_estimator"

    def call(self, w, p, inp, name="x", model=None):
        return w.est.lomb_scargle_estimator(
            inp["x"],
            inp["y"],
            inp["e"],
            min_period=1.0,
            max_period=8.0,
            filter_period=6.0 if p["ye"] else None,
        )

    def value(self, w, p, inp, res, model=None):
        return [np.array(v) for v in res["periodogram"]] + [
            np.array([q["period"], q["period_uncert"], q["index"]])
            for q in res["peaks"]
        ]


@register
class Autocorr(_Est):
    name = "autocorr_estimator"

    def call(self, w, p, inp, name="x", model=None):
        return w.est.autocorr_estimator(
            inp["x"], inp["y"], min_period=0.5, max_period=10.0, oversample=1.0
        )

    def value(self, w, p, inp, res, model=None):
        return [np.array(v) for v in res["autocorr"]] + [
            np.array([q["period"]]) for q in res["peaks"]
        ]

    def gen(self, rng):
        p = super().gen(rng)
        # a regular cadence, so that the interpolation grid stays small
        p["x"] = [sig6(0.25 * i + 1.5) for i in range(len(p["x"]))]
        o = list(range(len(p["x"])))
        rng.shuffle(o)
        y = [np.sin(2 * np.pi * x / p["P"]) for x in p["x"]]
        p["x"] = [p["x"][i] for i in o]
        p["y"] = [sig6(y[i]) for i in o]
        return p


@register
class BLS(_Est):
    name = "bls_estimator"

    def gen(self, rng):
        p = super().gen(rng)
        p["y"] = [
            sig6(1 - 0.1 * ((x % p["P"]) < 0.25) + 0.01 * rng.gauss(0, 1))
            for x in p["x"]
        ]
        return p

    def call(self, w, p, inp, name="x", model=None):
        return w.est.bls_estimator(
            inp["x"], inp["y"], inp["e"], min_period=1.0, max_period=6.0
        )

    def value(self, w, p, inp, res, model=None):
        out = [np.array(res["bls"].period), np.array(res["bls"].power)]
        return out + [
            np.array([q["period"], q["index"]]) for q in res["peaks"]
        ]


# ------------------------------------------------------------------ priors
class _Prior(Call):
    component = True
    prior = True

    def gen(self, rng):
        return dict(shape=rng.choice([None, 1, 2, [3], [2, 2]]))

    def shape(self, p):
        s = p["shape"]
        return {} if s is None else {"shape": tuple(s) if isinstance(s, list) else s}

    def full(self, p, v):
        s = p["shape"]
        return np.full(() if s is None else s, float(v))

    def value(self, w, p, inp, res, model=None):
        return model_value(model)


@register
class Angle(_Prior):
    name = "angle"

    def gen(self, rng):
        p = super().gen(rng)
        p["iv"] = rng.choice([None, sig6(rng.uniform(-3, 3))])
        p["reg"] = rng.choice(["default", None, 2.5])
        return p

    def inputs(self, p):
        return {} if p["iv"] is None else {"iv": self.full(p, p["iv"])}

    def call(self, w, p, inp, name="x", model=None):
        kw = self.shape(p)
        if "iv" in inp:
            kw["initval"] = inp["iv"]
        if p["reg"] != "default":
            kw["regularization"] = p["reg"]
        return w.dist.angle(name, **kw)


@register
class UnitDisk(_Prior):
    name = "unit_disk"

    def gen(self, rng):
        p = super().gen(rng)
        p["iv"] = rng.random() < 0.6
        return p

    def inputs(self, p):
        if not p["iv"]:
            return {}
        return {"iv": np.array([self.full(p, 0.3), self.full(p, -0.6)])}

    def call(self, w, p, inp, name="x", model=None):
        kw = self.shape(p)
        if "iv" in inp:
            kw["initval"] = inp["iv"]
        return w.dist.unit_disk(name, name + "_y", **kw)


@register
class QuadLD(_Prior):
    name = "quad_limb_dark"

    def cites(self, p):
        return ["kipping13"]

    def gen(self, rng):
        return dict(
            shape=None, iv=rng.random() < 0.6, old=rng.random() < 0.2
        )

    def inputs(self, p):
        return {"iv": np.array([0.3, 0.2])} if p["iv"] else {}

    def call(self, w, p, inp, name="x", model=None):
        kw = self.shape(p)
        if "iv" in inp:
            kw["initval"] = inp["iv"]
        f = w.dist.QuadLimbDark if p["old"] else w.dist.quad_limb_dark
        return f(name, **kw)


@register
class Impact(_Prior):
    name = "impact_parameter"

    def gen(self, rng):
        n = rng.choice([None, 1, 2])
        return dict(
            shape=None,
            n=n,
            iv=rng.choice([None, 0.3]),
            k=pick(rng),
            old=rng.random() < 0.2,
        )

    def inputs(self, p):
        v = 0.1 if p["n"] is None else [0.1, 0.2][: p["n"]]
        out = {"ror": box(p["k"], v)}
        if p["iv"] is not None:
            out["iv"] = np.array(p["iv"]) + np.zeros(np.shape(v))
        return out

    def call(self, w, p, inp, name="x", model=None):
        kw = {}
        if "iv" in inp:
            kw["initval"] = inp["iv"]
        f = w.dist.ImpactParameter if p["old"] else w.dist.impact_parameter
        return f(name, inp["ror"], **kw)


class _Ecc(_Prior):
    takes_model = True

    def gen(self, rng):
        p = super().gen(rng)
        b = rng.choice([(None, None), (None, None), (0.1, None), (None, 0.7), (0.1, 0.6)])
        p["lower"], p["upper"] = b
        p["fixed"] = rng.random() < 0.5
        p["obs"] = rng.random() < 0.25
        p["iv"] = rng.random() < 0.3
        return p

    def inputs(self, p):
        if p["obs"]:
            return {"obs": self.full(p, 0.3)}
        if p["iv"]:
            return {"iv": self.full(p, 0.4)}
        return {}

    def kwargs(self, p, inp, model):
        kw = dict(self.shape(p), fixed=p["fixed"], **self.kw(model))
        for k in ("lower", "upper"):
            if p[k] is not None:
                kw[k] = p[k]
        if "obs" in inp:
            kw["observed"] = inp["obs"]
        if "iv" in inp:
            kw["initval"] = inp["iv"]
        return kw


@register
class Kipping(_Ecc):
    name = "kipping13"

    def cites(self, p):
        return ["kipping13b"]

    def gen(self, rng):
        p = super().gen(rng)
        p["long"] = rng.choice([None, True, False])
        return p

    def call(self, w, p, inp, name="x", model=None):
        return w.ecc.kipping13(
            name, long=p["long"], **self.kwargs(p, inp, model)
        )


@register
class VanEylen(_Ecc):
    name = "vaneylen19"

    def cites(self, p):
        return ["vaneylen19"]

    def gen(self, rng):
        p = super().gen(rng)
        p["multi"] = rng.random() < 0.5
        return p

    def call(self, w, p, inp, name="x", model=None):
        return w.ecc.vaneylen19(
            name, multi=p["multi"], **self.kwargs(p, inp, model)
        )


COMPONENTS = [n for n, c in CALLS.items() if c.component]
PRIORS = [n for n, c in CALLS.items() if c.prior]
DETERMINISTIC = [n for n, c in CALLS.items() if not c.prior]


def gen_call(rng, names):
    n = rng.choice(names)
    return dict(call=n, p=CALLS[n].gen(rng))


def same(a, b, rtol=1e-12, atol=0.0):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return False
        if not np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True):
            return False
    return True


def fresh_value(w, c, p):
    """The answer of a call made alone in a quiet process."""
    inp = c.inputs(p)
    if c.prior:
        with pm.Model() as m:
            res = c.call(w, p, inp)
        return c.value(w, p, inp, res, m)
    res = c.call(w, p, inp)
    return c.value(w, p, inp, res)
