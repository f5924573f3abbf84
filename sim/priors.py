"""Models made of the library's priors, their support and reference density.

A model is described by plain data (`gen`), built through the public
functions (`build`), and judged from the outside: `Probe` turns it into the
function  unconstrained vector -> (log-density, user-facing quantities,
log|det d quantities / d vector|), so that the density of the quantities the
user sees is known whatever variables the library samples in."""

import math

import numpy as np
from scipy import stats

from .core import Violation
from .session import PLAIN, lib

GEOMETRIC = ("angle", "unit_disk", "quad_limb_dark", "impact_parameter")
ECC = ("kipping13", "vaneylen19")

KIPPING = {None: None, True: (1.12, 0.1, 3.09, 0.3), False: (0.697, 0.4, 3.27, 0.3)}
KIPPING_FULL = (1.12, 0.1, 3.09, 0.3)
VANEYLEN = (0.049, 0.02, 0.26, 0.05)
FRAC = {False: (0.76, 0.2), True: (0.08, 0.08)}


def sig(x):
    return float("%.6g" % x)


def shapes(rng):
    return rng.choice([[], [], [], [1], [2], [3], [2, 2]])


def filled(shape, f):
    if not shape:
        return f()
    return [filled(shape[1:], f) for _ in range(shape[0])]


def gen_one(rng, kind, name):
    shape = shapes(rng)
    e = dict(kind=kind, name=name, shape=shape, int=rng.random() < 0.5, init=None)
    init = rng.random() < 0.6
    if kind == "angle":
        e["reg"] = rng.choice(["default", "default", None, 0.5, 3.0, 25.0])
        if init:
            e["init"] = filled(
                shape,
                lambda: sig(
                    rng.choice(
                        [
                            rng.uniform(-3.1, 3.1),
                            rng.uniform(-3.1, 3.1),
                            math.pi / 2,
                            -math.pi / 2,
                            3.14159,
                            -3.14159,
                            rng.uniform(-20, 20),
                        ]
                    )
                ),
            )
    elif kind == "unit_disk":
        if init:
            def pt():
                r, th = rng.choice([rng.random(), 0.98]), rng.uniform(-3.2, 3.2)
                return r * math.cos(th), r * math.sin(th)

            n = int(np.prod(shape, dtype=int))
            p = [pt() for _ in range(n)]
            e["init"] = [
                np.reshape([sig(q[k]) for q in p], shape).tolist() for k in (0, 1)
            ]
    elif kind == "quad_limb_dark":
        if init:
            n = int(np.prod(shape, dtype=int))
            q = [
                (rng.uniform(0.02, 0.97), rng.choice([rng.uniform(0.02, 0.97), 0.5]))
                for _ in range(n)
            ]
            e["init"] = [
                np.reshape(
                    [
                        sig(2 * math.sqrt(a) * b)
                        if k == 0
                        else sig(math.sqrt(a) * (1 - 2 * b))
                        for a, b in q
                    ],
                    shape,
                ).tolist()
                for k in (0, 1)
            ]
    elif kind == "impact_parameter":
        e["ror"] = rng.choice(["const", "const", "shared", "rv"])
        e["rorv"] = filled(
            shape, lambda: sig(rng.choice([rng.uniform(0.01, 0.3), rng.uniform(0.3, 2)]))
        )
        # the shape is taken from ror unless it is given
        e["scalar"] = bool(shape) and rng.random() < 0.3
        if e["scalar"]:
            e["rorv"] = sig(rng.uniform(0.01, 0.6))
        if init:
            e["init"] = filled(shape, lambda: sig(rng.uniform(0.02, 0.97)))
            if rng.random() < 0.3:
                e["init"] = sig(rng.uniform(0.02, 0.97))
    else:
        e["fixed"] = rng.random() < 0.5
        lo, hi = sig(rng.uniform(0.01, 0.3)), sig(rng.uniform(0.4, 0.97))
        e["lower"], e["upper"] = rng.choice(
            [[None, None], [None, hi], [lo, None], [lo, hi], [lo, hi], [0.0, hi], [lo, 1.0]]
        )
        a = 0.0 if e["lower"] is None else e["lower"]
        b = 1.0 if e["upper"] is None else e["upper"]
        if kind == "kipping13":
            e["long"] = rng.choice([None, True, True, False, False])
        else:
            e["multi"] = rng.random() < 0.5
        e["explicit"] = rng.random() < 0.3  # pass model=
        e["observed"] = rng.choice([None, None, None, "disk", "number", "array"])
        if e["observed"] == "array" and not shape:
            e["shape"] = shape = [2]
        if e["observed"] == "number":
            e["shape"] = shape = []
        if e["observed"] == "disk" or e["observed"] == "number" or e["observed"] == "array":
            e["obs"] = filled(shape, lambda: sig(rng.uniform(a + 0.01, b - 0.01)))
            if rng.random() < 0.15:
                # outside the bounds
                e["obs"] = filled(
                    shape, lambda: rng.choice([-0.1, 1.1, sig(a / 2), sig(0.5 * (b + 1))])
                )
        elif init:
            e["init"] = filled(
                shape, lambda: sig(a + (b - a) * rng.uniform(0.03, 0.97))
            )
    spell(rng, e)
    return e


def spell(rng, e):
    """Other spellings of the same prior."""
    if e.get("observed") or rng.random() < 0.75:
        return
    ways = []
    if e["init"] is not None and e["kind"] in GEOMETRIC:
        ways.append("testval")
    if e["kind"] in ("impact_parameter", "quad_limb_dark"):
        ways.append("old")
    if e["kind"] == "impact_parameter" and e["shape"] and not e["scalar"]:
        ways.append("dims")
    elif e["kind"] != "impact_parameter" and e["shape"] and e["init"] is not None:
        if e["kind"] in GEOMETRIC or e["lower"] is e["upper"] is None:
            ways.append("dims")
    if ways:
        e["spell"] = rng.choice(ways)


def shape_of(e):
    return tuple(e["shape"])


def shape_kw(e):
    s = shape_of(e)
    if not s:
        return {}
    if len(s) == 1 and e["int"]:
        return dict(shape=s[0])
    return dict(shape=s)


def init_kw(e):
    if e["init"] is None:
        return {}
    return dict(initval=np.array(e["init"], float) if np.ndim(e["init"]) else e["init"])


def add(w, e, m, env):
    """Call the library; returns [(label, tensor, scale of steps)]."""
    import pymc as pm
    import pytensor
    import pytensor.tensor as pt

    n = e["name"]
    kw = dict(shape_kw(e), **init_kw(e))
    how = e.get("spell")
    if how == "testval":
        kw["testval"] = kw.pop("initval")
    elif how == "dims":
        kw.pop("shape", None)
        kw["dims"] = tuple(f"{n}_dim{i}" for i in range(len(e["shape"])))
        m.add_coords({d: range(k) for d, k in zip(kw["dims"], e["shape"])})
    if e["kind"] == "angle":
        if e["reg"] != "default":
            kw["regularization"] = e["reg"]
        return [(n, w.dist.angle(n, **kw))]
    if e["kind"] == "unit_disk":
        x, y = w.dist.unit_disk(n + "x", n + "y", **kw)
        return [(n + "x", x), (n + "y", y)]
    if e["kind"] == "quad_limb_dark":
        f = w.dist.QuadLimbDark if how == "old" else w.dist.quad_limb_dark
        return [(n, f(n, **kw))]
    if e["kind"] == "impact_parameter":
        out = []
        v = np.array(e["rorv"], float)
        if e["ror"] == "const":
            ror = v if v.ndim else float(v)
        elif e["ror"] == "shared":
            ror = env[n] = pytensor.shared(v, name=n + "_ror")
        else:
            ror = pm.LogNormal(n + "_ror", np.log(v), 0.3, initval=v, shape=v.shape)
            out.append((n + "_ror", ror))
        if not e["scalar"]:
            kw.pop("shape", None)
        f = w.dist.ImpactParameter if how == "old" else w.dist.impact_parameter
        return out + [(n, f(n, ror, **kw))]
    for k in ("lower", "upper"):
        if e[k] is not None:
            kw[k] = e[k]
    if not e["fixed"]:
        kw["fixed"] = False
    if e["kind"] == "kipping13":
        if e["long"] is not None:
            kw["long"] = e["long"]
    elif e["multi"]:
        kw["multi"] = True
    out = []
    if e["observed"] is None:
        pass
    elif e["observed"] == "disk":
        # sqrt(e) cos w, sqrt(e) sin w in the unit disk, as users do
        v = np.array(e["obs"], float)
        kw.pop("shape", None)
        h = pm.Normal(n + "_h", 0, 1, initval=np.sqrt(np.abs(v)), shape=v.shape)
        env[n + "_h"] = h
        out.append((n + "_h", h))
        kw["observed"] = h**2 if v.ndim else h * h
    else:
        kw.pop("shape", None)
        kw["observed"] = (
            np.array(e["obs"], float) if np.ndim(e["obs"]) else float(e["obs"])
        )
    if e["explicit"]:
        kw["model"] = m
    f = getattr(w.ecc, e["kind"])
    r = f(n, **kw)
    if e["observed"] is None:
        out.append((n, r))
    if not e["fixed"]:
        names = (
            ("alpha", "beta")
            if e["kind"] == "kipping13"
            else ("sigma_gauss", "sigma_rayleigh", "frac")
        )
        out += [(f"{n}::{k}", m[f"{n}::{k}"]) for k in names]
    return out


def build(w, spec):
    import pymc as pm

    env, outs = {}, []
    with pm.Model() as m:
        for e in spec:
            outs += lib(e["kind"], add, w, e, m, env)
    return m, env, outs


# -- reference --------------------------------------------------------------
def beta_logpdf(x, a, b, lo, hi):
    with np.errstate(all="ignore"):
        v = stats.beta.logpdf(x, a, b)
        if lo is not None or hi is not None:
            lo = 0.0 if lo is None else lo
            hi = 1.0 if hi is None else hi
            mass = stats.beta.cdf(hi, a, b) - stats.beta.cdf(lo, a, b)
            if not mass > 1e-6:
                # the normalization is beyond double precision: no judgement
                return np.nan * v
            v = v - np.log(mass)
            v = np.where((x < lo) | (x > hi), -np.inf, v)
    return v


def mix_logpdf(x, s, r, f, lo, hi):
    lo = 0.0 if lo is None else lo
    hi = 1.0 if hi is None else hi
    with np.errstate(all="ignore"):
        v = np.logaddexp(
            np.log(1 - f) + stats.halfnorm.logpdf(x, scale=s),
            np.log(f) + stats.rayleigh.logpdf(x, scale=r),
        ) - np.log(hi - lo)
    return np.where((x < lo) | (x > hi), -np.inf, v)


def trunc_normal(x, mu, sd, lo=0.0, hi=np.inf):
    return stats.truncnorm.logpdf(x, (lo - mu) / sd, (hi - mu) / sd, loc=mu, scale=sd)


def reference(e, val, ror=None):
    """(log-density of the user-facing quantities, known up to a constant?)"""
    n = e["name"]
    if e["kind"] in ("unit_disk", "quad_limb_dark"):
        return 0.0
    if e["kind"] == "impact_parameter":
        out = 0.0
        r = np.array(e["rorv"], float)
        if e["ror"] == "shared":
            r = ror
        elif e["ror"] == "rv":
            mu, r = np.log(r), val[n + "_ror"]
            out += float(np.sum(stats.norm.logpdf(np.log(r), mu, 0.3) - np.log(r)))
        return out - float(np.sum(np.broadcast_to(np.log1p(r), np.shape(val[n]))))
    if e["observed"] is None:
        x = val[n]
        out = 0.0
    elif e["observed"] == "disk":
        h = val[n + "_h"]
        x = h**2
        out = float(np.sum(stats.norm.logpdf(h)))
    else:
        x = np.array(e["obs"], float)
        out = 0.0
    if e["kind"] == "kipping13":
        a0, asd, b0, bsd = KIPPING[e["long"]] or KIPPING_FULL
        if e["fixed"]:
            a, b = a0, b0
        else:
            a, b = val[n + "::alpha"], val[n + "::beta"]
            out += float(trunc_normal(a, a0, asd) + trunc_normal(b, b0, bsd))
        return out + float(np.sum(beta_logpdf(x, a, b, e["lower"], e["upper"])))
    s0, ssd, r0, rsd = VANEYLEN
    f0, fsd = FRAC[e["multi"]]
    if e["fixed"]:
        s, r, f = s0, r0, f0
    else:
        s, r, f = (val[f"{n}::{k}"] for k in ("sigma_gauss", "sigma_rayleigh", "frac"))
        out += float(
            trunc_normal(s, s0, ssd)
            + trunc_normal(r, r0, rsd)
            + trunc_normal(f, f0, fsd, 0.0, 1.0)
        )
    return out + float(np.sum(mix_logpdf(x, s, r, f, e["lower"], e["upper"])))


def in_support(e, val, ror=None):
    """Raise unless the quantities lie in the documented support."""
    n, eps = e["name"], 1e-12

    def bad(what, v):
        raise Violation(
            "outside-support", f"{e['kind']} {e['name']}: {what}: {v!r}"
        )

    for k, v in val.items():
        if not np.isfinite(v).all():
            bad("not a number", v)
    if e["kind"] == "angle":
        if (np.abs(val[n]) > math.pi + eps).any():
            bad("angle outside [-pi, pi]", val[n])
    elif e["kind"] == "unit_disk":
        if (val[n + "x"] ** 2 + val[n + "y"] ** 2 > 1 + eps).any():
            bad("outside the unit disk", (val[n + "x"], val[n + "y"]))
    elif e["kind"] == "quad_limb_dark":
        u1, u2 = val[n][0], val[n][1]
        # positive everywhere and decreasing towards the limb (Kipping 2013)
        if ((u1 + u2 > 1 + eps) | (u1 < -eps) | (u1 + 2 * u2 < -eps)).any():
            bad("unphysical limb darkening", val[n])
    elif e["kind"] == "impact_parameter":
        r = np.array(e["rorv"], float)
        if e["ror"] == "shared":
            r = ror
        elif e["ror"] == "rv":
            r = val[n + "_ror"]
        b = val[n]
        if ((b < -eps) | (b > (1 + r) * (1 + eps))).any():
            bad("outside [0, 1+ror]", (b, r))
    elif e["observed"] is None:
        lo = 0.0 if e["lower"] is None else e["lower"]
        hi = 1.0 if e["upper"] is None else e["upper"]
        if ((val[n] < lo - eps) | (val[n] > hi + eps)).any():
            bad(f"outside [{lo}, {hi}]", val[n])
    if e["kind"] in ECC and not e["fixed"]:
        for k, v in val.items():
            if "::" in k and (v < 0).any():
                bad("negative hyperparameter", (k, v))


def expected_shape(e, label):
    n, s = e["name"], shape_of(e)
    if e["kind"] == "quad_limb_dark":
        return (2,) + s
    if "::" in label:
        return ()
    if label == n + "_ror":
        return np.shape(e["rorv"])
    return s


def start_values(e):
    """What the user asked for, by label; None where nothing was asked."""
    n = e["name"]
    if e["init"] is None:
        return {}
    v = np.array(e["init"], float)
    if e["kind"] == "unit_disk":
        return {n + "x": v[0], n + "y": v[1]}
    if e["kind"] == "angle":
        return {n: np.arctan2(np.sin(v), np.cos(v))}
    if e["kind"] == "impact_parameter":
        return {n: np.broadcast_to(v, shape_of(e))}
    return {n: v}


class Probe:
    """Compiled view of one model."""

    def __init__(self, m, outs, jac=True):
        import pytensor.gradient
        import pytensor.tensor as pt

        self.names = [v.name for v in m.value_vars]
        self.shapes = {}
        self.labels = [k for k, _ in outs]
        ts = m.replace_rvs_by_values([pt.as_tensor_variable(t) for _, t in outs])
        self.m = m
        ip = lib("initial_point", m.initial_point, 1)
        self.ip = {k: np.asarray(ip[k], float) for k in self.names}
        vals = list(m.value_vars)
        self.dim = sum(v.size for v in self.ip.values())
        lp = lib("logp", m.logp)
        self.jac = jac
        rows = []
        if jac:
            self.odim = 0
            for (label, _), t in zip(outs, ts):
                flat = pt.flatten(t) if t.ndim else pt.shape_padleft(t)
                # the number of entries is known from the starting point
                n = int(np.prod(self._shape_at(m, t), dtype=int))
                for i in range(n):
                    self.odim += 1
                    g = pytensor.gradient.grad(
                        flat[i], vals, disconnected_inputs="ignore"
                    )
                    rows += list(g)
        self.nrow = len(rows) // max(1, len(vals))
        self.fn = lib(
            "compile", m.compile_fn, [lp] + list(ts) + rows,
            inputs=vals, mode=PLAIN, on_unused_input="ignore",
        )

    def _shape_at(self, m, t):
        f = m.compile_fn([t], inputs=list(m.value_vars), mode=PLAIN, on_unused_input="ignore")
        return np.shape(lib("eval", f, self.ip)[0])

    def __call__(self, x):
        with np.errstate(all="ignore"):
            out = lib("eval", self.fn, x)
        k = len(self.labels)
        val = {n: np.asarray(v, float) for n, v in zip(self.labels, out[1 : 1 + k])}
        ld = None
        if self.jac:
            rows = out[1 + k :]
            nv = len(self.names)
            J = np.array(
                [
                    np.concatenate(
                        [np.ravel(rows[r * nv + j]) for j in range(nv)]
                    )
                    for r in range(self.nrow)
                ]
            ).reshape(self.nrow, self.dim)
            if self.nrow == self.dim and self.dim:
                with np.errstate(all="ignore"):
                    ld = float(np.linalg.slogdet(J)[1])
            elif not self.dim:
                ld = 0.0
        return float(out[0]), val, ld
