"""C06: a long-lived transit light curve answers for its current inputs."""

import sys

import numpy as np
import pytensor.tensor as pt

from .. import kepgen, ref
from ..kepgen import sig6
from ..session import Session, compare, gen_dtypes, gen_history
from . import c05, c07, c08

PROP = "C06"
N = {"quick": 540, "thorough": 16000}
RULE = (
    "a seeded light curve (limb darkened transit of a Keplerian, transit "
    "timing or simple orbit, or a secondary eclipse) over updatable "
    "containers is driven through a seeded history of input updates, "
    "timestamp and exposure resizes, queries with every integration scheme "
    "and with and without skipping out-of-transit timestamps, shared and "
    "extra objects, failing calls, corrupt inputs, checkpoints and "
    "crash-restarts; every answer is compared with a direct surface integral "
    "over an independent orbit. Non-trivial: at least one answer compared."
)
REAL = [
    "exoplanet.light_curves.LimbDarkLightCurve, SecondaryEclipseLightCurve",
    "exoplanet.orbits (Keplerian, TTV, simple)",
    "exoplanet_core Kepler, contact-point and limb darkening ops",
    "PyTensor graphs compiled in Python mode",
    "cloudpickle save/restore",
]
STUB = c05.STUB
ASSUME = [
    "planets stay outside their star; secondary eclipses have one companion",
    "timestamps within 1e-9 days of a discontinuity of a simple orbit's depth "
    "are not judged",
]


def sig(cfg):
    return (cfg["orbit"], cfg["npl"], cfg["lck"], tuple(cfg["args"]))


def sub(cfg):
    return {"kepler": None, "ttv": c07, "simple": c08}[cfg["orbit"]]


def refo(cfg, vals):
    m = sub(cfg)
    return kepgen.ref_orbit(cfg, vals) if m is None else m.refo(cfg, vals)


def times(rng, cfg, vals, n):
    if cfg["orbit"] == "simple":
        return c08.times(rng, cfg, vals, n)
    o = refo(cfg, vals)
    out = kepgen.gen_times(rng, o, n, r=np.ravel(vals["r"]).tolist() if "r" in vals and rng.random() < 0.8 else 0.2, frac=0.8)
    if cfg["lck"] == "secondary":
        # around superior conjunction as well
        s = np.linspace(0, 1, 400)[:, None] * o.period
        x, y, z = o.rel_dt(s)
        d = np.where(z < 0, np.sqrt(x**2 + y**2), 9e9)[:, 0]
        k = int(np.argmin(d))
        P = float(np.ravel(o.period)[0])
        tc = float(np.ravel(o.t0)[0]) + k / 399 * P
        v = np.sqrt(sum(c**2 for c in o.relvel_dt(s[k : k + 1])))[0, 0]
        h = 1.3 * float(o.r_star + 0.2) / v + P / 400
        for i in range(len(out)):
            if rng.random() < 0.5:
                out[i] = float(
                    "%.12g" % (tc + rng.uniform(-h, h) + P * rng.choice([0, 1, -3]))
                )
    return out


def gen_u(rng):
    q1, q2 = rng.random(), rng.random()
    return [sig6(2 * np.sqrt(q1) * q2), sig6(np.sqrt(q1) * (1 - 2 * q2))]


def gen_r(rng, cfg):
    f = lambda: sig6(rng.choice([10 ** rng.uniform(-2, -0.5), rng.uniform(0.02, 0.2)]))  # noqa
    if cfg["rscalar"]:
        return f()
    return [f() for _ in range(cfg["npl"])]


def gen_texp(rng, cfg, n):
    f = lambda: sig6(10 ** rng.uniform(-3, -0.7))  # noqa
    return f() if cfg["texp"] == "scalar" else [f() for _ in range(n)]


def gen(rng, i, tier):
    kind = rng.choice(["kepler"] * 4 + ["ttv"] * 2 + ["simple"] * 2 + ["sec"] * 2)
    if kind == "ttv":
        s = c07.gen(rng, i, tier)
        cfg, init = s["cfg"], s["init"]
        cfg["orbit"] = "ttv"
    elif kind == "simple":
        s = c08.base(rng, i, tier)
        cfg, init = s["cfg"], s["init"]
        cfg["orbit"] = "simple"
    else:
        cfg = kepgen.gen_cfg(
            rng, npl=1 if kind == "sec" else None, transiting=rng.random() < 0.85
        )
        gen_dtypes(rng, cfg, cfg["args"] + ["r", "t", "texp", "u", "u1", "u2"])
        init = kepgen.gen_vals(rng, cfg)
        cfg["orbit"] = "kepler"
    cfg["lck"] = (
        "secondary"
        if kind == "sec"
        else rng.choice(["u", "u", "u", "vec"])
    )
    npl = cfg["npl"]
    cfg["rscalar"] = npl == 1 and rng.random() < 0.6
    cfg["sharelc"] = rng.random() < 0.4
    init.pop("texp", None)
    cfg["texp"] = rng.choice([None, "scalar", "vector", "vector"])
    for k in ("r", "t", "K", "plx"):
        init.pop(k, None)
    init["r"] = gen_r(rng, cfg)
    init["t"] = times(rng, cfg, init, rng.randint(2, 14))
    if cfg["texp"]:
        init["texp"] = gen_texp(rng, cfg, len(init["t"]))
    if cfg["lck"] == "secondary":
        init["up"], init["us"] = gen_u(rng), gen_u(rng)
        init["s"] = sig6(10 ** rng.uniform(-2, 0.3))
    elif cfg["lck"] == "vec":
        init["u"] = gen_u(rng)
    else:
        init["u1"], init["u2"] = gen_u(rng)
        for k in ("u1", "u2"):
            cfg["cont"][k] = rng.choice(["shared"] * 4 + ["float", "tensor"])
    cfg["cont"]["texp"] = rng.choice(["shared"] * 3 + ["array"])
    if cfg["texp"] == "scalar" and cfg["cont"]["texp"] == "array":
        cfg["cont"]["texp"] = "float"
    if cfg["texp"] == "vector":
        cfg["cont"]["texp"] = "shared"
    cfg["cont"]["r"] = rng.choice(["shared"] * 5 + ["tensor"])
    ops = gen_history(
        rng, sys.modules[__name__], cfg, init, rng.randint(4, 9)
    )
    return dict(cfg=cfg, init=init, ops=ops)


def gen_set(rng, cfg, cur):
    v = {}
    if rng.random() < 0.6:
        m = sub(cfg)
        if m is None:
            v.update(kepgen.gen_update(rng, cfg, cur))
        else:
            v.update(m.gen_set(rng, cfg, dict(cur)))
            for k in ("r", "t", "texp"):
                v.pop(k, None)
    if rng.random() < 0.35:
        v["r"] = gen_r(rng, cfg)
    if rng.random() < 0.35:
        if cfg["lck"] == "secondary":
            v["up"], v["us"] = gen_u(rng), gen_u(rng)
            v["s"] = sig6(10 ** rng.uniform(-2, 0.3))
        elif cfg["lck"] == "vec":
            v["u"] = gen_u(rng)
        else:
            v["u1"], v["u2"] = gen_u(rng)
    if rng.random() < 0.6 or not v:
        n = rng.choice([1, len(cur["t"]), rng.randint(1, 14)])
        v["t"] = times(rng, cfg, dict(cur, **v), n)
        if cfg["texp"] == "vector":
            v["texp"] = gen_texp(rng, cfg, n)
    if cfg["texp"] == "scalar" and rng.random() < 0.3:
        v["texp"] = gen_texp(rng, cfg, 0)
    return {
        k: x
        for k, x in v.items()
        if cfg["cont"].get(k, "shared") == "shared"
    }


def gen_literal(rng, cfg, cur, q):
    if q["q"] == "ror":
        return {}
    out = dict(r=gen_r(rng, cfg))
    if rng.random() < 0.6 or cfg["texp"] == "vector":
        n = rng.choice([len(cur["t"]), rng.randint(1, 8)])
        out["t"] = times(rng, cfg, dict(cur, **out), n)
    if cfg["texp"]:
        out["texp"] = gen_texp(rng, cfg, len(out.get("t", ())))
    return out


def gen_query(rng, cfg, cur):
    if cfg["lck"] != "secondary" and rng.random() < 0.06:
        n = rng.choice([0, 1, cfg["npl"], 3])
        x = [[sig6(10 ** rng.uniform(-4, -1.5)), sig6(rng.uniform(0, 0.99))] for _ in range(max(n, 1))]
        return dict(q="ror", x=x if n else x[0], jac=rng.random() < 0.5)
    q = dict(q="lc", uit=rng.choice([None, None, True, False]))
    if cfg["texp"] and rng.random() < 0.7:
        q["texp"] = True
        q["oversample"] = rng.choice([1, 2, 3, 4, 5, 7, 8])
        q["order"] = rng.choice([0, 1, 2])
        if q["oversample"] < 3:
            q["order"] = 0
        if rng.random() < 0.2:
            del q["oversample"], q["order"]
    if cfg["orbit"] == "kepler" and rng.random() < 0.2:
        q["ld"] = True
        if q["uit"]:
            q["uit"] = None
    if (
        cfg["orbit"] == "kepler"
        and not (q.get("texp") and cfg["texp"] == "vector")
        and rng.random() < 0.12
    ):
        q["grid"] = rng.choice([3, 12, 30, 30, 60, 100])
    return q


def on_grid(q, o, npl):
    """Interpolated light curves take one period and epoch per planet, or
    numbers for a single planet."""
    return bool(q.get("grid")) and all(
        x.ndim == (npl > 1) for x in (o.t0, o.period)
    )


def gen_var(rng, cfg):
    if cfg["orbit"] == "kepler":
        return c05.gen_var(rng, cfg)
    return {}


def gen_corrupt(rng, cfg, cur):
    k = rng.random()
    if k < 0.3:
        # lengths that do not fit: the query must fail or be repaired later
        return dict(t=list(cur["t"]) + [0.0] * rng.randint(1, 3))
    cand = [
        a
        for a in cur
        if cfg["cont"].get(a, "shared") == "shared"
    ]
    a = rng.choice(sorted(cand))
    bad = rng.choice([float("nan"), float("inf"), -1.0, 0.0, 50.0, 1e300])
    v = cur[a]
    if isinstance(v, list):
        v = list(v)
        v[rng.randrange(len(v))] = bad
    else:
        v = bad
    return {a: v}


def build(w, cont, cfg, var):
    m = sub(cfg)
    if m is None:
        o = kepgen.build_orbit(w, cont, cfg, drop=var.get("drop", ()))
    else:
        o = m.build(w, cont, cfg, {})
    lc = cont.get("__lc")
    if lc is None or not cfg["sharelc"]:
        if cfg["lck"] == "secondary":
            up, us = cont["up"], cont["us"]
            lc = w.lc.SecondaryEclipseLightCurve(
                (up[0], up[1]), (us[0], us[1]), cont["s"]
            )
        elif cfg["lck"] == "vec":
            lc = w.lc.LimbDarkLightCurve(cont["u"])
        else:
            lc = w.lc.LimbDarkLightCurve(cont["u1"], cont["u2"])
        if cfg["sharelc"]:
            cont["__lc"] = lc
    return (o, lc)


def ask(w, ob, cont, cfg, q):
    o, lc = ob
    if q["q"] == "ror":
        x = np.array(q["x"])
        ans = lc.get_ror_from_approx_transit_depth(
            x[..., 0], x[..., 1], jac=q["jac"]
        )
        return list(ans) if q["jac"] else [ans]
    kw = dict(orbit=o, r=cont["r"], t=cont["t"])
    if q.get("texp"):
        kw["texp"] = cont["texp"]
        for k in ("oversample", "order"):
            if k in q:
                kw[k] = q[k]
    if q["uit"] is not None:
        kw["use_in_transit"] = q["uit"]
    if q.get("ld"):
        kw["light_delay"] = True
    if on_grid(q, o, cfg["npl"]):
        from exoplanet.light_curves.interpolated import InterpolatedLightCurve

        lc = InterpolatedLightCurve(lc, q["grid"], num_planets=cfg["npl"])
    return [lc.get_light_curve(**kw)]


def judge(s, what, name, q, got):
    cfg = s.cfg
    vals = s.refvals(name)
    o = refo(cfg, vals)
    t = asked = np.asarray(vals["t"], float)
    grid = on_grid(q, s.objs[name][0], cfg["npl"]) if q["q"] == "lc" else False
    if grid:
        s.ctx.cov("interpolated")
        # the four points of the phase grid around every timestamp
        P, t0 = (np.broadcast_to(np.ravel(x), cfg["npl"]) for x in (o.period, o.t0))
        h = P / (q["grid"] + 1)
        ph = np.mod(t[:, None] - t0, P) / h
        k = np.floor(ph)
        x = (ph - k)[..., None]
        w = np.concatenate(
            [
                -x * (x - 1) * (x - 2) / 6,
                (x + 1) * (x - 1) * (x - 2) / 2,
                -(x + 1) * x * (x - 2) / 2,
                (x + 1) * x * (x - 1) / 6,
            ],
            axis=-1,
        )
        t = t0[:, None] + (k[..., None] + np.arange(-1, 3)) * h[:, None]
        shape, t = t.shape, np.ravel(t)
    r = np.atleast_1d(np.asarray(vals["r"], float))
    npl = len(r)
    texp = vals["texp"] if q.get("texp") else None
    ov, order = q.get("oversample", 7), q.get("order", 0)
    s.ctx.sim_days += float(t.max() - t.min()) if len(t) else 0
    s.ctx.cov("uit.%s" % q.get("uit"))
    if texp is not None:
        s.ctx.cov("order%d" % order)
    if texp is None:
        tt = t[:, None]
    else:
        dt, _ = ref.stencil(ov, order)
        tt = t[:, None] + np.broadcast_to(np.asarray(texp, float), t.shape)[
            :, None
        ] * dt
    mask = np.ones((len(t), npl), bool)
    if cfg["orbit"] == "simple":
        clock = 1e-15 * 30 * (np.max(np.abs(t)) + np.max(np.abs(o.t0)) + 1)
        tol = 1e-9 + clock
        mask &= ~np.any(o.edge(tt, tol), axis=1)[:, None]
        coords = o.pos
        eps = np.max(np.abs(o.speed)) * tol
    else:
        amp = np.max(((1 + o.e) / (1 - o.e)) ** 1.5)
        trel = 1 + np.max(np.abs(t)) / np.min(o.period)
        trel += np.max(np.abs(o.t0)) / np.min(o.period)
        eps = (1e-9 + 1e-14 * trel) * amp * np.max(o.a)
        if q.get("ld"):
            eps = eps + np.max(o.delay_tol("rel", t))
        if o.ttv is not None:
            for j in range(npl):
                mask[:, j] &= ~np.any(o.ttv.ambiguous(j, tt, 1e-7), axis=1)
        coords = lambda x: o.pos("rel", x, light_delay=q.get("ld"))  # noqa
    R = o.r_star
    if cfg["lck"] == "secondary":
        u1, u2 = vals["up"]
    elif cfg["lck"] == "vec":
        u1, u2 = vals["u"]
    else:
        u1, u2 = vals["u1"], vals["u2"]
    if q["q"] == "ror":
        x = np.array(q["x"])
        mu = np.sqrt(1 - x[..., 1] ** 2)
        # depth of a small planet: its area times the local brightness over
        # the mean brightness of the disk
        f = (1 - u1 * (1 - mu) - u2 * (1 - mu) ** 2) / (1 - u1 / 3 - u2 / 6)
        ror = np.sqrt(x[..., 0] / f)
        for g, want in zip(got, (ror, 0.5 * ror / x[..., 0])):
            compare(s.ctx, what, g, want, 1e-12, rtol=1e-9)
        return
    want = ref.light_curve(coords, R, r, u1, u2, t, texp, ov, order)
    atol = 1e-8 + 10 * eps / R
    if cfg["lck"] == "secondary":
        # seen from the other side the star passes in front of the companion
        back = lambda x: tuple(-c for c in coords(x))  # noqa
        v1, v2 = vals["us"]
        lc2 = ref.light_curve(back, float(r[0]), [float(R)], v1, v2, t, texp, ov, order)
        f = float(vals["s"]) * (r / R) ** 2
        want = (want + f * lc2) / (1 + f)
        atol = atol + 10 * eps / r[0]
    if grid:
        pick = lambda a: np.moveaxis(  # noqa
            np.diagonal(np.reshape(a, shape + (npl,)), axis1=1, axis2=3), 2, 1
        )
        y, atol = pick(want), pick(np.broadcast_to(atol, want.shape))
        # rounding of the grid, in positions and in fractions of a step
        off = 4e-16 * (q["grid"] + 5) * (np.abs(t0) + np.abs(asked[:, None]) + P)
        speed = np.max(amp * o.a) * 2 * np.pi / P
        atol = 4 * np.max(atol, axis=-1) + 10 * off * speed / R
        atol = atol + 10 * off / h * np.ptp(y, axis=-1)
        want, mask = np.sum(w * y, axis=-1), None
    compare(s.ctx, what, got[0], want, atol, mask=mask)
    if (want < 0).any():
        s.ctx.count("answers-with-transit")


def run(scn, ctx):
    c = scn["cfg"]
    ctx.cov("orbit." + c["orbit"])
    ctx.cov("lc." + c["lck"])
    ctx.cov("texp.%s" % c["texp"])
    Session(ctx, sys.modules[__name__], scn).run()
