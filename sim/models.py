"""Seeded probabilistic models for C12: data, parameters, likelihood."""

import numpy as np

KINDS = ["rv", "rv", "transit", "transit", "ttv", "simple", "secondary", "astrometry"]


def sig(x):
    return float("%.6g" % x)


def gen(rng):
    kind = rng.choice(KINDS)
    npl = rng.choice([1, 1, 2]) if kind in ("rv", "transit", "simple") else 1
    c = dict(
        kind=kind,
        npl=npl,
        period=[sig(rng.uniform(2, 6) * (1 + 1.7 * j)) for j in range(npl)],
        t0=[sig(rng.uniform(0.2, 1.8)) for _ in range(npl)],
        ecc=rng.choice([None, "kipping13", "vaneylen19", "disk"]),
        free=rng.random() < 0.3,
        opts=rng.choice([{}, dict(long=True), dict(long=False)]),
        bounds=rng.choice([[0.02, 0.6]] * 4 + [[None, 0.6], [0.02, None], [None, None]]),
        star=rng.choice(["rho", "mr", "dur"]),
        mass=rng.random() < 0.5,
        texp=rng.choice([None, 0.02]),
        uit=rng.choice([None, None, True, False]),
        ld=rng.random() < 0.15,
        n=rng.randint(6, 16),
        data=rng.randrange(1 << 30),
        sigma=rng.choice([1e-3, 3e-4]),
        tmode=rng.choice(["times", "times", "ttvs", "delta"]),
        gap=rng.random() < 0.4,
        rv=rng.random() < 0.8,
    )
    return tidy(c)


def tidy(c):
    """Options that do not go together."""
    kind = c["kind"]
    if kind not in ("rv", "transit", "simple"):
        c["npl"] = 1
    npl = c["npl"]
    c["period"], c["t0"] = c["period"][:npl], c["t0"][:npl]
    if npl > 1 and c["ecc"] == "disk":
        c["ecc"] = None
    if kind in ("ttv", "simple"):
        c["ecc"] = None
    if c["star"] == "dur" and (kind != "transit" or c["ecc"] is not None):
        c["star"] = "rho"
    return c


def times(c):
    rng = np.random.default_rng(c["data"])
    n = c["n"]
    if c["kind"] in ("rv", "astrometry"):
        return np.sort(rng.uniform(0, 20, n))
    out = []
    for k in range(n):
        j = k % c["npl"]
        e = rng.integers(0, 3)
        out.append(c["t0"][j] + e * c["period"][j] + rng.normal() * 0.06)
        if c["kind"] == "secondary" and k % 2:
            out[-1] += 0.5 * c["period"][j]
    return np.sort(out)


def new_times(c):
    """Times that the model was not built for."""
    rng = np.random.default_rng(c["data"] + 2)
    P, t0 = c["period"][0], c["t0"][0]
    return t0 + P * np.arange(4) + rng.normal(size=4) * np.array([0.05, 0.05, 0.05, P])


def build(w, c):
    """The model, and the objects the user keeps next to it."""
    import pymc as pm
    import pytensor.tensor as pt

    rng = np.random.default_rng(c["data"] + 1)
    t = times(c)
    kind, npl = c["kind"], c["npl"]
    shape = {} if npl == 1 else dict(shape=npl)
    vec = lambda v: v[0] if npl == 1 else np.array(v)  # noqa: E731
    P0, T0 = vec(c["period"]), vec(c["t0"])
    det = pm.Deterministic
    with pm.Model() as m:
        logP = pm.Normal("logP", np.log(P0), 1e-3, initval=np.log(P0), **shape)
        P = det("P", pt.exp(logP))
        t0 = pm.Normal("t0", T0, 0.01, initval=T0, **shape)
        kw = dict(period=P, t0=t0)
        if c["ecc"] == "disk":
            h, k = w.dist.unit_disk("h", "k", initval=np.array([0.21, -0.12]))
            kw["ecc"] = det("ecc", h**2 + k**2)
            kw["omega"] = det("omega", pt.arctan2(h, k))
        elif c["ecc"]:
            o = dict(c["opts"]) if c["ecc"] == "kipping13" else dict(
                multi=c["mass"]
            )
            o.update(shape, fixed=not c["free"])
            o.update({k: v for k, v in zip(("lower", "upper"), c["bounds"]) if v})
            o["initval"] = vec([0.2 + 0.1 * j for j in range(npl)])
            kw["ecc"] = getattr(w.ecc, c["ecc"])("ecc", **o)
            kw["omega"] = w.dist.angle(
                "omega", initval=vec([0.7, -1.9][:npl]), **shape
            )
        objs = {}
        if kind == "rv":
            if c["mass"]:
                mp = pm.LogNormal(
                    "mp", np.log(3e-4), 0.3, initval=vec([3e-4, 5e-4][:npl]), **shape
                )
                sini = pm.Uniform(
                    "cosi", 0, 1, initval=vec([0.3, 0.5][:npl]), **shape
                )
                o = w.orbits.KeplerianOrbit(
                    m_planet=mp, incl=pt.arccos(sini), m_star=1.1, r_star=1.0, **kw
                )
                rv = o.get_radial_velocity(t)
            else:
                K = pm.LogNormal(
                    "K", np.log(20.0), 0.3, initval=vec([22.0, 31.0][:npl]), **shape
                )
                o = w.orbits.KeplerianOrbit(**kw)
                rv = o.get_radial_velocity(t, K=K)
            det("a", o.a)
            det("tperi", o.t_periastron)
            mu = rv if npl == 1 else pt.sum(rv, axis=-1)
            pm.Normal(
                "obs", mu, 5.0, observed=20 * np.sin(t) + rng.normal(size=len(t))
            )
        elif kind == "astrometry":
            plx = pm.LogNormal("plx", np.log(0.05), 0.1, initval=0.05)
            cosi = pm.Uniform("cosi", -1, 1, initval=0.3)
            Om = w.dist.angle("Omega", initval=1.1)
            o = w.orbits.KeplerianOrbit(
                incl=pt.arccos(cosi), Omega=Om, m_star=1.1, r_star=1.0, **kw
            )
            rho, th = o.get_relative_angles(
                t, parallax=plx, light_delay=c["ld"]
            )
            det("rho", rho)
            pm.Normal("obs", rho, 1e-4, observed=0.002 + 0 * t)
            pm.Normal("obs2", pt.cos(th), 0.5, observed=np.cos(t))
        else:
            u = w.dist.quad_limb_dark("u", initval=[0.4, 0.23])
            ror = pm.LogNormal(
                "ror", np.log(0.1), 0.1, initval=vec([0.1, 0.12][:npl]), **shape
            )
            b = w.dist.impact_parameter(
                "b", ror, initval=vec([0.31, 0.45][:npl])
            )
            cls = w.orbits.KeplerianOrbit
            if kind == "simple":
                dur = pm.LogNormal(
                    "dur", np.log(0.15), 0.1, initval=vec([0.15, 0.17][:npl]), **shape
                )
                o = w.orbits.SimpleTransitOrbit(
                    period=P, t0=t0, b=b, duration=dur, r_star=1.0, ror=ror
                )
                r = ror
            else:
                if c["star"] == "rho":
                    rho = pm.LogNormal("rho", np.log(1.4), 0.1, initval=1.4)
                    kw.update(rho_star=rho, r_star=1.0)
                    r = ror
                elif c["star"] == "dur":
                    dur = pm.LogNormal(
                        "dur", np.log(0.15), 0.1, initval=vec([0.15, 0.17][:npl]), **shape
                    )
                    kw.update(duration=dur, r_star=1.0, ror=ror)
                    r = ror
                else:
                    ms = pm.Normal("ms", 1.0, 0.05, initval=1.02)
                    rs = pm.Normal("rs", 1.0, 0.05, initval=0.97)
                    kw.update(m_star=ms, r_star=rs)
                    r = ror * rs
                if kind == "ttv":
                    n = 3
                    inds = np.array([0, 1, 3]) if c["gap"] else np.arange(n)
                    oc = np.array([0.01, -0.02, 0.015])
                    if c["tmode"] == "ttvs":
                        kw["ttvs"] = [
                            pm.Normal("oc", oc, 0.01, initval=oc + 0.001, shape=n)
                        ]
                        kw["period"] = pt.atleast_1d(kw["period"])
                        kw["t0"] = pt.atleast_1d(kw["t0"])
                    else:
                        kw.pop("period")
                        kw.pop("t0")
                        x = c["t0"][0] + inds * c["period"][0] + oc
                        kw["transit_times"] = [
                            pm.Normal("tts", x, 0.01, initval=x + 0.001, shape=n)
                        ]
                    if c["tmode"] == "delta":
                        kw["delta_log_period"] = pm.Normal(
                            "dlp", 0, 0.01, initval=0.002
                        )
                    if c["gap"]:
                        kw["transit_inds"] = [inds]
                    cls = w.orbits.TTVOrbit
                    kw["b"] = pt.atleast_1d(b)
                    r = pt.atleast_1d(r)
                else:
                    kw["b"] = b
                o = cls(**kw)
                det("a", o.a)
                if kind == "ttv":
                    det("tts_all", o.all_transit_times[0])
                    det("P_fit", o.ttv_period)
                    if c["rv"]:
                        # velocities at all phases of the warped orbit
                        t2 = np.sort(rng.uniform(0, 3 * c["period"][0], 8))
                        K = pm.LogNormal("K", np.log(20.0), 0.3, initval=22.0)
                        rv = pt.flatten(o.get_radial_velocity(t2, K=K))
                        pm.Normal("obs_rv", rv, 5.0, observed=20 * np.sin(t2))
            q = dict(orbit=o, r=r, t=t)
            if c["texp"]:
                q.update(texp=c["texp"], oversample=3)
            if c["uit"] is not None:
                q["use_in_transit"] = c["uit"]
            if c["ld"] and kind == "transit" and not c["uit"]:
                q["light_delay"] = True
            if kind == "secondary":
                s = pm.LogNormal("s", np.log(0.3), 0.3, initval=0.3)
                lc = w.lc.SecondaryEclipseLightCurve(
                    (u[0], u[1]), (0.3, 0.2), s
                )
                q.pop("use_in_transit", None)
            else:
                lc = w.lc.LimbDarkLightCurve(u[0], u[1])
            objs.update(lc=lc, r=r)
            flux = pt.sum(lc.get_light_curve(**q), axis=-1)
            det("depth", pt.min(flux))
            pm.Normal(
                "obs",
                flux,
                c["sigma"],
                observed=-0.006 + c["sigma"] * rng.normal(size=len(t)),
            )
        objs["orbit"] = o
    return m, objs
