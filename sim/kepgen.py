"""Generation of Keplerian configurations, values, times and queries."""

import numpy as np

from . import ref
from .session import whole

UNITS = {
    "period": ["day", "hour", "year"],
    "a": ["R_sun", "AU", "km"],
    "m_planet": ["M_sun", "M_earth", "M_jupiter", "kg"],
    "m_star": ["M_sun", "kg", "M_jupiter"],
    "r_star": ["R_sun", "km", "R_jupiter"],
    "rho_star": ["g/cm^3", "kg/m^3", "M_sun/R_sun^3"],
    "duration": ["day", "hour", "min"],
}
BASE_UNIT = {
    "period": "day",
    "a": "R_sun",
    "m_planet": "M_sun",
    "m_star": "M_sun",
    "r_star": "R_sun",
    "rho_star": "g/cm^3",
    "duration": "day",
}


def sig6(x):
    return float("%.7g" % x)


def gen_value(rng, name, cfg, cur=None):
    """A fresh value (in base units) for one named input."""
    return whole(name, cfg, _gen_value(rng, name, cfg))


def _gen_value(rng, name, cfg):
    n = cfg["npl"]

    def vec(f):
        if name in cfg["scalars"]:
            return sig6(f())
        return [sig6(f()) for _ in range(n)]

    U = rng.uniform
    if name == "period":
        return vec(lambda: 10 ** rng.choice([U(0.2, 2.0), U(-0.4, 0.4)]))
    if name == "a":
        return vec(lambda: 10 ** rng.choice([U(0.9, 1.9), U(0.4, 0.9)]))
    if name in ("t0", "t_periastron"):
        big = rng.random() < 0.1
        return vec(lambda: U(-5, 5) + (2457000.0 if big else 0.0))
    if name == "b":
        return vec(
            lambda: rng.choice(
                [U(0, 0.95), U(0, 0.7), U(0.7, 1), 0.0, U(-0.6, 0), U(1.3, 2)]
            )
        )
    if name == "incl":
        return vec(
            lambda: rng.choice(
                [np.pi / 2 - U(0, 0.03), np.pi / 2 + U(0, 0.03), U(0.05, 3.1)]
            )
        )
    if name == "ecc":
        return vec(
            lambda: rng.choice([U(0, 0.3), U(0.0, 0.75), U(0.7, 0.9), 0.0])
        )
    if name == "omega":
        return vec(lambda: rng.choice([U(-3.14, 3.14), U(-7, 7), 0.5 * np.pi]))
    if name == "Omega":
        return vec(lambda: U(-3.14, 3.14))
    if name == "m_planet":
        return vec(lambda: rng.choice([0.0, 10 ** U(-6, -2), 10 ** U(-6, -0.5)]))
    if name == "m_star":
        return sig6(U(0.2, 2.0))
    if name == "r_star":
        return sig6(U(0.3, 2.0))
    if name == "rho_star":
        return sig6(10 ** U(-0.5, 1.2))
    if name == "duration":
        return vec(lambda: U(0.02, 0.3))
    if name == "ror":
        return vec(lambda: U(0.0, 0.3))
    if name == "K":
        return vec(lambda: U(0.1, 50))
    if name == "plx":
        return sig6(10 ** U(-2.5, -0.5))
    if name == "r":
        return vec(lambda: 10 ** U(-2, -0.5))
    if name == "texp":
        return sig6(10 ** U(-3, -1))
    raise KeyError(name)


def gen_cfg(rng, npl=None, transiting=False, massive=True, basis=None):
    npl = npl or rng.choice([1, 1, 2, 2, 3])
    cfg = dict(npl=npl, scalars=[], cont={}, units={}, opt=rng.random() < 0.2)
    basis = basis or rng.choice(
        ["P", "P", "a", "Pa", "Pa_r", "Prho", "Pmr", "Prhor", "Prhom", "dur", "dur", "arm", "arho", "arhor", "eccdur"]
    )
    cfg["basis"] = basis
    args = {
        "P": ["period"],
        "a": ["a"],
        "Pa": ["period", "a"],
        "Pa_r": ["period", "a", "r_star"],
        "Prho": ["period", "rho_star"],
        "Pmr": ["period", "m_star", "r_star"],
        "Prhor": ["period", "rho_star", "r_star"],
        "Prhom": ["period", "rho_star", "m_star"],
        "dur": ["period", "duration", "b", "ror"],
        "arm": ["a", "r_star", "m_star"],
        "arho": ["a", "rho_star"],
        "arhor": ["a", "rho_star", "r_star"],
        "eccdur": ["period", "m_star", "r_star", "duration"],
    }[basis][:]
    if basis == "dur" and rng.random() < 0.5:
        args.append("r_star")
    if basis == "dur" and rng.random() < 0.25:
        args.remove("ror")  # a planet without extent
    ecc = basis != "dur" and rng.random() < 0.65
    if basis == "eccdur":
        ecc = True
    if ecc:
        args += ["ecc", "omega"]
        cfg["sincos"] = rng.random() < 0.25
    tk = rng.random()
    if tk < 0.55:
        args.append("t0")
    elif tk < 0.85:
        args.append("t_periastron")
    if basis not in ("dur", "eccdur"):
        ik = rng.random()
        if transiting:
            args.append("b")
        elif ik < 0.45:
            args.append("b")
        elif ik < 0.85:
            args.append("incl")
    if rng.random() < 0.4:
        args.append("Omega")
    if massive and rng.random() < 0.6:
        args.append("m_planet")
    cfg["args"] = args
    if npl == 1 and rng.random() < 0.5:
        cfg["scalars"] = list(args) + ["K", "r"]
    else:
        for a in ("t0", "Omega", "m_planet", "b", "incl", "K", "t_periastron"):
            if a in args + ["K"] and rng.random() < 0.15:
                if a == "b" and basis == "dur":
                    continue
                cfg["scalars"].append(a)
    for a in args:
        cfg["cont"][a] = rng.choice(
            ["shared"] * 5 + ["array", "tensor", "float"]
        )
        if basis == "eccdur" and a == "duration":
            cfg["cont"][a] = "shared"
        if a in UNITS and not cfg.get("nounits") and rng.random() < 0.2:
            cfg["units"][a] = rng.choice(UNITS[a])
    if "m_planet" in args and "m_planet" not in cfg["units"]:
        if rng.random() < 0.15:
            cfg["mpl_kw"] = "M_earth"
    if "rho_star" in args and "rho_star" not in cfg["units"]:
        if rng.random() < 0.15:
            cfg["rho_kw"] = "kg/m^3"
    for a in ("K", "plx", "r", "texp", "t"):
        cfg["cont"][a] = "shared"
    return cfg


def to_base(cfg, vals):
    """Values as held in the containers -> base units."""
    import astropy.units as u

    out = dict(vals)
    un = dict(cfg.get("units", {}))
    if cfg.get("mpl_kw"):
        un["m_planet"] = cfg["mpl_kw"]
    if cfg.get("rho_kw"):
        un["rho_star"] = cfg["rho_kw"]
    for k, unit in un.items():
        if k in out:
            f = float(u.Unit(unit).to(u.Unit(BASE_UNIT[k])))
            out[k] = np.asarray(out[k], float) * f
    return out


def from_base(cfg, vals):
    import astropy.units as u

    out = dict(vals)
    un = dict(cfg.get("units", {}))
    if cfg.get("mpl_kw"):
        un["m_planet"] = cfg["mpl_kw"]
    if cfg.get("rho_kw"):
        un["rho_star"] = cfg["rho_kw"]
    for k, unit in un.items():
        if k in out:
            f = float(u.Unit(unit).to(u.Unit(BASE_UNIT[k])))
            x = np.asarray(out[k], float) / f
            out[k] = x.tolist()
    return out


def consistent(cfg, vals):
    """Is the reference orbit defined and well behaved for these values?"""
    try:
        with np.errstate(all="raise"):
            o = ref_orbit(cfg, vals)
    except (FloatingPointError, ValueError):
        return False
    ok = np.all(np.isfinite(o.a)) and np.all(o.m_star > 0)
    # a planet inside its star is not an orbit anybody asks about
    ok &= bool(np.all(o.a * (1 - o.e) > 2.5 * o.r_star))
    ok &= bool(np.all(np.isfinite(o.incl)) and np.all(np.isfinite(o.t0)))
    ok &= bool(np.all(o.m_star > 0.01) and np.all(o.period < 3000))
    ok &= bool(np.all(o.a < 2000))
    return bool(ok)


def ref_orbit(cfg, vals, drop=()):
    v = to_base(cfg, vals)
    kw = {a: v[a] for a in cfg["args"] if a in v and a not in drop}
    if "omega" in cfg["args"] and cfg.get("sincos"):
        kw["omega"] = np.arctan2(v["sin_omega"], v["cos_omega"])
    return ref.Orbit(**kw)


def gen_vals(rng, cfg, tries=400):
    """Base values for all arguments, rejected until consistent."""
    for _ in range(tries):
        v = {a: gen_value(rng, a, cfg) for a in cfg["args"]}
        _eccdur(rng, cfg, v, v)
        _sincos(cfg, v)
        base_cfg = dict(cfg, units={}, mpl_kw=None, rho_kw=None)
        if consistent(base_cfg, v):
            break
    else:
        raise ValueError("no consistent values for " + str(cfg))
    return from_base(cfg, v)


def _eccdur(rng, cfg, v, new):
    """Durations that some chord across the star really has."""
    if cfg["basis"] != "eccdur":
        return
    c = dict(cfg, args=[a for a in cfg["args"] if a != "duration"], sincos=False)
    c.update(units={}, mpl_kw=None, rho_kw=None)
    o = ref_orbit(c, v)
    s = np.sin(o.w)
    b = np.array([rng.uniform(0.1, 0.9) for _ in range(cfg["npl"])])
    if "duration" in cfg["scalars"]:
        b = b[0]
    aor = o.a / o.r_star
    cosi = b * (1 + o.e * s) / (aor * (1 - o.e**2))
    with np.errstate(all="ignore"):
        sn = np.sqrt((1 - b**2) / (1 - cosi**2)) / aor
        dur = np.arcsin(sn) * o.period * np.sqrt(1 - o.e**2)
        dur = dur / (np.pi * (1 + o.e * s))
    new["duration"] = dur.tolist()


def _sincos(cfg, v):
    if cfg.get("sincos") and "omega" in v:
        w = np.asarray(v.pop("omega"))
        v["sin_omega"] = np.sin(w).tolist()
        v["cos_omega"] = np.cos(w).tolist()


def gen_update(rng, cfg, cur, names=None, tries=60):
    """New values for a few shared inputs, keeping the set consistent."""
    base_cfg = dict(cfg, units={}, mpl_kw=None, rho_kw=None)
    cand = [
        a
        for a in cfg["args"]
        if cfg["cont"].get(a, "shared") == "shared"
        and (names is None or a in names)
    ]
    if not cand:
        return {}
    curb = to_base(cfg, cur)
    for _ in range(tries):
        pick = rng.sample(cand, rng.randint(1, min(3, len(cand))))
        new = {}
        for a in pick:
            new[a] = gen_value(rng, a, cfg)
        if "omega" not in new and cfg.get("sincos"):
            full = dict(curb, **new)
            full["omega"] = np.arctan2(curb["sin_omega"], curb["cos_omega"])
        else:
            full = dict(curb, **new)
        _eccdur(rng, cfg, full, new)
        _sincos(cfg, new)
        both = dict(curb)
        both.update(new)
        if consistent(base_cfg, both):
            return {k: _l(x) for k, x in from_base(cfg, new).items()}
    return {}


def _l(x):
    return x.tolist() if isinstance(x, np.ndarray) else x


def contact(orbit, j, end, r):
    """When planet j leaves the stellar disk after (before) mid-transit."""
    r = np.ravel(r)
    R = orbit.r_star + r[min(j, len(r) - 1)]
    dts = np.linspace(0, end, 60)

    def out(dt):
        with np.errstate(all="ignore"):
            x = [np.asarray(c)[..., j] for c in orbit.rel_dt(dt[:, None] + np.zeros(orbit.npl))]
        return np.hypot(x[0], x[1]) > np.max(R)

    k = np.flatnonzero(out(dts))
    if not len(k) or k[0] == 0:
        return end * 0.3
    lo, hi = dts[k[0] - 1], dts[k[0]]
    for _ in range(4):
        g = np.linspace(lo, hi, 11)
        i = np.flatnonzero(out(g))
        i = i[0] if len(i) else 10
        lo, hi = g[max(0, i - 1)], g[i]
    return float(lo)


def gen_times(rng, orbit, n, r=0.1, frac=0.6):
    """Timestamps, many of them around transits of the current orbit."""
    out = []
    P = orbit._v(orbit.period)
    t0 = orbit._v(orbit.t0)
    with np.errstate(all="ignore"):
        v = np.sqrt(sum(c**2 for c in orbit.relvel_dt(np.zeros((1, orbit.npl)))))
    v = np.broadcast_to(v, (1, orbit.npl))[0]
    for _ in range(n):
        j = rng.randrange(orbit.npl)
        if rng.random() < frac:
            k = rng.choice([0, 0, 1, -1, rng.randint(-20, 20)])
            h = 1.3 * (orbit.r_star + r) / v[j]
            base = t0[j] + k * P[j]
            if orbit.ttv is not None:
                base = rng.choice(list(orbit.ttv.full[j]))
            if rng.random() < 0.35:
                # just inside or outside of a contact
                side = rng.choice([-1, 1])
                off = contact(orbit, j, side * 2 * float(np.max(h)), r)
                off += side * rng.choice([-1, 1]) * abs(off) * 10 ** rng.uniform(-4, -1)
            else:
                off = rng.uniform(-1, 1) * float(np.max(h))
            out.append(base + off)
        else:
            out.append(t0[j] + rng.uniform(-1.5, 2.5) * P[j])
    rng.shuffle(out)
    return [float("%.12g" % x) for x in out]


def build_orbit(w, cont, cfg, drop=(), cls=None, extra=None):
    import astropy.units as u

    kw = {}
    for a in cfg["args"]:
        if a in drop:
            continue
        if a == "omega" and cfg.get("sincos"):
            kw["sin_omega"] = cont["sin_omega"]
            kw["cos_omega"] = cont["cos_omega"]
        else:
            kw[a] = cont[a]
    if cfg.get("mpl_kw") and "m_planet" in kw:
        kw["m_planet_units"] = u.Unit(cfg["mpl_kw"])
    if cfg.get("rho_kw") and "rho_star" in kw:
        kw["rho_star_units"] = u.Unit(cfg["rho_kw"])
    kw.update(extra or {})
    return (cls or w.orbits.KeplerianOrbit)(**kw)
