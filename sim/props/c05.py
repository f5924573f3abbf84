"""C05: a long-lived Keplerian orbit always answers for its current inputs."""

import numpy as np
import pytensor.tensor as pt

from .. import kepgen, ref
from ..session import Session, compare, gen_dtypes, gen_history

PROP = "C05"
N = {"quick": 800, "thorough": 20000}
RULE = (
    "a seeded configuration of KeplerianOrbit arguments and containers is "
    "driven through a seeded history of input updates, timestamp resizes, "
    "queries, re-queries, extra builds, failing calls, corrupt inputs, "
    "checkpoints and crash-restarts; every answer is compared with an "
    "independent two-body solution. Non-trivial: at least one answer compared."
)
REAL = [
    "exoplanet.orbits.KeplerianOrbit and everything it calls",
    "exoplanet_core Kepler and contact-point ops",
    "PyTensor graphs compiled in Python mode",
    "cloudpickle save/restore",
]
STUB = [
    "process crash: package modules discarded and re-imported in process",
    "C linker (PyTensor runs its Python implementations)",
]
ASSUME = [
    "timestamps within 2.5e-5 (eccentric anomaly) of apoastron are not judged: "
    "the Kepler solver of exoplanet_core answers for apoastron itself there",
    "planets stay outside their star (a(1-e) > 2.5 R*) and e <= 0.9",
    "light-travel delay is compared up to the documented second-order term",
]

UNITS_RV = [None, None, "km/s", "cm/s", "R_sun/day", "m/s"]


def sig(cfg):
    return (
        cfg["npl"],
        cfg["basis"],
        tuple(cfg["args"]),
        tuple(sorted(cfg["units"].items())),
    )


def gen(rng, i, tier):
    cfg = kepgen.gen_cfg(rng)
    gen_dtypes(rng, cfg, cfg["args"] + ["K", "plx", "r", "t"])
    init = kepgen.gen_vals(rng, cfg)
    o = kepgen.ref_orbit(cfg, init)
    init["t"] = kepgen.gen_times(rng, o, rng.randint(2, 12), r=gen_r(rng, init))
    init["K"] = kepgen.gen_value(rng, "K", cfg)
    init["plx"] = kepgen.gen_value(rng, "plx", cfg)
    init["r"] = kepgen.gen_value(rng, "r", dict(cfg, scalars=["r"]))
    if rng.random() < 0.5:
        init["texp"] = kepgen.gen_value(rng, "texp", cfg)
        cfg["texp"] = rng.choice(["scalar", "vector"])
        if cfg["texp"] == "vector":
            init["texp"] = [
                kepgen.gen_value(rng, "texp", cfg) for _ in init["t"]
            ]
    import sys

    n = rng.randint(5, 12)
    ops = gen_history(rng, sys.modules[__name__], cfg, init, n)
    return dict(cfg=cfg, init=init, ops=ops)


def gen_r(rng, cur):
    return cur.get("r", 0.1) if rng.random() < 0.8 else 0.0


def gen_set(rng, cfg, cur):
    v = {}
    k = rng.random()
    if k < 0.7:
        v.update(kepgen.gen_update(rng, cfg, cur))
    if k > 0.45 or not v:
        both = dict(cur)
        both.update(v)
        o = kepgen.ref_orbit(cfg, both)
        n = rng.choice([1, len(cur["t"]), rng.randint(1, 14)])
        v["t"] = kepgen.gen_times(rng, o, n, r=gen_r(rng, cur))
        if cfg.get("texp") == "vector":
            v["texp"] = [kepgen.gen_value(rng, "texp", cfg) for _ in v["t"]]
    if rng.random() < 0.2:
        v["K"] = kepgen.gen_value(rng, "K", cfg)
    if rng.random() < 0.2:
        v["plx"] = kepgen.gen_value(rng, "plx", cfg)
    if rng.random() < 0.2:
        v["r"] = kepgen.gen_value(rng, "r", dict(cfg, scalars=["r"]))
    return v


def gen_literal(rng, cfg, cur, q):
    n = rng.randint(1, 6)
    o = kepgen.ref_orbit(cfg, cur)
    out = dict(t=kepgen.gen_times(rng, o, n, r=gen_r(rng, cur)))
    for k in ("K", "plx", "r"):
        if rng.random() < 0.5:
            c = dict(cfg, scalars=["r"]) if k == "r" else cfg
            out[k] = kepgen.gen_value(rng, k, c)
    if cfg.get("texp") == "vector":
        out["texp"] = [kepgen.gen_value(rng, "texp", cfg) for _ in out["t"]]
    return out


def gen_query(rng, cfg, cur):
    q = gen_query0(rng, cfg, cur)
    if q["q"] in ("pos", "angles", "vel", "acc", "rv") and rng.random() < 0.2:
        # times may be a matrix (as for exposures) or a single number
        q["ts"] = rng.choice(["matrix", "matrix", "scalar"])
    return q


def gen_query0(rng, cfg, cur):
    k = rng.random()
    who = rng.choice(["rel", "planet", "star"])
    if k < 0.30:
        q = dict(q="pos", who=who)
        if rng.random() < 0.4:
            q["plx"] = True
        if rng.random() < 0.3:
            q["ld"] = True
        return q
    if k < 0.40:
        q = dict(q="angles")
        if rng.random() < 0.6:
            q["plx"] = True
        if rng.random() < 0.3:
            q["ld"] = True
        return q
    if k < 0.52:
        return dict(q="vel", who=who)
    if k < 0.62:
        return dict(q="acc", who=who)
    if k < 0.76:
        q = dict(q="rv")
        if rng.random() < 0.4:
            q["K"] = True
        else:
            q["unit"] = rng.choice(UNITS_RV)
        return q
    if k < 0.85:
        return dict(q="attrs")
    if k < 0.87:
        return dict(q="jac")
    if k < 0.9:
        return dict(q="anomaly")
    q = dict(q="in_transit")
    if rng.random() < 0.8:
        q["r"] = True
    if cfg.get("texp") and rng.random() < 0.6:
        q["texp"] = True
    return q


def gen_var(rng, cfg):
    if "Omega" in cfg["args"] and rng.random() < 0.3:
        return dict(drop=["Omega"])
    if "m_planet" in cfg["args"] and rng.random() < 0.3 and "a" not in cfg["args"]:
        return dict(drop=["m_planet"])
    return {}


def gen_corrupt(rng, cfg, cur):
    cand = [
        a
        for a in cfg["args"]
        if cfg["cont"].get(a, "shared") == "shared"
        and not (a == "omega" and cfg.get("sincos"))
    ] + ["t"]
    a = rng.choice(cand)
    bad = rng.choice([float("nan"), float("inf"), -1.0, 1e300, 0.0])
    v = cur[a]
    if isinstance(v, list):
        v = list(v)
        v[rng.randrange(len(v))] = bad
    else:
        v = bad
    return {a: v}


def build(w, cont, cfg, var):
    return kepgen.build_orbit(w, cont, cfg, drop=var.get("drop", ()))


DERIVED = ["m_total", "a_star", "a_planet", "cos_incl", "sin_incl", "n", "K0"]
ATTRS = [
    "period",
    "a",
    "t0",
    "t_periastron",
    "incl",
    "b",
    "m_planet",
    "m_star",
    "r_star",
    "rho_star",
]


def attrs_of(o):
    out = list(ATTRS) + DERIVED
    if not o.circ:
        out += ["ecc", "omega"]
    if o.Omega is not None:
        out += ["Omega"]
    return out


JAC = ["a", "a_star", "a_planet", "rho_star"]
ABSENT = -8.765e201
SPREAD = np.array([-0.011, 0.0, 0.037])


def ask(w, o, cont, cfg, q):
    t = cont["t"]
    if q.get("ts") == "matrix":
        t = t[:, None] + SPREAD
    elif q.get("ts") == "scalar":
        t = t[0]
    k = {}
    if q.get("plx"):
        k["parallax"] = cont["plx"]
    if q.get("ld"):
        k["light_delay"] = True
    who = {"rel": "relative"}.get(q.get("who"), q.get("who"))
    if q["q"] == "pos":
        return getattr(o, f"get_{who}_position")(t, **k)
    if q["q"] == "angles":
        return o.get_relative_angles(t, **k)
    if q["q"] == "vel":
        return getattr(o, f"get_{who}_velocity")(t)
    if q["q"] == "acc":
        return getattr(o, f"get_{who}_acceleration")(t)
    if q["q"] == "rv":
        if q.get("K"):
            return [o.get_radial_velocity(t, K=cont["K"])]
        if q.get("unit"):
            import astropy.units as u

            return [
                o.get_radial_velocity(t, output_units=u.Unit(q["unit"]))
            ]
        return [o.get_radial_velocity(t)]
    if q["q"] == "attrs":
        names = list(ATTRS) + DERIVED
        if o.ecc is not None:
            names += ["ecc", "omega"]
        if o.Omega is not None:
            names += ["Omega"]
        # (the derived ones are not documented: asked for where they exist)
        return [
            pt.as_tensor_variable(
                getattr(o, a, ABSENT) if a in DERIVED else getattr(o, a)
            )
            for a in names
        ]
    if q["q"] == "jac":
        out = [o.jacobians["b"]["cos_incl"]]
        if "duration" in cfg["args"] and o.ecc is None:
            out += [o.jacobians["duration"][k] for k in JAC]
        return [pt.as_tensor_variable(x) for x in out]
    if q["q"] == "anomaly":
        M = pt.as_tensor_variable(t).astype("float64") * 0.7
        return [w.orbits.get_true_anomaly(M, pt.zeros_like(M) + 0.3)]
    if q["q"] == "in_transit":
        kw = {}
        if q.get("r"):
            kw["r"] = cont["r"]
        if q.get("texp"):
            kw["texp"] = cont["texp"]
        return [o.in_transit(t, **kw)]
    raise KeyError(q)


def judge(s, what, name, q, got):
    # pt.squeeze drops the axes known to have length one; lengths known only
    # at run time stay, so answers are compared without such axes
    if q["q"] in ("pos", "angles", "vel", "acc", "rv"):
        got = [np.squeeze(np.asarray(g)) for g in got]
    vals = s.refvals(name)
    o = kepgen.ref_orbit(s.cfg, vals)
    t = np.asarray(vals["t"], float)
    s.ctx.sim_days += float(t.max() - t.min()) if len(t) else 0
    s.ctx.cov("q." + q["q"])
    if q.get("ts") == "matrix":
        t = np.ravel(t[:, None] + SPREAD)
        # (time, spread, planet) in the answer
        got = [
            np.reshape(g, (-1, o.npl)) if g.size == t.size * o.npl else g
            for g in got
        ]
        got = [np.squeeze(g) for g in got]
    elif q.get("ts") == "scalar":
        t = t[:1]
    if (
        "ecc" in s.cfg["args"]
        and q["q"] in ("pos", "angles", "vel", "acc", "rv")
        and o.at_apoastron(t, q.get("ld"))
    ):
        s.ctx.count("apoastron-timestamp")
        return
    plx = vals["plx"] if q.get("plx") else None
    kp = 1.0 if plx is None else plx * ref.AU
    a = np.max(o.a * (1 + o.e))
    # numerical sensitivity: position error / mean anomaly error at periastron
    amp = np.max(((1 + o.e) / (1 - o.e)) ** 1.5)
    trel = 1 + np.max(np.abs(t)) / np.min(o.period) if len(t) else 1.0
    eps = 1e-9 * amp + 3e-15 * trel * amp
    eps += 5e-15 * (np.max(np.abs(o.t0)) * np.max(o.n)) * amp
    if q["q"] == "pos":
        want = o.pos(q["who"], t, parallax=plx, light_delay=q.get("ld"))
        sc = np.max(np.abs(o.scale(q["who"]) * o.a * (1 + o.e)))
        atol = eps * max(sc, 1e-12) * kp
        if q.get("ld"):
            atol = atol + np.squeeze(o.delay_tol(q["who"], t, parallax=plx))
        for c, g, x in zip("xyz", got, want):
            compare(s.ctx, what + "." + c, g, np.squeeze(x), atol)
    elif q["q"] == "angles":
        x, y, _ = o.pos("rel", t, parallax=plx, light_delay=q.get("ld"))
        rho = np.sqrt(x**2 + y**2)
        th = np.arctan2(y, x)
        atol = eps * a * kp + 0 * rho
        if q.get("ld"):
            atol = atol + o.delay_tol("rel", t, parallax=plx)
        compare(s.ctx, what + ".rho", got[0], np.squeeze(rho), np.squeeze(atol))
        # compare the direction modulo a full turn
        g = np.asarray(got[1], float)
        d = np.squeeze(th)
        if g.shape == d.shape:
            g = d + np.arctan2(np.sin(g - d), np.cos(g - d))
            if np.any(np.abs(got[1]) > np.pi + 1e-9):
                g = np.asarray(got[1])
        with np.errstate(all="ignore"):
            at = np.minimum(np.squeeze(4 * atol / rho), 4.0)
        compare(s.ctx, what + ".theta", g, d, at)
    elif q["q"] == "vel":
        want = o.vel(q["who"], t)
        sc = np.abs(o.scale(q["who"]) * o.n * o.a / np.sqrt(1 - o.e**2))
        for c, g, x in zip("xyz", got, want):
            compare(
                s.ctx,
                what + "." + c,
                g,
                np.squeeze(x),
                3 * eps * max(np.max(sc), 1e-12),
            )
    elif q["q"] == "acc":
        want = o.acc(q["who"], t)
        sc = np.abs(o.scale(q["who"]) * o.n**2 * o.a / (1 - o.e) ** 2)
        for c, g, x in zip("xyz", got, want):
            compare(
                s.ctx,
                what + "." + c,
                g,
                np.squeeze(x),
                10 * eps * max(np.max(sc), 1e-12),
            )
    elif q["q"] == "rv":
        if q.get("K"):
            K = np.asarray(vals["K"], float)
            want = o.rv(t, K=K)
            sc = np.max(np.abs(K)) * 2
        else:
            unit = ref.MS
            if q.get("unit"):
                import astropy.units as u

                unit = (1 * u.R_sun / u.day).to(u.Unit(q["unit"])).value
            want = o.rv(t, unit=unit)
            sc = unit * np.max(
                np.abs(o.scale("star") * o.n * o.a / np.sqrt(1 - o.e**2))
            )
        compare(s.ctx, what, got[0], np.squeeze(want), 3 * eps * max(sc, 1e-9))
    elif q["q"] == "attrs":
        for nm, g in zip(attrs_of(o), got):
            x = getattr(o, nm)
            g = np.asarray(g, float)
            if nm in DERIVED and g.ndim == 0 and g == ABSENT:
                continue
            try:
                x = np.broadcast_to(x, g.shape) + 0.0
            except ValueError:
                pass
            at = 1e-12
            if nm in ("t0", "t_periastron"):
                at = 1e-9 * np.max(o.period) + 1e-9
                given = "t_periastron" if "t_periastron" in s.cfg["args"] else "t0"
                if nm != given and g.shape == np.shape(x):
                    # the derived epoch is fixed up to whole periods
                    P = np.broadcast_to(o.period, g.shape)
                    g = g - P * np.round((g - x) / P)
            if nm in ("b", "incl", "cos_incl", "sin_incl"):
                # arccos loses half the digits near edge-on-pole
                at = 1e-7
            if nm == "omega" and s.cfg.get("sincos"):
                at = 1e-9
            compare(s.ctx, f"{name}.{nm}", g, x, at, rtol=1e-9)
    elif q["q"] == "jac":
        want = [o.r_star / (o.a * o.r0)]
        names = ["b.cos_incl"]
        if o.daor is not None:
            names += ["duration." + k for k in JAC]
            want += [o.jac(k) for k in JAC]
        for nm, g, x in zip(names, got, want):
            g = np.asarray(g, float)
            try:
                x = np.broadcast_to(x, g.shape) + 0.0
            except ValueError:
                pass
            compare(s.ctx, f"{name}.jacobian.{nm}", g, x, 1e-11, rtol=1e-8)
    elif q["q"] == "anomaly":
        M = t * 0.7
        f = ref.true_anomaly(M, 0.3)
        d = np.arctan2(np.sin(f), np.cos(f))
        if np.any(np.abs(d) > np.pi - 5e-5):
            s.ctx.count("apoastron-timestamp")
            return
        g = np.asarray(got[0])
        if g.shape == d.shape:
            g = d + np.arctan2(np.sin(g - d), np.cos(g - d))
        compare(s.ctx, what, g, d, 1e-8 + 1e-15 * np.max(np.abs(M)))
    elif q["q"] == "in_transit":
        r = vals["r"] if q.get("r") else 0.0
        judge_in_transit(s, what, o, t, r, vals.get("texp") if q.get("texp") else None, got[0])


def judge_in_transit(s, what, o, t, r, texp, got):
    from ..core import Violation

    got = np.asarray(got)
    s.ctx.checks += 1
    if got.dtype.kind not in "iu" or got.ndim != 1:
        raise Violation("wrong-shape", f"{what}: {got!r} is no index vector")
    got = [int(g) for g in got]
    n = len(t)
    if got != sorted(set(got)) or any(g < 0 or g >= n for g in got):
        raise Violation("wrong-value", f"{what}: bad indices {got} of {n}")
    # time margin: phases lose precision for large clock values
    marg = 1e-6 * np.max(o.r_star)
    v = np.max(o.n * o.a * (1 + o.e) / np.sqrt(1 - o.e**2))
    marg += v * 1e-15 * 50 * (np.max(np.abs(t)) + np.max(np.abs(o.t0)) if n else 1)
    must, mustnot = o.transit_sets(t, r, texp, margin=marg)
    s.ctx.log("in_transit", got)
    for i in range(n):
        if must[i] and i not in got:
            raise Violation(
                "missing-in-transit",
                f"{what}: timestamp {i} ({t[i]!r}) is in transit but not in {got}",
            )
    # when a planet on an eccentric orbit does not transit, every timestamp
    # may be reported (nothing is skipped)
    if o.circ or o.all_transit(r):
        for i in range(n):
            if mustnot[i] and i in got:
                raise Violation(
                    "spurious-in-transit",
                    f"{what}: timestamp {i} ({t[i]!r}) is out of transit but in {got}",
                )


def run(scn, ctx):
    import sys

    ctx.cov("basis." + scn["cfg"]["basis"])
    ctx.cov("ecc" if "ecc" in scn["cfg"]["args"] else "circular")
    ctx.cov("npl%d" % scn["cfg"]["npl"])
    Session(ctx, sys.modules[__name__], scn).run()
