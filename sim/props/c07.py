"""C07: transit-timing orbits keep every transit at its labelled time."""

import sys

import numpy as np
import pytensor.tensor as pt

from .. import kepgen, ref
from ..core import Violation
from ..kepgen import sig6
from ..session import Session, compare, gen_dtypes, gen_history
from . import c05

PROP = "C07"
N = {"quick": 900, "thorough": 20000}
RULE = (
    "a seeded TTVOrbit (offsets or transit times, all or some transits "
    "labelled, same or separate shape period) over updatable containers is "
    "driven through a seeded history of timing updates, changes in the number "
    "of transits, timestamp resizes, queries, extra builds, failing calls, "
    "corrupt inputs, checkpoints and crash-restarts; every answer is compared "
    "with a nearest-labelled-transit model over an independent two-body "
    "solution. Non-trivial: at least one answer compared."
)
REAL = [
    "exoplanet.orbits.TTVOrbit, KeplerianOrbit",
    "exoplanet_core Kepler and contact-point ops",
    "PyTensor graphs compiled in Python mode",
    "cloudpickle save/restore",
]
STUB = c05.STUB
ASSUME = [
    "timestamps within 2.5e-5 (eccentric anomaly) of apoastron are not judged: "
    "the Kepler solver of exoplanet_core answers for apoastron itself there",
    "offsets are below 15% of the period, so labelled transits stay ordered",
    "timestamps within 1e-7 days of the midpoint of two transits are not judged",
]


def sig(cfg):
    return (
        cfg["npl"],
        cfg["mode"],
        cfg["inds"],
        cfg["sep"],
        tuple(cfg["args"]),
    )


def nm(kind, j):
    return f"{kind}{j}"


def gen_tt(rng, cfg, cur, j, n):
    """Transit times of n labelled transits of planet j (mode 'times')."""
    P, t0 = cfg["lin"][j]
    inds = cfg["ind"][j] if cfg["inds"] else list(range(n))
    t0 = t0 + rng.uniform(-0.2, 0.2)
    P = P * (1 + rng.uniform(-0.01, 0.01))
    amp = rng.choice([0.0, 0.01, 0.1]) * P
    return [sig9(t0 + P * k + rng.uniform(-1, 1) * amp) for k in inds]


def gen_ttv(rng, cfg, cur, j, n):
    P = np.broadcast_to(np.asarray(cur["period"], float), (cfg["npl"],))[j]
    amp = rng.choice([0.0, 0.01, 0.1]) * float(P)
    return [sig9(rng.uniform(-1, 1) * amp) for _ in range(n)]


def sig9(x):
    return float("%.10g" % x)


def gen(rng, i, tier):
    cfg = kepgen.gen_cfg(rng, basis=rng.choice(["P", "Pmr", "Prho", "Prhor"]))
    cfg["mode"] = rng.choice(["ttvs", "times", "times"])
    cfg["inds"] = rng.random() < 0.5
    cfg["sep"] = None
    cfg["units"] = {}
    cfg["mpl_kw"] = cfg["rho_kw"] = None
    npl = cfg["npl"]
    # one entry per planet throughout
    cfg["scalars"] = [
        a
        for a in cfg["scalars"]
        if a in ("Omega", "m_planet", "incl", "b", "r", "K") and npl > 1
    ]
    args = cfg["args"]
    if "t_periastron" in args and (cfg["mode"] == "times"):
        args.remove("t_periastron")
    if cfg["mode"] == "times":
        if "t0" in args:
            args.remove("t0")
        cfg["sep"] = rng.choice([None, None, "period", "delta"])
        if cfg["sep"] != "period":
            args.remove("period")
    cfg["ind"] = []
    cfg["lin"] = []
    gen_dtypes(rng, cfg, args + ["r", "K", "plx", "t"], ints=False)
    # base values of the rest
    full = dict(cfg, args=["period"] + [a for a in args if a != "period"])
    init = kepgen.gen_vals(rng, full)
    P = np.broadcast_to(np.asarray(init["period"], float), (npl,))
    for j in range(npl):
        n = rng.randint(2, 7)
        if cfg["mode"] == "ttvs" and rng.random() < 0.2:
            n = 1
        ind = sorted(rng.sample(range(n + 3), n))
        if rng.random() < 0.3:
            ind = list(range(n))
        if rng.random() < 0.15:
            rng.shuffle(ind)
        cfg["ind"].append(ind)
        cfg["lin"].append([float(P[j]), sig6(rng.uniform(-4, 4))])
    if cfg["mode"] == "times":
        if cfg["sep"] != "period":
            init.pop("period")
        if cfg["sep"] == "period":
            cfg["cont"]["period"] = "shared"
            init["period"] = [
                sig9(p * (1 + rng.uniform(-0.03, 0.03))) for p, _ in cfg["lin"]
            ]
        if cfg["sep"] == "delta":
            init["delta"] = [sig6(rng.uniform(-0.03, 0.03)) for _ in range(npl)]
    for j in range(npl):
        n = len(cfg["ind"][j])
        g = gen_tt if cfg["mode"] == "times" else gen_ttv
        init[nm("tt", j)] = g(rng, cfg, init, j, n)
        cfg["cont"][nm("tt", j)] = rng.choice(["shared"] * 5 + ["array"])
    init["K"] = kepgen.gen_value(rng, "K", cfg)
    init["plx"] = kepgen.gen_value(rng, "plx", cfg)
    init["r"] = kepgen.gen_value(rng, "r", dict(cfg, scalars=["r"]))
    if rng.random() < 0.3:
        init["texp"] = kepgen.gen_value(rng, "texp", cfg)
        cfg["texp"] = "scalar"
    cfg["indkind"] = rng.choice(["array", "list", "shared"])
    init["t"] = kepgen.gen_times(rng, refo(cfg, init), rng.randint(2, 12))
    ops = gen_history(
        rng, sys.modules[__name__], cfg, init, rng.randint(5, 11)
    )
    return dict(cfg=cfg, init=init, ops=ops)


def ok(cfg, v):
    try:
        with np.errstate(all="raise"):
            o = refo(cfg, v)
    except (FloatingPointError, ValueError, IndexError):
        return False
    good = bool(np.all(o.a * (1 - o.e) > 2.5 * o.r_star))
    good &= bool(np.all(np.isfinite(o.incl)))
    good &= bool(np.all(o.m_star > 0.01))
    for f in o.ttv.full:
        good &= bool(np.all(np.diff(f) > 0.3 * np.min(o.ttv_period)))
    return good


def gen_set(rng, cfg, cur):
    v = {}
    for _ in range(20):
        v = {}
        if rng.random() < 0.75:
            for j in range(cfg["npl"]):
                a = nm("tt", j)
                if cfg["cont"].get(a) == "shared" and rng.random() < 0.7:
                    n = len(cur[a])
                    if not cfg["inds"] and rng.random() < 0.4:
                        n = rng.randint(1 + (cfg["mode"] == "times"), 8)
                    g = gen_tt if cfg["mode"] == "times" else gen_ttv
                    v[a] = g(rng, cfg, cur, j, n)
        cand = [
            a
            for a in cfg["args"]
            if cfg["cont"].get(a, "shared") == "shared"
            and a not in ("period",)
        ]
        if rng.random() < 0.5 and cand:
            for a in rng.sample(cand, 1):
                if a == "omega" and cfg.get("sincos"):
                    continue
                v[a] = kepgen.gen_value(rng, a, cfg)
        if "delta" in cur and rng.random() < 0.3:
            v["delta"] = [
                sig6(rng.uniform(-0.03, 0.03)) for _ in range(cfg["npl"])
            ]
        if "period" in cfg["args"] and rng.random() < 0.3:
            if cfg["cont"]["period"] == "shared":
                v["period"] = [
                    sig9(p * (1 + rng.uniform(-0.02, 0.02)))
                    for p, _ in cfg["lin"]
                ]
        if v and ok(cfg, dict(cur, **v)):
            break
    else:
        v = {}
    if rng.random() < 0.6 or not v:
        n = rng.choice([1, len(cur["t"]), rng.randint(1, 14)])
        v["t"] = kepgen.gen_times(rng, refo(cfg, dict(cur, **v)), n)
    return v


def gen_literal(rng, cfg, cur, q):
    return dict(
        t=kepgen.gen_times(rng, refo(cfg, cur), rng.randint(1, 6)),
        r=kepgen.gen_value(rng, "r", dict(cfg, scalars=["r"])),
    )


def gen_query(rng, cfg, cur):
    k = rng.random()
    if k < 0.2:
        return dict(q="mid")
    if k < 0.45:
        return dict(q="timing")
    if k < 0.55:
        return dict(q="in_transit", r=True, **(
            dict(texp=True) if cfg.get("texp") else {}))
    if k < 0.6:
        return gen_window(rng, cfg)
    while True:
        q = c05.gen_query(rng, cfg, cur)
        if q["q"] in ("pos", "vel", "rv", "acc", "angles") and not q.get("ld"):
            return q


def gen_window(rng, cfg):
    """The transits expected in a window, asked for whole and in pieces."""
    n = rng.randint(1, 3)
    P = [sig6(10 ** rng.uniform(-0.3, 1.5)) for _ in range(n)]
    t0 = [sig6(rng.choice([0, 0, 2.4e3, -300]) + rng.uniform(-40, 40)) for _ in P]
    while True:
        a = rng.choice([0.0, 2.4e3, -300.0]) + rng.uniform(-60, 60)
        cuts = [a]
        for _ in range(rng.randint(1, 3)):
            cuts.append(cuts[-1] + rng.choice([1e-3, 0.3, 1, 10]) * rng.random() * 10)
        cuts = [sig9(c) for c in cuts]
        ph = (np.array(cuts)[:, None] - t0) / P
        if np.all(np.abs(ph - np.round(ph)) > 1e-6):
            break
    if n == 1 and rng.random() < 0.5:
        P, t0 = P[0], t0[0]
    return dict(q="window", P=P, t0=t0, cuts=cuts)


def gen_var(rng, cfg):
    return {}


def gen_corrupt(rng, cfg, cur):
    cand = [nm("tt", j) for j in range(cfg["npl"])] + ["t"]
    a = rng.choice(cand)
    v = list(cur[a])
    v[rng.randrange(len(v))] = rng.choice([float("nan"), 1e300, -5000.0])
    return {a: v}


def build(w, cont, cfg, var):
    import pytensor

    lists = cont.get("__lists", {})
    tts = [cont[nm("tt", j)] for j in range(cfg["npl"])]
    tts = lists.get("tts", tts)
    kw = {}
    kw["ttvs" if cfg["mode"] == "ttvs" else "transit_times"] = tts
    if cfg["inds"]:
        k = cfg["indkind"]
        kw["transit_inds"] = [
            np.array(x)
            if k == "array"
            else (list(x) if k == "list" else pytensor.shared(np.array(x)))
            for x in cfg["ind"]
        ]
        if "inds" in lists:
            kw["transit_inds"] = lists["inds"]
    if cfg["sep"] == "delta":
        kw["delta_log_period"] = cont["delta"]
    return kepgen.build_orbit(w, cont, cfg, cls=w.orbits.TTVOrbit, extra=kw)


def refo(cfg, vals):
    npl = cfg["npl"]
    inds = [
        cfg["ind"][j] if cfg["inds"] else list(range(len(vals[nm("tt", j)])))
        for j in range(npl)
    ]
    tts = [np.asarray(vals[nm("tt", j)], float) for j in range(npl)]
    kw = {a: vals[a] for a in cfg["args"] if a in vals}
    if "omega" in cfg["args"] and cfg.get("sincos"):
        kw["omega"] = np.arctan2(vals["sin_omega"], vals["cos_omega"])
    if cfg["mode"] == "times":
        lin = [linfit(i, x) for i, x in zip(inds, tts)]
        t0 = np.array([x[0] for x in lin])
        P = np.array([x[1] for x in lin])
        kw["t0"] = t0
        if cfg["sep"] == "period":
            pass
        elif cfg["sep"] == "delta":
            kw["period"] = P * np.exp(np.asarray(vals["delta"]))
        else:
            kw["period"] = P
        o = ref.Orbit(**kw)
        times = tts
    else:
        o = ref.Orbit(**kw)
        t0 = np.broadcast_to(o.t0, (npl,))
        P = np.broadcast_to(o.period, (npl,))
        times = [
            t0[j] + P[j] * np.asarray(inds[j]) + tts[j] for j in range(npl)
        ]
    o.ttv = ref.TTV(times, inds, t0, P)
    o.ttv_period = P
    o.ttv_t0 = t0
    o.times = times
    o.inds = inds
    o.offsets = [
        x - (t0[j] + P[j] * np.asarray(inds[j])) for j, x in enumerate(times)
    ]
    return o


linfit = ref.linfit


def windows(q):
    c = q["cuts"]
    return [(c[0], c[-1])] + list(zip(c[:-1], c[1:]))


def ask(w, o, cont, cfg, q):
    if q["q"] == "window":
        out = []
        for a, b in windows(q):
            x = w.ttv.compute_expected_transit_times(a, b, q["P"], q["t0"])
            out += [pt.as_tensor_variable(np.asarray(v, float)) for v in x]
        return out
    if q["q"] == "mid":
        # position at each planet's own transit times
        out = []
        for j in range(cfg["npl"]):
            out += list(o.get_relative_position(o.transit_times[j]))
        return out
    if q["q"] == "timing":
        return (
            list(o.transit_times)
            + list(o.ttvs)
            + list(o.transit_inds)
            + [o.t0, o.period, o.ttv_period]
            + list(o.all_transit_times)
        )
    return c05.ask(w, o, cont, cfg, q)


def judge(s, what, name, q, got):
    cfg = s.cfg
    if q["q"] == "window":
        s.ctx.cov("q.window")
        want = []
        for a, b in windows(q):
            for P, t0 in zip(np.atleast_1d(q["P"]), np.atleast_1d(q["t0"])):
                k = np.arange(np.ceil((a - t0) / P), np.floor((b - t0) / P) + 1)
                want.append(t0 + P * k)
        if len(got) != len(want):
            raise Violation("wrong-shape", f"{what}: {len(got)} of {len(want)}")
        for g, x in zip(got, want):
            compare(s.ctx, what, g, x, 1e-9)
        return
    vals = s.refvals(name)
    o = refo(cfg, vals)
    npl = cfg["npl"]
    s.ctx.cov("q." + q["q"])
    teps = 1e-9 * np.max(o.period)
    if q["q"] == "timing":
        k = 0
        for tag, ref_ in (
            ("transit_times", o.times),
            ("ttvs", o.offsets),
            ("transit_inds", o.inds),
        ):
            for j in range(npl):
                compare(s.ctx, f"{name}.{tag}[{j}]", got[k], ref_[j], teps)
                k += 1
        g0 = np.asarray(got[k])
        want0 = np.asarray(o.ttv_t0, float)
        if cfg["mode"] == "ttvs" and "t_periastron" in cfg["args"]:
            # any transit may serve as the reference
            Pv = np.broadcast_to(o.period, np.shape(g0))
            g0 = g0 - Pv * np.round((g0 - want0) / Pv)
        compare(s.ctx, name + ".t0", g0, want0, teps)
        compare(s.ctx, name + ".period", got[k + 1], np.broadcast_to(o.period, np.shape(got[k + 1])), teps)
        compare(s.ctx, name + ".ttv_period", got[k + 2], o.ttv_period, teps)
        for j in range(npl):
            compare(
                s.ctx,
                f"{name}.all_transit_times[{j}]",
                got[k + 3 + j],
                o.ttv.full[j],
                teps,
            )
        return
    amp = np.max(((1 + o.e) / (1 - o.e)) ** 1.5)
    if q["q"] == "mid":
        plain = refo(cfg, vals)
        for j in range(npl):
            x, y, z = (
                np.asarray(g, float).reshape(len(o.times[j]), npl)[:, j]
                for g in got[3 * j : 3 * j + 3]
            )
            # the configuration at the reference transit
            plain.ttv = None
            wx, wy, wz = (
                np.broadcast_to(c, (1, npl))[0, j]
                for c in plain.rel_dt(np.zeros((1, npl)))
            )
            sc = 1e-8 * amp * np.max(o.a)
            for c, g, x_ in (("x", x, wx), ("y", y, wy), ("z", z, wz)):
                compare(
                    s.ctx, f"{name}.mid[{j}].{c}", g, x_ + 0 * g, sc
                )
        return
    t = np.asarray(vals["t"], float)
    s.ctx.sim_days += float(t.max() - t.min()) if len(t) else 0
    if q.get("ts") == "matrix":
        t = np.ravel(t[:, None] + c05.SPREAD)
    amb = np.zeros((len(t), npl), bool)
    for j in range(npl):
        amb[:, j] = o.ttv.ambiguous(j, t, 1e-7)
    if amb.any():
        s.ctx.count("ambiguous-timestamp")
        return
    orig = kepgen.ref_orbit
    try:
        kepgen.ref_orbit = lambda c, v: o
        c05.judge(s, what, name, q, got)
    finally:
        kepgen.ref_orbit = orig


def run(scn, ctx):
    c = scn["cfg"]
    ctx.cov("mode." + c["mode"])
    ctx.cov("some-labelled" if c["inds"] else "all-labelled")
    ctx.cov("sep.%s" % c["sep"])
    Session(ctx, sys.modules[__name__], scn).run()
