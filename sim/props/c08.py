"""C08: a long-lived simple transit orbit answers for its current inputs."""

import sys

import numpy as np

from .. import ref
from ..core import Violation
from ..session import Session, compare, gen_dtypes, gen_history, whole
from ..kepgen import sig6

PROP = "C08"
N = {"quick": 1800, "thorough": 30000}
RULE = (
    "a seeded SimpleTransitOrbit over updatable containers is driven through "
    "a seeded history of input updates, timestamp resizes, queries, extra "
    "builds, failing calls, corrupt inputs, checkpoints and crash-restarts; "
    "every answer is compared with a chord model. Non-trivial: at least one "
    "answer compared."
)
REAL = [
    "exoplanet.orbits.SimpleTransitOrbit",
    "PyTensor graphs compiled in Python mode",
    "cloudpickle save/restore",
]
STUB = [
    "process crash: package modules discarded and re-imported in process",
    "C linker (PyTensor runs its Python implementations)",
]
ASSUME = [
    "timestamps closer than 1e-9 days to an edge of the transit or of the "
    "period are not judged",
    "durations are shorter than the period",
]
NAMES = ["period", "duration", "t0", "b", "r_star", "ror"]


def sig(cfg):
    return (cfg["npl"], tuple(cfg["args"]), tuple(cfg["scalars"]))


def val(rng, name, cfg):
    return whole(name, cfg, val0(rng, name, cfg))


def val0(rng, name, cfg):
    n = cfg["npl"]
    U = rng.uniform

    def vec(f):
        if name in cfg["scalars"]:
            return sig6(f())
        return [sig6(f()) for _ in range(n)]

    if name == "period":
        return vec(lambda: U(1.5, 40))
    if name == "duration":
        return vec(lambda: U(0.03, 0.6))
    if name == "t0":
        big = rng.random() < 0.1
        return vec(lambda: U(-5, 5) + (2457000.0 if big else 0))
    if name == "b":
        graze = cfg.get("graze") and rng.random() < 0.4
        return vec(
            lambda: U(0.95, 1.2)
            if graze
            else rng.choice([U(0, 0.95), 0.0, U(-0.5, 0.9)])
        )
    if name == "r_star":
        return sig6(U(0.2, 2))
    if name in ("ror",):
        return vec(lambda: rng.choice([0.0, U(0, 0.3)]))
    if name == "r":
        return vec(lambda: U(0.0, 0.4))
    if name == "texp":
        return sig6(10 ** U(-3, -0.5))
    raise KeyError(name)


def times(rng, cfg, cur, n):
    o = refo(cfg, cur)
    out = []
    v = lambda x, j: float(np.broadcast_to(x, (o.npl,))[j])  # noqa
    for _ in range(n):
        j = rng.randrange(o.npl)
        t0, P, D = v(o.t0, j), v(o.period, j), v(o.duration, j)
        k = rng.choice([0, 0, 1, -1, rng.randint(-30, 30)])
        if rng.random() < 0.65:
            t = t0 + k * P + rng.uniform(-0.9, 0.9) * D
        else:
            t = t0 + rng.uniform(-2, 3) * P
        out.append(float("%.13g" % t))
    return out


def gen(rng, i, tier):
    return base(rng, i, tier, graze=True)


def base(rng, i, tier, graze=False):
    npl = rng.choice([1, 1, 2, 2, 3])
    cfg = dict(npl=npl, scalars=["r_star"], cont={}, opt=rng.random() < 0.2)
    args = ["period", "duration"] + [
        a for a in NAMES[2:] if rng.random() < 0.75
    ]
    cfg["args"] = args
    # (some planets just touch the star, or not even that)
    cfg["graze"] = graze and "ror" in args and rng.random() < 0.2
    if npl == 1 and rng.random() < 0.6:
        cfg["scalars"] = NAMES + ["r"]
    else:
        cfg["scalars"] += [
            a for a in ("t0", "b", "ror", "r") if rng.random() < 0.15
        ]
    for a in args:
        cfg["cont"][a] = rng.choice(["shared"] * 5 + ["array", "tensor"])
        if a in cfg["scalars"] and cfg["cont"][a] == "array":
            cfg["cont"][a] = "float"
    gen_dtypes(rng, cfg, args + ["r", "t"])
    init = {a: val(rng, a, cfg) for a in args}
    init["r"] = val(rng, "r", cfg)
    init["t"] = times(rng, cfg, init, rng.randint(2, 14))
    if rng.random() < 0.6:
        cfg["texp"] = rng.choice(["scalar", "vector"])
        init["texp"] = (
            val(rng, "texp", cfg)
            if cfg["texp"] == "scalar"
            else [val(rng, "texp", cfg) for _ in init["t"]]
        )
    ops = gen_history(
        rng, sys.modules[__name__], cfg, init, rng.randint(5, 12)
    )
    return dict(cfg=cfg, init=init, ops=ops)


def gen_set(rng, cfg, cur):
    v = {}
    cand = [a for a in cfg["args"] + ["r"] if cfg["cont"].get(a, "shared") == "shared"]
    if cand and rng.random() < 0.75:
        for a in rng.sample(cand, rng.randint(1, min(3, len(cand)))):
            v[a] = val(rng, a, cfg)
    if rng.random() < 0.6 or not v:
        v["t"] = times(
            rng, cfg, dict(cur, **v), rng.choice([1, len(cur["t"]), rng.randint(1, 14)])
        )
        if cfg.get("texp") == "vector":
            v["texp"] = [val(rng, "texp", cfg) for _ in v["t"]]
    if cfg.get("texp") == "scalar" and rng.random() < 0.3:
        v["texp"] = val(rng, "texp", cfg)
    return v


def gen_literal(rng, cfg, cur, q):
    out = dict(t=times(rng, cfg, cur, rng.randint(1, 6)), r=val(rng, "r", cfg))
    if cfg.get("texp") == "vector":
        out["texp"] = [val(rng, "texp", cfg) for _ in out["t"]]
    return out


def gen_query(rng, cfg, cur):
    k = rng.random()
    if k < 0.5:
        return dict(q="pos", who=rng.choice(["rel", "rel", "planet", "star"]))
    if k < 0.6:
        return dict(q="attrs")
    q = dict(q="in_transit")
    if rng.random() < 0.7:
        q["r"] = True
    if cfg.get("texp") and rng.random() < 0.7:
        q["texp"] = True
    return q


def gen_var(rng, cfg):
    opt = [a for a in cfg["args"] if a in ("t0", "b", "ror", "r_star")]
    if opt and rng.random() < 0.4:
        return dict(drop=[rng.choice(opt)])
    return {}


def gen_corrupt(rng, cfg, cur):
    a = rng.choice(
        [x for x in cfg["args"] if cfg["cont"][x] == "shared"] + ["t"]
    )
    bad = rng.choice([float("nan"), float("inf"), -1.0, 1e300, 0.0])
    v = cur[a]
    if isinstance(v, list):
        v = list(v)
        v[rng.randrange(len(v))] = bad
    else:
        v = bad
    return {a: v}


def build(w, cont, cfg, var):
    kw = {a: cont[a] for a in cfg["args"] if a not in var.get("drop", ())}
    return w.orbits.SimpleTransitOrbit(**kw)


def refo(cfg, vals):
    return ref.Simple(**{a: vals[a] for a in cfg["args"] if a in vals})


def ask(w, o, cont, cfg, q):
    t = cont["t"]
    if q["q"] == "pos":
        who = {"rel": "relative"}.get(q["who"], q["who"])
        return getattr(o, f"get_{who}_position")(t)
    if q["q"] == "attrs":
        return [o.period, o.t0, o.b, o.duration, o.r_star]
    kw = {}
    if q.get("r"):
        kw["r"] = cont["r"]
    if q.get("texp"):
        kw["texp"] = cont["texp"]
    return [o.in_transit(t, **kw)]


def judge(s, what, name, q, got):
    vals = s.refvals(name)
    o = refo(s.cfg, vals)
    t = np.asarray(vals["t"], float)
    s.ctx.sim_days += float(t.max() - t.min()) if len(t) else 0
    s.ctx.cov("q." + q["q"])
    clock = 1e-15 * 30 * (np.max(np.abs(t)) + np.max(np.abs(o.t0)) + 1)
    tol = 1e-9 + clock
    if q["q"] == "pos":
        if q["who"] == "star":
            for c, g in zip("xyz", got):
                g = np.asarray(g)
                compare(s.ctx, what + "." + c, g, 0 * t, 0)
            return
        x, y, z = o.pos(t)
        edge = o.edge(t, tol)
        v = np.max(np.nan_to_num(np.abs(o.speed)))
        d = o.dt(t)
        half = np.abs(np.abs(d) - 0.5 * o.period) < tol
        zed = np.abs(np.abs(d) - 0.5 * o.duration) < tol
        compare(
            s.ctx,
            what + ".x",
            np.squeeze(got[0]),
            np.squeeze(x),
            v * tol,
            mask=np.squeeze(~half),
        )
        compare(s.ctx, what + ".y", np.squeeze(got[1]), np.squeeze(y), 1e-10)
        # only the sign of z has a meaning
        gz = np.squeeze(np.sign(got[2]))
        compare(
            s.ctx, what + ".z", gz, np.squeeze(z), 0, mask=np.squeeze(~(half | zed))
        )
        del edge
    elif q["q"] == "attrs":
        for nm, g in zip(["period", "t0", "b", "duration", "r_star"], got):
            compare(s.ctx, f"{name}.{nm}", g, getattr(o, nm), 1e-12)
    else:
        r = np.asarray(vals["r"], float) if q.get("r") else None
        texp = vals.get("texp") if q.get("texp") else None
        got = [int(g) for g in np.asarray(got[0])]
        n = len(t)
        s.ctx.checks += 1
        s.ctx.log("in_transit", got)
        if got != sorted(set(got)) or any(g < 0 or g >= n for g in got):
            raise Violation("wrong-value", f"{what}: bad indices {got} of {n}")
        must, mustnot = o.in_transit(t, r, texp, tol)
        for k in range(n):
            if must[k] and k not in got:
                raise Violation(
                    "missing-in-transit",
                    f"{what}: {k} ({t[k]!r}) is in transit, not in {got}",
                )
            if mustnot[k] and k in got:
                raise Violation(
                    "spurious-in-transit",
                    f"{what}: {k} ({t[k]!r}) is not in transit, in {got}",
                )


def run(scn, ctx):
    ctx.cov("npl%d" % scn["cfg"]["npl"])
    for a in scn["cfg"]["args"]:
        ctx.cov("arg." + a)
    Session(ctx, sys.modules[__name__], scn).run()
