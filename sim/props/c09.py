"""C09: a long-lived interpolation table answers for its current contents."""

import sys

import numpy as np
import pytensor.tensor as pt

from .. import ref
from ..kepgen import sig6
from ..session import Session, compare, gen_dtypes, gen_history

PROP = "C09"
N = {"quick": 900, "thorough": 30000}
RULE = (
    "a seeded RegularGridInterpolator (1-3 dimensions, scalar or vector "
    "valued, with or without fill value) is driven through a seeded history "
    "of grid, table and coordinate updates and resizes, queries on the grid, "
    "on its edges, inside cells and outside, failing calls, corrupt inputs, "
    "checkpoints and crash-restarts; every answer is compared with a direct "
    "multilinear interpolation. Non-trivial: at least one answer compared."
)
REAL = [
    "exoplanet.interp",
    "PyTensor graphs compiled in Python mode",
    "cloudpickle save/restore",
]
STUB = [
    "process crash: package modules discarded and re-imported in process",
    "C linker (PyTensor runs its Python implementations)",
]
ASSUME = ["grids are strictly increasing with at least two points"]


def sig(cfg):
    return (cfg["nd"], len(cfg["out"]), cfg["fill"] is None, cfg["how"])


def shape_of(cfg, cur):
    return [len(cur["p%d" % d]) for d in range(cfg["nd"])] + cfg["out"]


def gen_grid(rng, n):
    x = [sig6(rng.uniform(-3, 3))]
    for _ in range(n - 1):
        x.append(sig6(x[-1] + 10 ** rng.uniform(-2, 0.5)))
    return x


def gen_values(rng, shape):
    n = int(np.prod(shape))
    return np.reshape(
        [sig6(rng.uniform(-10, 10)) for _ in range(n)], shape
    ).tolist()


def gen_coords(rng, cfg, cur, n):
    out = []
    for _ in range(n):
        row = []
        for d in range(cfg["nd"]):
            g = cur["p%d" % d]
            k = rng.random()
            if k < 0.45:
                x = rng.uniform(g[0], g[-1])
            elif k < 0.65:
                x = rng.choice(g)
            elif k < 0.75:
                x = rng.choice([g[0], g[-1]])
            elif k < 0.85:
                x = rng.uniform(g[0] - 2, g[0])
            elif k < 0.95:
                x = rng.uniform(g[-1], g[-1] + 2)
            else:
                x = rng.choice([np.nextafter(g[0], 9e9), np.nextafter(g[-1], -9e9)])
            row.append(float(x))
        out.append(row)
    return out


def gen(rng, i, tier):
    nd = rng.choice([1, 1, 2, 2, 3] * 5 + [4])
    cfg = dict(
        nd=nd,
        out=rng.choice([[], [], [1], [3], [2, 2]]),
        fill=rng.choice([None, None, 0.0, -7.5, "nan", "shared"]),
        how=rng.choice(["class", "class", "func"]),
        cont={},
        opt=rng.random() < 0.2,
    )
    gen_dtypes(rng, cfg, ["p%d" % d for d in range(nd)] + ["v", "x", "fill"])
    init = {}
    for d in range(nd):
        init["p%d" % d] = gen_grid(rng, rng.choice([2, rng.randint(2, 7 if nd < 4 else 3)]))
        cfg["cont"]["p%d" % d] = rng.choice(["shared"] * 3 + ["array", "tensor"])
    init["v"] = gen_values(rng, shape_of(cfg, init))
    cfg["cont"]["v"] = rng.choice(["shared"] * 4 + ["array", "tensor"])
    init["x"] = gen_coords(rng, cfg, init, rng.randint(1, 8))
    if cfg["fill"] == "shared":
        init["fill"] = sig6(rng.uniform(-100, 100))
    ops = gen_history(
        rng, sys.modules[__name__], cfg, init, rng.randint(5, 12)
    )
    return dict(cfg=cfg, init=init, ops=ops)


def gen_set(rng, cfg, cur):
    v = {}
    sh = lambda a: cfg["cont"].get(a, "shared") == "shared"  # noqa
    k = rng.random()
    if k < 0.35 and sh("v"):
        v["v"] = gen_values(rng, shape_of(cfg, cur))
    elif k < 0.7 and sh("v"):
        for d in range(cfg["nd"]):
            nm = "p%d" % d
            if sh(nm) and rng.random() < 0.7:
                n = rng.choice([len(cur[nm]), 2, rng.randint(2, 7 if cfg["nd"] < 4 else 3)])
                v[nm] = gen_grid(rng, n)
        v["v"] = gen_values(rng, shape_of(cfg, dict(cur, **v)))
    if "v" in v:
        # an update of the table is complete in itself
        for d in range(cfg["nd"]):
            if sh("p%d" % d):
                v.setdefault("p%d" % d, cur["p%d" % d])
    if rng.random() < 0.7 or not v:
        n = rng.choice([1, len(cur["x"]), rng.randint(1, 8)])
        v["x"] = gen_coords(rng, cfg, dict(cur, **v), n)
    if "fill" in cur and rng.random() < 0.4:
        v["fill"] = sig6(rng.uniform(-100, 100))
    return v


def gen_literal(rng, cfg, cur, q):
    return dict(x=gen_coords(rng, cfg, cur, rng.randint(1, 6)))


def gen_query(rng, cfg, cur):
    return dict(q="eval", pad=rng.choice([False] * 8 + [1, 2]))


def gen_var(rng, cfg):
    return dict(nofill=True) if rng.random() < 0.3 else {}


def gen_corrupt(rng, cfg, cur):
    if cfg["cont"]["v"] == "shared" and rng.random() < 0.5:
        v = np.array(cur["v"], float)
        v.flat[rng.randrange(v.size)] = rng.choice([np.nan, np.inf, 1e300])
        return dict(v=v.tolist())
    x = [list(r) for r in cur["x"]]
    x[rng.randrange(len(x))][0] = rng.choice([float("nan"), float("inf"), 1e300])
    return dict(x=x)


def build(w, cont, cfg, var):
    pts = [cont["p%d" % d] for d in range(cfg["nd"])]
    fill = cfg["fill"]
    if var.get("nofill"):
        fill = None
    elif fill == "nan":
        fill = float("nan")
    elif fill == "shared":
        fill = cont["fill"]
    if cfg["how"] == "class":
        if fill is None:
            return w.interp.RegularGridInterpolator(pts, cont["v"])
        return w.interp.RegularGridInterpolator(pts, cont["v"], fill_value=fill)
    return (pts, cont["v"], fill)


def ask(w, o, cont, cfg, q):
    x = cont["x"]
    if q.get("pad"):
        # coordinates with one more leading axis
        x = [x[None, :, :]]
        if q["pad"] == 2:
            x.append(x[0][:, ::-1])
        x = pt.concatenate(x, axis=0)
    if isinstance(o, tuple):
        kw = {} if o[2] is None else dict(fill_value=o[2])
        return [w.interp.regular_grid_interp(o[0], o[1], x, **kw)]
    return [o.evaluate(x)]


def judge(s, what, name, q, got):
    vals = s.vals
    pts = [vals["p%d" % d] for d in range(s.cfg["nd"])]
    fill = s.cfg["fill"]
    if s.drops[name].get("nofill"):
        fill = None
    elif fill == "nan":
        fill = np.nan
    elif fill == "shared":
        fill = vals["fill"]
    x = np.asarray(vals["x"], float)
    want = ref.interp_nd(pts, vals["v"], x, fill)
    if q.get("pad"):
        want = np.stack([want, want[::-1]][: q["pad"]])
    # extrapolation across narrow cells amplifies rounding
    g = 1.0
    for d, p in enumerate(pts):
        w = np.diff(p).min()
        far = np.max(np.abs(x[:, d] - p[0])) + np.ptp(p)
        g *= 1 + far / w
    sc = np.max(np.abs(np.asarray(vals["v"], float)))
    compare(s.ctx, what, got[0], want, 1e-13 * g * sc + 1e-12)
    s.ctx.ticks += len(x)


def run(scn, ctx):
    ctx.cov("nd%d" % scn["cfg"]["nd"])
    ctx.cov("fill" if scn["cfg"]["fill"] is not None else "extrapolate")
    Session(ctx, sys.modules[__name__], scn).run()
