"""C11: a corrupted datum affects only its own entry."""

import struct

import numpy as np

from .. import streams
from ..core import Violation
from .c10 import same, tol

PROP = "C11"
N = {"quick": 560, "thorough": 16000}
RULE = (
    "stored values of a seeded series are hit by seeded corruption (bit "
    "flips, NaN, infinities, huge, negative and zero values in timestamps, "
    "exposure times, coordinates and one planet's parameters), alone and several at once, with repairs, "
    "checkpoints of the corrupted state and crash-restarts in between. At "
    "every step every entry that does not own a corrupted value is compared "
    "with the answer for clean data. Non-trivial: at least one answer under "
    "corruption was compared."
)
REAL = [
    "exoplanet.orbits (Keplerian, TTV, simple), exoplanet.light_curves, "
    "exoplanet.interp",
    "exoplanet_core ops, PyTensor graphs compiled in Python mode",
    "cloudpickle save/restore",
]
STUB = [
    "storage: values are corrupted in the containers the model reads",
    "process crash: package modules discarded and re-imported in process",
    "C linker (PyTensor runs its Python implementations)",
]
ASSUME = [
    "a Keplerian eccentricity is only corrupted to NaN or zero: a value outside "
    "[0, 1) is refused with an error, as documented",
]
BAD = ["nan", "inf", "-inf", "1e300", "-1e300", "1e17", "0", "-1", "flip"]


def flip(v, bit):
    (n,) = struct.unpack("<Q", struct.pack("<d", v))
    return struct.unpack("<d", struct.pack("<Q", n ^ (1 << bit)))[0]


def bad_value(kind, bit, v):
    if kind == "flip":
        return flip(float(v), bit)
    return float(kind)


def planet_params(st):
    """Names of stored vectors with one entry per planet."""
    cfg = st["cfg"]
    npl = cfg.get("npl", 1)
    if npl < 2 or st["kind"] in ("interp",) or streams.is_index(st):
        return []
    out = []
    for a, v in st["init"].items():
        if a in ("t", "texp", "u", "up", "us", "u1", "u2", "plx", "K"):
            if not (a == "K" and st["q"].get("K")):
                continue
        if cfg["cont"].get(a, "shared") != "shared":
            continue
        if a in ("r", "K") and st["kind"] in ("kepler", "ttv") and a == "r":
            continue
        if isinstance(v, list) and len(v) == npl and not a.startswith("tt"):
            out.append(a)
    return sorted(out)


def gen(rng, i, tier):
    n = rng.randint(2, 14)
    while True:
        st = streams.gen(rng, n)
        if st["q"]["q"] != "anomaly":
            break
    ax = streams.axis(st["kind"])
    pp = planet_params(st)
    tt = [
        a
        for a in sorted(st["init"])
        if a.startswith("tt") and a[2:].strip("_").isdigit()
        and st["cfg"]["cont"].get(a, "shared") == "shared"
    ]
    if streams.is_index(st):
        tt = []
    steps = []
    for _ in range(rng.randint(3, 8)):
        hits = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            k = rng.random()
            if pp and k < 0.4:
                a = rng.choice(pp)
                where = ["planet", a, rng.randrange(st["cfg"]["npl"])]
            elif tt and k < 0.5:
                j = rng.randrange(len(tt))
                where = ["tt", tt[j], rng.randrange(len(st["init"][tt[j]]))]
            elif streams.vector_texp(st) and k < 0.7:
                where = ["texp", "texp", rng.randrange(n)]
            else:
                where = ["row", ax, rng.randrange(n)]
            hits.append(where + [rng.choice(BAD), rng.randrange(64)])
        steps.append(
            dict(
                hits=hits,
                crash=rng.choice([None, None, None, "save-bad", "save-clean"]),
                fresh=rng.random() < 0.15,
            )
        )
    return dict(st=st, ops=steps)


def run(scn, ctx):
    w = ctx.w
    st = scn["st"]
    kind, cfg = st["kind"], st["cfg"]
    ax = streams.axis(kind)
    n = len(st["init"][ax])
    npl = cfg.get("npl", 1)
    ctx.cov("stream." + kind)
    ctx.cov("query." + st["q"]["q"])
    e = streams.Evaluator(w, st)
    index = streams.is_index(st)

    def answer():
        a = e.call(n)
        if index:
            f = np.zeros(n)
            for k in a:
                if not 0 <= k < n:
                    raise Violation("wrong-value", f"index {k} of {n}")
                f[int(k)] = 1.0
            return f[:, None]
        return a

    clean = answer()
    atol = tol(st, clean)
    ncol = clean.shape[1]
    ctx.logval("clean", clean)
    soft = kind == "simple" or (kind in ("lc", "ilc") and cfg["orbit"] == "simple")

    for op in scn["ops"]:
        vals = {k: np.array(st["init"][k], dtype=float) for k in e.raw}
        rows, cols = set(), set()
        for what, name, j, bad, bit in op["hits"]:
            if what == "planet":
                if not soft and name == "ecc" and bad != "0":
                    # (an impossible eccentricity is refused)
                    bad = "nan"
                cols.add(j)
            elif what == "tt":
                cols.add(int(name[2:].strip("_")))
                if bad in ("flip", "0", "-1", "1e17", "inf", "-inf"):
                    bad = "nan"
            else:
                rows.add(j)
            ctx.fault(f"corrupt-{what}:{bad}")
            v = vals[name]
            if v.ndim == 2:
                c = bit % v.shape[1]
                v[j, c] = bad_value(bad, bit, v[j, c])
            else:
                v[j] = bad_value(bad, bit, v[j])
        touched = {h[1] for h in op["hits"]}
        if op["crash"] == "save-clean":
            blob = e.save()
        e.set(**{k: vals[k] for k in touched})
        if op["fresh"]:
            e.fn = None
        if op["crash"] == "save-bad":
            blob = e.save()
            w.restart()
            e.restore(blob)
            ctx.fault("process-crash")
        if cols and ncol % npl:
            cols = set(range(npl))  # not one column per planet
        got = answer()
        if got.shape != clean.shape:
            raise Violation(
                "wrong-shape", f"{got.shape} under corruption, else {clean.shape}"
            )
        ok = same(got, clean, atol)
        owned = np.zeros(clean.shape, bool)
        owned[sorted(rows)] = True
        for c in range(ncol):
            if (c % npl) in cols and not index:
                owned[:, c] = True
        ctx.checks += 1
        ctx.logval("dirty", np.where(owned, 0, got))
        ctx.nontrivial = True
        if not (ok | owned).all():
            r, c = (int(v) for v in np.argwhere(~(ok | owned))[0])
            raise Violation(
                "damage-spread",
                f"{kind} {st['q']}: corrupting {op['hits']} changed entry "
                f"[{r}, {c}] from {clean[r, c]!r} to {got[r, c]!r}",
            )
        if (~ok).any():
            ctx.count("corruption-visible")
        # repair, in place or by going back to the saved bytes
        if op["crash"] == "save-clean":
            w.restart()
            e.restore(blob)
            ctx.fault("process-crash")
        else:
            e.set(**{k: st["init"][k] for k in touched})
        got = answer()
        ctx.checks += 1
        if got.shape != clean.shape or not same(got, clean, atol).all():
            raise Violation(
                "not-repaired",
                f"{kind} {st['q']}: after repairing {op['hits']} the answers "
                "differ from those before the corruption",
            )
        ctx.state(kind, st["q"]["q"], tuple(sorted((h[0], h[3]) for h in op["hits"])))
    ctx.sim_days += float(n)
