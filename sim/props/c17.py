"""C17: period and mass estimates survive reordered, resent and re-clocked data."""

import heapq
import warnings

import astropy.units as u
import numpy as np

from .. import core
from ..core import FAULTS, Violation, fault
from ..session import lib

PROP = "C17"
N = {"quick": 1400, "thorough": 60000}
RULE = (
    "a seeded time series is delivered to several stations over a delaying, "
    "reordering network that resends some observations as two copies of "
    "twice the variance; each station has its own clock origin, may fail its "
    "first attempt at the n-th call, or restart, and then runs the estimator "
    "on what it received in the order it received it. Periods, powers, "
    "amplitudes, masses and transit times are compared with the estimate from "
    "the original series, and each peak summary with the periodogram returned "
    "with it, recomputed from scratch. Non-trivial: a comparison between two "
    "stations, or a judged peak summary."
)
REAL = ["exoplanet.estimators", "astropy LombScargle and BoxLeastSquares, SciPy, NumPy"]
STUB = [
    "network, stations and clocks: an event queue of the simulator",
    "process crash: the package image is dropped and reloaded",
]
ASSUME = [
    "time stamps and clock shifts are binary fractions, so that a shift is exact",
    "grids are fixed by the requested period range where copies are resent "
    "(otherwise they depend on the number of observations by construction)",
    "the choice between peaks equal to 1e-7 is not judged",
]
STATES = "hash of (estimator, options, what happened to the data)"
SHRINK = ("stations", "crashes")

KINDS = ["semi", "semi", "mass", "ls", "ls", "bls", "bls", "acf", "peaks"]


def sig(x):
    return float("%.6g" % x)


def gen(rng, i, tier):
    kind = rng.choice(KINDS)
    npl = rng.choice([1, 1, 2, 3]) if kind in ("semi", "mass") else 1
    c = dict(
        kind=kind,
        data=rng.randrange(1 << 30),
        n=rng.randint(14, 60) if kind in ("semi", "mass") else rng.randint(50, 160),
        base=rng.choice([30, 60, 100]),
        periods=[sig(rng.uniform(2, 5) * (1 + 1.9 * k)) for k in range(npl)],
        yerr=rng.random() < 0.75,
        t0s=rng.random() < 0.5,
        m_star=rng.choice([1.0, 0.7, 1.3]),
        range=[
            None if rng.random() < 0.25 else sig(rng.uniform(0.6, 1.9)),
            None if rng.random() < 0.25 else sig(rng.uniform(6, 14)),
        ],
        filter=rng.choice([None, None, sig(rng.uniform(1, 9))]),
        max_peaks=rng.choice([1, 1, 2, 3, 5, 0]),
        alias=rng.random() < 0.2,
        duration=rng.choice([0.2, 0.125, 0.3, [0.1, 0.2, 0.35]]),
        objective=rng.choice([None, "likelihood", "snr"]),
        oversample=rng.choice([2.0, 4.0]),
        smooth=rng.choice([2.0, 1.0, 0.5]),
        ff=rng.choice([2.0, 2.0, None]),
        noise=rng.choice([0.05, 0.3, 1.0]),
        trend=rng.choice([0.0, 0.0, 2.0]),
    )
    st = []
    for _ in range(rng.randint(2, 4)):
        st.append(
            dict(
                net=rng.randrange(1 << 30),
                reorder=rng.random() < 0.7,
                units=rng.choice([None, None, "xy", "all"]),
                split=rng.choice([0, 0, 0.1, 0.5, 1.0]),
                shift=rng.choice([0, 0, 1, -1])
                * rng.choice([rng.randint(1, 1 << 12) / 8, rng.randint(1, 1 << 17)]),
                fail=rng.choice([None, None, [rng.randint(1, 30), rng.choice(sorted(FAULTS))]]),
                crash=rng.random() < 0.1,
            )
        )
    return dict(cfg=c, stations=st)


def series(c):
    rng = np.random.default_rng(c["data"])
    n, base = c["n"], c["base"]
    # distinct binary-fraction times
    k = rng.choice(base * 64, size=n, replace=False)
    x = np.sort(k) / 64.0
    t0 = np.array([round(p * rng.uniform(0.1, 0.9) * 64) / 64 for p in c["periods"]])
    y = np.zeros(n)
    if c["kind"] == "bls":
        p = c["periods"][0]
        y -= 1.0 * (np.abs((x - t0[0] + p / 2) % p - p / 2) < 0.1)
    else:
        for j, p in enumerate(c["periods"]):
            y += (3.0 + j) * np.cos(2 * np.pi * (x - t0[j] + 0.25 * p) / p)
    y = y + c["noise"] * rng.normal(size=n) + c["trend"] * np.sin(2 * np.pi * x / base / 1.3)
    e = rng.uniform(0.5, 1.5, n) * 0.3
    return x, y, (e if c["yerr"] else None), t0


def deliver(ctx, st, n, may_split):
    """Which observation arrives when; [(index, copies it is split into)]."""
    rng = core.rng_for("net", st["net"])
    q = []
    for k in range(n):
        parts = 2 if may_split and rng.random() < st["split"] else 1
        for _ in range(parts):
            t = k + (rng.expovariate(0.15) if st["reorder"] else 0.0)
            heapq.heappush(q, (t, len(q), k, parts))
        if parts == 2:
            ctx.fault("observation-resent")
    out = []
    while q:
        _, _, k, parts = heapq.heappop(q)
        out.append((k, parts))
        ctx.ticks += 1
    if [k for k, _ in out] != sorted(k for k, _ in out):
        ctx.fault("reordered-delivery")
    return out


def estimate(w, c, x, y, e, t0, units):
    E = w.est
    kw = {}
    kind = c["kind"]
    if kind in ("semi", "mass"):
        per = np.array(c["periods"])
        if units:
            x, y = x * u.day, (y / 1000) * (u.km / u.s)
            if e is not None:
                e = e * (u.m / u.s)
        if units == "all":
            x = (x.value * 24) * u.hour
            if e is not None:
                e = (e.value * 100) * (u.cm / u.s)
            per = (per * 24) * u.hour
            t0 = (t0 * 1440) * u.minute
        if c["t0s"]:
            kw["t0s"] = t0
        if kind == "semi":
            return dict(K=E.estimate_semi_amplitude(per, x, y, e, **kw))
        ms = c["m_star"] * u.M_sun if units == "all" else c["m_star"]
        if units == "all" and c["data"] % 2:
            ms = ms.to(u.M_jup)
        m = E.estimate_minimum_mass(per, x, y, e, m_star=ms, **kw)
        return dict(
            K=m.to(u.M_jup).value,
            amp=E.estimate_semi_amplitude(per, x, y, e, **kw),
        )
    lo, hi = c["range"]
    if lo is not None:
        kw["min_period"] = lo
    if hi is not None:
        kw["max_period"] = hi
    if kind == "ls":
        r = E.lomb_scargle_estimator(
            x, y, e, filter_period=c["filter"], max_peaks=c["max_peaks"], **kw
        )
        f, p = r["periodogram"]
        return dict(freq=np.array(f), power=np.array(p), peaks=r["peaks"])
    if kind == "acf":
        r = E.autocorr_estimator(
            x, y, e, oversample=c["oversample"], smooth=c["smooth"], **kw
        )
        return dict(freq=r["autocorr"][0], power=r["autocorr"][1], peaks=r["peaks"])
    if kind == "bls":
        if lo is None:
            kw["min_period"] = lo = 1.0
        if hi is None:
            kw["max_period"] = hi = 12.0
        if c["alias"]:
            # the names astropy uses are understood as well
            kw = {k.replace("min_", "minimum_").replace("max_", "maximum_"): v for k, v in kw.items()}
        d = c["duration"]
        if c["ff"] is not None:
            kw["frequency_factor"] = c["ff"]
        r = E.bls_estimator(
            x, y, e, duration=np.array(d) if isinstance(d, list) else d,
            objective=c["objective"], **kw,
        )
        pg = r["bls"]
        return dict(
            freq=1 / np.asarray(pg.period), power=np.asarray(pg.power),
            peaks=r["peaks"], info=r["peak_info"], pg=pg,
        )
    raise core.HarnessError(kind)


def interior(p):
    k = np.flatnonzero((p[1:-1] > p[:-2]) & (p[1:-1] > p[2:])) + 1
    return k[np.argsort(-p[k], kind="stable")]


def bad(kind, msg):
    raise Violation(kind, msg)


def summary(ctx, c, r):
    """The summary against the periodogram returned with it."""
    ctx.checks += 1
    f, p = r["freq"], r["power"]
    if c["kind"] == "acf":
        lo, hi = c["range"]
        if f.shape != p.shape:
            bad("peak-summary", f"{f.shape} lags, {p.shape} values")
        if len(r["peaks"]) > 1:
            bad("peak-summary", f"{len(r['peaks'])} periods")
        # the higher one of the first two peaks, if in range
        k = np.sort(interior(p))
        k = k[f[k] >= (r["dmin"] if lo is None else lo)][:2]
        want = None
        if len(k) and (hi is None or f[k[0]] <= hi):
            want = k[np.argmax(p[k])]
            if hi is not None and f[want] > hi:
                want = None
        if len(k) == 2 and abs(p[k[1]] - p[k[0]]) < 1e-9:
            ctx.count("tie")
        elif (want is not None) != bool(r["peaks"]) or (
            want is not None and abs(r["peaks"][0]["period"] - f[want]) > 1e-9
        ):
            bad(
                "peak-summary",
                f"{r['peaks']!r}; the first peaks are at lags {f[k]!r} "
                f"with heights {p[k]!r}, asked for {c['range']}",
            )
        for q in r["peaks"]:
            P = q["period"]
            if lo is not None and P < lo or hi is not None and P > hi:
                bad("period-range", f"autocorrelation period {P!r}, asked for {c['range']}")
            k = int(np.argmin(np.abs(f - P)))
            if not (0 < k < len(p) - 1 and p[k] > p[k - 1] and p[k] > p[k + 1]):
                bad("peak-summary", f"no peak of the autocorrelation at {P!r}")
        return
    lo, hi = c["range"]
    if c["kind"] == "bls":
        lo, hi = lo or 1.0, hi or 12.0
    df = np.abs(np.diff(f)).max()
    if lo is not None and f.max() > 1 / lo + df * (1 + 1e-9):
        bad("period-range", f"periods down to {1 / f.max()!r}, asked for {c['range']}")
    if hi is not None and f.min() < 1 / hi - df * (1 + 1e-9):
        bad("period-range", f"periods up to {1 / f.min()!r}, asked for {c['range']}")
    if lo is not None and f.max() < 1 / lo - 2 * df:
        bad("period-range", f"only periods above {1 / f.max()!r}, asked for {c['range']}")
    if hi is not None and f.min() > 1 / hi + 2 * df:
        bad("period-range", f"only periods below {1 / f.min()!r}, asked for {c['range']}")
    g = p
    if c["kind"] == "ls" and c["filter"] is not None:
        # third order Butterworth high-pass filter
        g = p / np.sqrt(1 + (1 / c["filter"] / f) ** 6)
    peaks = r["peaks"]
    judge_peaks(ctx, f, g, peaks, 1 if c["kind"] == "bls" else c["max_peaks"])
    if c["kind"] == "bls":
        info, pg = r["info"], r["pg"]
        if not peaks:
            if info is not None:
                bad("peak-summary", "peak_info without a peak")
            return
        if info is None:
            bad("peak-summary", "a peak without peak_info")
        i = peaks[0]["index"]
        for k in ("period", "power", "depth", "depth_err", "duration", "transit_time", "depth_snr", "log_likelihood"):
            a, b = float(info[k]), float(getattr(pg, k)[i])
            if a != b and not (np.isnan(a) and np.isnan(b)):
                bad("peak-summary", f"peak_info {k} is {a!r}; {b!r} at the peak")


def judge_peaks(ctx, f, g, peaks, max_peaks):
    if isinstance(peaks, dict):
        peaks = [peaks]
    with np.errstate(all="ignore"):
        want = interior(g)
    n = max(1, max_peaks)
    ctx.count("peak-summary")
    if len(peaks) != min(n, len(want)):
        bad("peak-summary", f"{len(peaks)} peaks, {min(n, len(want))} expected")
    for j, q in enumerate(peaks):
        i = int(q["index"])
        if i != want[j]:
            if i in want and abs(g[i] - g[want[j]]) <= 1e-7 * abs(g[want[j]]):
                continue
            bad(
                "peak-summary",
                f"peak {j} is at index {i} (height {g[i]!r}); the highest is at "
                f"{want[j]} ({g[want[j]]!r})",
            )
        F = 1 / q["period"]
        a, b = sorted((f[i - 1], f[i + 1]))
        lg = np.log(g[i - 1 : i + 2])
        if not np.isfinite(lg).all():
            continue
        # the vertex of the parabola through the three points
        d1 = (lg[1] - lg[0]) / (f[i] - f[i - 1])
        d2 = ((lg[2] - lg[1]) / (f[i + 1] - f[i]) - d1) / (f[i + 1] - f[i - 1])
        v = 0.5 * (f[i - 1] + f[i]) - d1 / (2 * d2)
        top = lg[0] + d1 * (v - f[i - 1]) + d2 * (v - f[i - 1]) * (v - f[i])
        # rounding in the interpolation, from its conditioning
        flat = 1e-14 * (b / (b - a)) ** 2 / max(1e-300, abs(d2) * (b - a) ** 2)
        if flat > 1e-3:
            ctx.count("flat")
            continue
        if not a - 0.01 * (b - a) <= F <= b + 0.01 * (b - a):
            bad("peak-summary", f"period {q['period']!r} away from the peak at {1 / f[i]!r}")
        if abs(F - v) > (1e-4 + flat) * (b - a) + 1e-6 * abs(v):
            bad("peak-summary", f"period {q['period']!r}, interpolated {1 / v!r}")
        sd = q["period"] ** 2 * np.sqrt(-0.5 / d2)
        if abs(q["period_uncert"] - sd) > (1e-3 + 10 * flat) * sd:
            bad("peak-summary", f"uncertainty {q['period_uncert']!r}, from the curvature {sd!r}")
        if abs(q["log_power"] - top) > 1e-4 * (1 + abs(top)):
            bad("peak-summary", f"log_power {q['log_power']!r}, interpolated {top!r}")


def compare(ctx, c, st, got, ref, what):
    ctx.checks += 1
    ctx.nontrivial = True
    if "K" in ref:
        if "amp" in got:
            # the mass that causes the amplitude estimated from these data
            P = np.array(c["periods"]) / 365.25
            m = got["amp"] / 28.4329 * c["m_star"] ** (2 / 3) * P ** (1 / 3)
            if not np.allclose(got["K"], m, rtol=2e-3, atol=1e-9):
                bad("peak-summary", f"{what}: mass {got['K']!r}; amplitude {got['amp']!r} means {m!r}")
        if not np.allclose(got["K"], ref["K"], rtol=1e-6, atol=1e-6 * np.abs(ref["K"]).max()):
            bad("estimate-changed", f"{what}: {got['K']!r}, originally {ref['K']!r}")
        return
    f, p, f0, p0 = got["freq"], got["power"], ref["freq"], ref["power"]
    if f.shape != f0.shape or not np.allclose(f, f0, rtol=1e-9, atol=1e-9):
        bad("estimate-changed", f"{what}: the grid changed: {f.shape} {f[:2]!r}, {f0.shape} {f0[:2]!r}")
    if c["kind"] == "ls" and st["split"]:
        p = p * (got["n"] / ref["n"])
    scale = np.abs(p0).max()
    with np.errstate(all="ignore"):
        ok = np.abs(p - p0) <= 1e-6 * scale
        ok |= ~np.isfinite(p0) & ~np.isfinite(p)
    if not ok.all():
        k = int(np.flatnonzero(~ok)[0])
        bad("estimate-changed", f"{what}: power at {f[k]!r} is {p[k]!r}, originally {p0[k]!r}")
    a, b = got["peaks"], ref["peaks"]
    a = [a] if isinstance(a, dict) else a
    b = [b] if isinstance(b, dict) else b
    if c["kind"] == "acf":
        if len(a) != len(b) or any(abs(x["period"] - y["period"]) > 1e-6 for x, y in zip(a, b)):
            bad("estimate-changed", f"{what}: {a!r}, originally {b!r}")
        return
    for x, y in zip(a[:1], b[:1]):
        if x["index"] != y["index"]:
            # rounding decides between equal peaks, and whether the rim of a
            # plateau is a peak at all
            i, tol = int(x["index"]), 1e-5 * scale
            if p0[i] >= max(p0[i - 1], p0[i + 1]) - tol:
                k = interior(p0)
                k = k[p0[k] > np.maximum(p0[k - 1], p0[k + 1]) + tol]
                if not len(k) or p0[i] >= p0[k].max() - tol:
                    ctx.count("tie")
                    continue
            bad("estimate-changed", f"{what}: period {x['period']!r}, originally {y['period']!r}")
        k = int(y["index"])
        if p0[k] < max(p0[k - 1], p0[k + 1]) + 1e-3 * scale:
            continue  # a flat top does not fix the period between grid points
        if abs(x["period"] - y["period"]) > 0.01 * abs(1 / f0[k] - 1 / f0[k - 1]) + 1e-5:
            bad("estimate-changed", f"{what}: period {x['period']!r}, originally {y['period']!r}")
        if c["kind"] == "bls" and not st["reorder"] and not st["split"]:
            # bit for bit the same series: the same transit, on its clock
            t, t0 = float(got["info"]["transit_time"]), float(ref["info"]["transit_time"])
            if abs(t - t0 - st["shift"]) > 1e-6:
                bad(
                    "estimate-changed",
                    f"{what}: transit time {t!r}, originally {t0!r} (clock {st['shift']:+})",
                )
            for k in ("depth", "duration"):
                if abs(float(got["info"][k]) - float(ref["info"][k])) > 1e-6:
                    bad("estimate-changed", f"{what}: {k} {got['info'][k]!r}, originally {ref['info'][k]!r}")


def run_peaks(scn, ctx):
    """find_peaks on seeded periodograms of any shape."""
    c = scn["cfg"]
    for j, st in enumerate(scn["stations"]):
        rng = np.random.default_rng(st["net"])
        n = int(rng.integers(3, 60))
        f = np.sort(rng.uniform(0.02, 3.0, n))
        if np.diff(f).min() < 1e-3:
            f = np.linspace(0.05, 2.0, n)
        p = np.exp(rng.normal(size=n) * rng.choice([0.1, 1.0, 3.0]))
        if rng.random() < 0.3:
            p = np.round(p, 1) + 0.1  # plateaus
        if rng.random() < 0.4:
            f, p = f[::-1].copy(), p[::-1].copy()
        mp = int(rng.choice([0, 1, 2, 4, 100]))
        k = interior(p)
        if len(k) and len(set(p[k])) < len(k):
            k = None  # the order of equal peaks is free
        try:
            q = ctx.w.est.find_peaks(f, p, max_peaks=mp)
        except ValueError as e:
            if mp == 0 and len(interior(p)) == 0:
                continue
            bad("unexpected-exception", f"find_peaks: {e}")
        if mp == 0 and not len(interior(p)):
            bad("peak-summary", "a peak was reported where there is none")
        if (mp == 0) != isinstance(q, dict):
            bad("peak-summary", f"max_peaks={mp} gives {type(q).__name__}")
        if k is not None:
            judge_peaks(ctx, f, p, q, mp)
            ctx.checks += 1
            ctx.nontrivial = True
        ctx.log("peaks", len(q))


def run(scn, ctx):
    c, w = scn["cfg"], ctx.w
    ctx.cov("estimator." + c["kind"])
    if c["kind"] == "peaks":
        return run_peaks(scn, ctx)
    x, y, e, t0 = series(c)

    def call(x, y, e, t0, units):
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            return estimate(ctx.w, c, x, y, e, t0, units)

    def first(x, y, e, t0, units):
        try:
            r = lib(c["kind"], call, x, y, e, t0, units)
        except Violation as v:
            if "no peaks were found" in v.msg and c["max_peaks"] == 0:
                return None
            raise
        r["n"] = len(x)
        r["dmin"] = np.min(np.diff(np.sort(x)))
        return r

    ref = first(x.copy(), y.copy(), None if e is None else e.copy(), t0.copy(), None)
    if ref is None:
        ctx.log("no peaks")
        return
    if "K" not in ref:
        summary(ctx, c, ref)
    for k in ("K", "power"):
        if k in ref:
            ctx.logval(k, ref[k])
    for j, st in enumerate(scn["stations"]):
        may = e is not None and c["kind"] != "acf"
        if c["kind"] == "ls" and c["range"][0] is None:
            may = False  # the highest frequency depends on the number of data
        if c["kind"] == "bls" and c["ff"] is None:
            may = False  # and so does the default density of the grid
        got = deliver(ctx, st, len(x), may)
        split = any(p == 2 for _, p in got)
        ix = np.array([k for k, _ in got])
        xx = x[ix] + st["shift"]
        ee = None if e is None else e[ix] * np.sqrt([p for _, p in got])
        args = (xx, y[ix].copy(), ee, t0 + st["shift"], st["units"])
        if st["shift"]:
            ctx.fault("clock-jump")
        if st["crash"]:
            ctx.fault("process-crash")
            w.restart()
        if st["fail"]:
            nth, exc = st["fail"]
            with fault(nth, exc) as plan:
                try:
                    call(*args)
                except FAULTS[exc]:
                    pass
                except Exception:
                    if plan.fired is None:
                        raise
            if plan.fired:
                ctx.fault("failing-call:" + exc)
        r = first(*args)
        order = bool((np.diff(ix) < 0).any())
        what = f"{c['kind']} at station {j}" + (
            " (reordered)" if order else ""
        ) + (" (resent)" if split else "") + (f" (clock {st['shift']:+})" if st["shift"] else "")
        if r is None:
            bad("estimate-changed", what + ": no peaks")
        if "K" not in r:
            summary(ctx, c, r)
        compare(ctx, c, dict(st, reorder=order, split=split), r, ref, what)
        ctx.sim_days += c["base"]
        ctx.state(
            c["kind"], c["yerr"], c["t0s"], c["filter"] is None, c["range"][0] is None,
            c["range"][1] is None, order, split, bool(st["shift"]), st["units"],
        )
        ctx.log("station", j, order, split)
