"""C16: with failing dependencies the package refuses to load or is equivalent."""

import builtins
import contextlib
import os
import warnings

import numpy as np

from ..core import FAULTS, HarnessError, Violation, fault
from ..session import compile_

PROP = "C16"
N = {"quick": 120, "thorough": 9000}
LEVEL = "fault_enumeration"
RULE = (
    "the package is loaded into a fresh process image while a fault is "
    "active: modules missing for it (one or two at a time), its n-th import "
    "failing, its n-th call during loading failing, the n-th operation of "
    "astropy's unit machinery failing (once, or from then on), or a backend "
    "chosen by environment that is not installed. If it loads, a battery of "
    "about twenty features is run with the fault still in place and compared "
    "with a healthy installation; then the fault is removed, loading is tried "
    "again in the same image and in a fresh one, and the battery must be "
    "answered as ever. Non-trivial: a fault struck."
)
REAL = [
    "the loading of every module of exoplanet, and all features in the battery",
    "PyMC, PyTensor, exoplanet_core, astropy, scipy",
]
STUB = [
    "missing modules: the package's own import statements are refused, the "
    "modules stay installed for everyone else",
    "a fresh process image: the package's modules are dropped and loaded again",
    "C linker (PyTensor runs its Python implementations)",
]
ASSUME = ["a backend that is present but broken in its own code is not simulated"]
STATES = "hash of (fault kind, where it hit, outcome)"
SHRINK = ("missing",)

MODULES = [
    "pymc", "pymc3", "pytensor", "pytensor.tensor", "pytensor.gradient",
    "pytensor.ifelse", "pytensor.raise_op", "exoplanet_core",
    "exoplanet_core.pymc", "scipy", "scipy.ndimage", "astropy",
    "astropy.units", "astropy.constants", "astropy.timeseries",
    "astropy.stats", "numpy", "matplotlib", "theano", "exoplanet.exoplanet_version",
]
LIKELY = ["scipy.ndimage", "astropy.timeseries", "pymc", "exoplanet_core.pymc"]


def _unit_errors():
    import astropy.units as u

    return {
        "TypeError": TypeError,
        "ValueError": ValueError,
        "AttributeError": AttributeError,
        "UnitConversionError": u.UnitConversionError,
        "UnitTypeError": u.UnitTypeError,
        "ImportError": ImportError,
        "memory": FAULTS["memory"],
        "interrupt": FAULTS["interrupt"],
        "oserror": FAULTS["oserror"],
        "runtime": FAULTS["runtime"],
    }


ERRS = [
    "TypeError", "TypeError", "TypeError", "ValueError", "AttributeError",
    "UnitConversionError", "UnitTypeError", "ImportError", "memory",
    "interrupt", "oserror", "runtime",
]


def gen(rng, i, tier):
    kind = rng.choice(
        ["missing", "missing", "import", "call", "unit", "unit", "unit", "force"]
    )
    s = dict(kind=kind, missing=[], exc=None, f=None, hold=False, force=None)
    if kind == "missing" or rng.random() < 0.15:
        s["missing"] = sorted(
            {rng.choice([rng.choice(MODULES), rng.choice(LIKELY)]) for _ in range(rng.choice([1, 1, 2]))}
        )
    if kind in ("import", "call", "unit"):
        s["f"] = round(rng.random(), 6)
        s["exc"] = rng.choice(ERRS) if kind != "import" else rng.choice(
            ["ImportError", "ImportError", "memory", "interrupt", "oserror", "AttributeError"]
        )
        if kind == "unit":
            s["hold"] = rng.random() < 0.4
            s["early"] = rng.random() < 0.3
    if kind == "force":
        s["force"] = rng.choice(["1", "1", "0", "", "true", "False", "2"])
    s["retry"] = rng.random() < 0.5
    if i < 44:
        # every operation of the unit machinery once, with the error that the
        # package expects of it
        s = dict(
            kind="unit", missing=[], exc="TypeError", f=None, nth=i + 1,
            hold=False, force=None, retry=True,
        )
    return s


# -- faults -----------------------------------------------------------------
class Imports:
    """Counts and refuses import statements of the package's own modules."""

    def __init__(self, missing=(), nth=None, exc=None):
        self.missing, self.nth, self.exc = tuple(missing), nth, exc
        self.n = 0
        self.hits = []

    def gone(self, name):
        return any(name == m or name.startswith(m + ".") for m in self.missing)

    def __enter__(self):
        self.real = builtins.__import__
        builtins.__import__ = self.imp
        return self

    def __exit__(self, *a):
        builtins.__import__ = self.real

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        who = (globals or {}).get("__name__", "")
        if who == "exoplanet" or who.startswith("exoplanet."):
            self.n += 1
            if self.n == self.nth:
                self.hits.append(f"{who} imports {name}")
                raise self.exc("injected: " + name)
            for full in [name] + [f"{name}.{x}" for x in fromlist or ()]:
                if level == 0 and self.gone(full):
                    self.hits.append(f"{who} imports {full}")
                    raise ModuleNotFoundError(f"No module named {full!r}", name=full)
        return self.real(name, globals, locals, fromlist, level)


UNIT_OPS = [
    "to", "__pow__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__",
    "value", "decompose", "is_equivalent", "__array_ufunc__",
]


class Units:
    """The n-th operation of astropy's units fails (and all later ones)."""

    def __init__(self, nth=None, exc=None, hold=False):
        self.nth, self.exc, self.hold = nth, exc, hold
        self.n = 0
        self.hits = []

    def tick(self, name):
        self.n += 1
        if self.nth is not None and (
            self.n == self.nth or (self.hold and self.n > self.nth)
        ):
            self.hits.append(name)
            raise self.exc("injected")

    def __enter__(self):
        import astropy.units as u

        self.saved = []
        for cls in (u.UnitBase, u.Quantity):
            for nm in UNIT_OPS:
                if nm not in vars(cls):
                    continue
                old = vars(cls)[nm]
                self.saved.append((cls, nm, old))
                setattr(cls, nm, self.wrap(cls.__name__ + "." + nm, old))
        return self

    def wrap(self, name, old):
        tick = self.tick
        if isinstance(old, property):

            def get(obj):
                tick(name)
                return old.fget(obj)

            return property(get, old.fset, old.fdel, old.__doc__)

        def f(*a, **k):
            tick(name)
            return old(*a, **k)

        return f

    def __exit__(self, *a):
        for cls, nm, old in reversed(self.saved):
            setattr(cls, nm, old)


# -- the battery ------------------------------------------------------------
def T():
    return np.array([0.05, 0.11, 0.4, 1.3, 1.71, 2.93, 3.2, 4.44])


def features(w):
    import astropy.units as u
    import pymc as pm

    t = T()
    O, L = w.orbits, w.lc

    def kep(**kw):
        a = dict(
            period=[3.1, 7.3], t0=[0.1, 0.4], b=[0.2, 0.1], ecc=[0.1, 0.3],
            omega=[0.5, -1.2], m_planet=[1e-3, 2e-4], m_star=1.1, r_star=0.9,
        )
        a.update(kw)
        return O.KeplerianOrbit(**a)

    def constants():
        import sys

        c = sys.modules["exoplanet.orbits.constants"]
        return {
            k: getattr(c, k)
            for k in ("G_grav", "gcc_per_sun", "au_per_R_sun", "c_light", "day_per_yr_over_2pi")
        }

    def ev(d):
        ks = sorted(d)
        return dict(zip(ks, compile_([d[k] for k in ks])()))

    def flat(name, tup):
        return {f"{name}{i}": v for i, v in enumerate(tup)}

    def positions():
        o = kep()
        return ev(
            {
                **flat("rel", o.get_relative_position(t)),
                **flat("star", o.get_star_position(t)),
                **flat("vel", o.get_planet_velocity(t)),
                **flat("acc", o.get_star_acceleration(t)),
                "a": o.a, "rho": o.rho_star, "intr": o.in_transit(t, r=0.1, texp=0.05),
            }
        )

    def density():
        o = kep(m_star=None, rho_star=1.4)
        return ev({"m": o.m_star, "a": o.a})

    def axis():
        o = kep(period=None, a=[9.0, 14.0])
        return ev({"p": o.period})

    def parallax():
        o = kep(Omega=[0.3, 0.4])
        return ev(
            {
                **flat("par", o.get_relative_position(t, parallax=0.02)),
                **flat("ang", o.get_relative_angles(t, parallax=0.02)),
            }
        )

    def delay():
        return ev(flat("ld", kep().get_relative_position(t, light_delay=True)))

    def rv():
        return ev({"rv": kep().get_radial_velocity(t)})

    def rvk():
        return ev({"rv": kep().get_radial_velocity(t, K=np.array([3.0, 2.0]))})

    def rvu():
        return ev({"rv": kep().get_radial_velocity(t, output_units=u.km / u.s)})

    def tagged():
        wu = w.units.with_unit
        import pytensor.tensor as pt

        o = kep(
            m_planet=wu(pt.as_tensor_variable([300.0, 70.0]), u.M_earth),
            r_star=wu(pt.as_tensor_variable(6.3e5), u.km),
        )
        return ev({"m": o.m_planet, "r": o.r_star, "rv": o.get_radial_velocity(t)})

    def duration():
        o = O.KeplerianOrbit(period=3.1, t0=0.1, b=0.2, duration=0.13, ror=0.1, r_star=0.9)
        return ev({"a": o.a, "rho": o.rho_star})

    def ttv():
        o = O.TTVOrbit(
            transit_times=[np.array([0.1, 3.2, 6.4]), np.array([0.5, 5.0])],
            b=[0.1, 0.2], m_star=1.0, r_star=1.0,
        )
        return ev({**flat("rel", o.get_relative_position(t)), "p": o.ttv_period})

    def expected():
        x = w.ttv.compute_expected_transit_times(0.0, 30.0, [3.1, 7.3], [0.1, 0.4])
        return flat("tt", x)

    def simple():
        o = O.SimpleTransitOrbit(period=3.1, t0=0.1, b=0.2, duration=0.2, r_star=0.9, ror=0.1)
        return ev({**flat("rel", o.get_relative_position(t)), "i": o.in_transit(t, r=0.09)})

    def flux():
        lc = L.LimbDarkLightCurve(0.3, 0.2)
        k = dict(orbit=kep(), r=np.array([0.1, 0.05]), t=t)
        return ev(
            {
                "a": lc.get_light_curve(**k),
                "b": lc.get_light_curve(texp=0.05, order=2, use_in_transit=False, **k),
                "c": lc.get_light_curve(light_delay=True, **k),
            }
        )

    def eclipse():
        lc = L.SecondaryEclipseLightCurve([0.3, 0.2], [0.1, 0.3], 0.4)
        o = O.KeplerianOrbit(period=3.1, t0=0.1, b=0.2, ecc=0.1, omega=0.3, r_star=0.9, m_star=1.0)
        return ev({"f": lc.get_light_curve(orbit=o, r=0.1, t=t)})

    def interp():
        g = np.array([0.0, 1.0, 2.5, 5.0])
        return ev({"i": w.interp.RegularGridInterpolator([g], g**2).evaluate(t[:, None])})

    def priors():
        with pm.Model() as m:
            w.dist.angle("a")
            w.dist.unit_disk("x", "y")
            w.dist.quad_limb_dark("u")
            w.dist.impact_parameter("b", 0.1)
            w.ecc.kipping13("e", long=False)
            w.ecc.vaneylen19("f", fixed=False)
        ip = m.initial_point(3)
        return {
            "lp": m.compile_logp(mode="FAST_COMPILE")(ip),
            **{"ip " + k: v for k, v in ip.items()},
        }

    def cite():
        with pm.Model() as m:
            w.dist.quad_limb_dark("u")
            L.LimbDarkLightCurve(0.3, 0.2)
            kep()
        a, b = w.citations.get_citations_for_model(m)
        return {"txt": [a], "bib": [b]}

    x = np.linspace(0, 20, 120)
    y = 1 + 0.1 * np.sin(2 * np.pi * x / 3.3) + 0.02 * np.cos(9.1 * x)
    E = w.est

    def semi():
        return {"K": E.estimate_semi_amplitude([3.3], x, y, 0.1 + 0 * x)}

    def mass():
        return {"m": E.estimate_minimum_mass([3.3], x, y, t0s=[0.3], m_star=1.2).value}

    def ls():
        r = E.lomb_scargle_estimator(x, y, min_period=1.0, max_period=10.0)
        return {"p": r["peaks"][0]["period"], "pow": r["periodogram"][1]}

    def acf():
        r = E.autocorr_estimator(x, y, min_period=1.0, max_period=10.0)
        return {"p": [q["period"] for q in r["peaks"]], "a": r["autocorr"][1]}

    def bls():
        z = np.where(np.abs((x - 0.4 + 1.65) % 3.3 - 1.65) < 0.15, 0.98, 1.0)
        r = E.bls_estimator(x, z, min_period=1.5, max_period=6.0)
        return {"p": r["peaks"][0]["period"], "pow": np.asarray(r["bls"].power)}

    def peaks():
        f = np.linspace(0.1, 1.0, 60)
        return {"p": E.find_peaks(f, 1 + np.exp(-0.5 * ((f - 0.4) / 0.1) ** 2))["period"]}

    fs = dict(locals())
    return {
        k: fs[k]
        for k in (
            "constants positions density axis parallax delay rv rvk rvu tagged "
            "duration ttv expected simple flux eclipse interp priors cite semi "
            "mass ls acf bls peaks"
        ).split()
    }


def battery(w, only=None):
    out = {}
    for k, f in features(w).items():
        if only is not None and k not in only:
            continue
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out[k] = ("value", f())
        except (Violation, HarnessError):
            raise
        except (Exception, KeyboardInterrupt) as e:
            out[k] = ("error", e)
    return out


_HEALTHY = {}


def healthy(w):
    if not _HEALTHY:
        w.load()
        for k in range(2):  # the second time the caches of astropy are warm
            b = battery(w)
        for k, (s, v) in b.items():
            if s == "error":
                raise Violation(
                    "unexpected-exception",
                    f"healthy installation, {k}: {type(v).__name__}: {v}",
                )
        with Imports() as im, Units() as un:
            w.load()
        with fault(10**9, "runtime") as plan:
            w.load()
        _HEALTHY.update(b=b, imports=im.n, units=un.n, calls=plan.count)
    return _HEALTHY


def judge(ctx, what, got, allowed):
    """`allowed(feature, exception)`: may this feature fail explicitly?"""
    want = _HEALTHY["b"]
    for k, (s, v) in got.items():
        ctx.checks += 1
        if s == "error":
            if not allowed(k, v):
                raise Violation(
                    "feature-failed", f"{what}: {k}: {type(v).__name__}: {str(v)[:300]}"
                )
            ctx.count("feature-refused")
            continue
        for q, ref in want[k][1].items():
            g = v.get(q)
            if isinstance(ref, list) and ref and isinstance(ref[0], str):
                ok = g == ref
            else:
                a, b = np.asarray(g, float), np.asarray(ref, float)
                with np.errstate(all="ignore"):
                    ok = a.shape == b.shape and bool(
                        np.all(
                            (np.abs(a - b) <= 1e-7 * np.abs(b) + 1e-12 * (1 + np.abs(b).max(initial=0)))
                            | (np.isnan(a) & np.isnan(b))
                            | (a == b)
                        )
                    )
            if not ok:
                raise Violation(
                    "not-equivalent",
                    f"{what}: {k}: {q} is {g!r}, in a healthy installation {ref!r}",
                )


def load(w, purge=True):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            w.load(purge=purge)
        return None
    except (Exception, KeyboardInterrupt) as e:
        return e


def run(scn, ctx):
    w = ctx.w
    h = healthy(w)
    kind = scn["kind"]
    ctx.cov("kind." + kind)
    errs = _unit_errors()
    nth, exc = scn.get("nth"), errs.get(scn["exc"])
    if scn["f"] is not None:
        total = h[{"import": "imports", "call": "calls", "unit": "units"}[kind]]
        if kind == "unit" and scn["hold"] and not scn.get("early"):
            # some hold only strikes once features are used
            total = int(total * 1.3)
        nth = 1 + int(scn["f"] * total)
    hits = []
    with contextlib.ExitStack() as st:
        im = st.enter_context(
            Imports(scn["missing"], nth if kind == "import" else None, exc)
        )
        un = st.enter_context(
            Units(nth if kind == "unit" else None, exc, scn["hold"])
        )
        if scn["force"] is not None:
            old = os.environ.get("EXOPLANET_FORCE_PYMC3")

            def undo():
                os.environ.pop("EXOPLANET_FORCE_PYMC3", None)
                if old is not None:
                    os.environ["EXOPLANET_FORCE_PYMC3"] = old

            st.callback(undo)
            os.environ["EXOPLANET_FORCE_PYMC3"] = scn["force"]
        if kind == "call":
            with fault(nth, exc) as plan:
                err = load(w)
            if plan.fired:
                hits.append("call " + "/".join(plan.fired))
        else:
            err = load(w)
        struck = list(im.hits) + list(un.hits) + hits
        if err is None:
            if not scn["hold"]:
                un.nth = None
            im.nth = None
            got = battery(w)

            def allowed(feature, e):
                if isinstance(e, ImportError) and scn["missing"]:
                    # nothing but the peak finder needs a missing optional part
                    return True
                return scn["hold"] and bool(un.hits)

            judge(
                ctx,
                f"loaded in spite of {struck[:3]}",
                got,
                allowed,
            )
            ctx.count("loaded")
            struck += un.hits
        else:
            ctx.count("refused")
            if not struck and scn["force"] is None:
                raise Violation(
                    "unexpected-exception",
                    f"loading failed without a fault: {type(err).__name__}: {err}",
                )
            if scn["missing"] and not isinstance(err, ImportError) and kind == "missing":
                raise Violation(
                    "not-an-import-error",
                    f"loading without {scn['missing']} fails with {type(err).__name__}: {err}",
                )
    if scn["force"] is not None:
        ctx.fault("forced-backend")
    for x in struck[:1]:
        ctx.fault({"missing": "missing-module", "import": "failing-import", "call": "failing-call", "unit": "failing-unit-operation", "force": "missing-module"}[kind])
    ctx.log("fault", kind, struck[:2], type(err).__name__)
    ctx.state(kind, struck[:1], type(err).__name__)
    ctx.nontrivial = bool(struck) or scn["force"] is not None

    # the fault is gone
    if err is not None and scn["retry"]:
        e2 = load(w, purge=False)
        if e2 is not None:
            raise Violation(
                "no-recovery",
                f"loading again in the same process after {struck[:2]}: {type(e2).__name__}: {e2}",
            )
        ctx.fault("retry-in-same-process")
        judge(
            ctx,
            f"loaded again after {struck[:2]}",
            battery(w, only=("constants", "positions", "rvu", "flux", "acf", "semi", "cite")),
            lambda k, e: False,
        )
    e3 = load(w)
    if e3 is not None:
        raise Violation(
            "no-recovery", f"fresh load after {struck[:2]}: {type(e3).__name__}: {e3}"
        )
    judge(
        ctx,
        f"fresh load after {struck[:2]}",
        battery(w, only=("constants", "rvu", "tagged", "acf", "semi")),
        lambda k, e: False,
    )
