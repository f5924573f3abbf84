"""A snapshot of everything in the process that calls must leave alone."""

import builtins
import decimal
import gc
import hashlib
import inspect
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np
import pymc as pm
import pytensor
import pytensor.tensor as pt

LOGGERS = [
    None,
    "exoplanet",
    "pymc",
    "pytensor",
    "theano",
    "astropy",
    "matplotlib",
    "py.warnings",
]
CONFIG = [
    "floatX",
    "mode",
    "optimizer",
    "compute_test_value",
    "on_unused_input",
    "on_opt_error",
    "exception_verbosity",
    "warn_float64",
    "cast_policy",
    "cxx",
    "blas__ldflags",
    "allow_gc",
    "compile__timeout",
    "traceback__limit",
    "mode",
    "device",
    "openmp",
    "NanGuardMode__action",
    "check_input",
    "print_test_value",
    "print_global_stats",
    "assert_no_cpu_op",
    "optimizer_including",
    "optimizer_excluding",
]


def _h(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:16]


def _default(x):
    """Contents of a default argument or a published constant."""
    if isinstance(x, (bool, int, float, str, bytes, type(None))):
        return repr(x)
    if isinstance(x, np.ndarray):
        return ("array", x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, dict):
        return ("dict", [(repr(k), _default(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple, set, frozenset)):
        return (type(x).__name__, [_default(v) for v in x])
    return type(x).__name__


def package(w):
    out = {}
    for mn in sorted(m for m in sys.modules if m.split(".")[0] == "exoplanet"):
        mod = sys.modules[mn]
        for k, v in sorted(vars(mod).items()):
            if k.startswith("_") or inspect.ismodule(v):
                continue
            key = f"{mn}.{k}"
            if isinstance(v, (bool, int, float, str, tuple, np.ndarray)):
                out[key] = _default(v)
            elif k == "CITATIONS":
                out[key] = _h(sorted(v.items()))
            elif inspect.isfunction(v) and v.__module__ == mn:
                out[key] = _default((v.__defaults__, v.__kwdefaults__))
            elif inspect.isclass(v) and v.__module__ == mn:
                for a, b in sorted(vars(v).items()):
                    if inspect.isfunction(b) and not a.startswith("__w"):
                        out[f"{key}.{a}"] = _default(
                            (b.__defaults__, b.__kwdefaults__)
                        )
                    elif not a.startswith("_") and isinstance(
                        b, (bool, int, float, str, tuple, list, dict)
                    ):
                        out[f"{key}.{a}"] = _default(b)
                    elif a == "__citations__":
                        out[f"{key}.{a}"] = _default(b)
    return out


def published(mod):
    """Which names of somebody else's module refer to what."""
    return {
        k: id(v)
        for k, v in vars(mod).items()
        if callable(v) and not k.startswith("_")
    }


def take(w):
    out = {}
    s = np.random.get_state()
    out["numpy.random"] = (s[0], s[1].tobytes(), s[2:])
    out["random"] = random.getstate()
    out["warnings.filters"] = list(warnings.filters)
    out["warnings.showwarning"] = id(warnings.showwarning)
    out["numpy error modes"] = (np.geterr(), repr(np.geterrcall()))
    out["numpy print options"] = repr(np.get_printoptions())
    out["os.environ"] = dict(os.environ)
    out["cwd"] = os.getcwd()
    out["umask"] = None
    for k in CONFIG:
        try:
            out["pytensor.config." + k] = repr(getattr(pytensor.config, k))
        except Exception:
            pass
    for n in LOGGERS:
        lg = logging.getLogger(n)
        out[f"logger {n}"] = (
            [id(h) for h in lg.handlers],
            [(h.level, id(h.formatter)) for h in lg.handlers],
            lg.level,
            lg.propagate,
            lg.disabled,
            [id(f) for f in lg.filters],
        )
    out["logging"] = (logging.root.manager.disable, logging.raiseExceptions)
    out["logging classes"] = (
        id(logging.getLoggerClass()),
        id(logging.getLogRecordFactory()),
    )
    out["sys"] = (
        list(sys.path),
        [id(x) for x in sys.meta_path],
        sys.getrecursionlimit(),
        id(sys.excepthook),
        id(sys.stdout),
        id(sys.stderr),
        sys.getswitchinterval(),
        id(sys.gettrace()),
    )
    out["threading"] = id(threading.excepthook)
    out["gc"] = (gc.isenabled(), gc.get_threshold())
    out["decimal"] = repr(decimal.getcontext())
    out["locale"] = locale.setlocale(locale.LC_ALL)
    out["signals"] = [repr(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM)]
    out["builtins"] = {k: id(v) for k, v in vars(builtins).items() if k != "_"}
    out["pymc"] = published(pm)
    out["pymc.Model"] = {k: id(v) for k, v in vars(pm.Model).items()}
    out["pytensor"] = published(pytensor)
    out["pytensor.tensor"] = published(pt)
    out["numpy"] = {
        k: id(getattr(np, k))
        for k in ("array", "zeros", "float64", "errstate", "linalg", "random")
    }
    import astropy.units as u

    reg = u.get_current_unit_registry()
    out["astropy.units"] = (
        _h(sorted(str(x) for x in reg.equivalencies)),
        len(reg.all_units),
        len(reg.aliases),
    )
    from exoplanet_core.pymc import ops

    out["exoplanet_core"] = {
        k: id(v) for k, v in vars(ops).items() if not k.startswith("__")
    }
    import matplotlib

    out["matplotlib"] = _h(sorted((k, repr(v)) for k, v in matplotlib.rcParams.items()))
    out.update(package(w))
    return out


# (each thread has its own)
LOCAL = ("numpy error modes", "numpy print options", "decimal")


def changed(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append(f"{k}: {str(a.get(k))[:120]} -> {str(b.get(k))[:120]}")
    return out


def scramble(rng):
    """Put the process in some legitimate state of the user's choosing."""
    random.seed(rng.randrange(1 << 30))
    np.random.seed(rng.randrange(1 << 30))
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    for _ in range(rng.randrange(3)):
        warnings.filterwarnings(
            "ignore",
            message=rng.choice(["", "x", ".*unit.*"]),
            category=rng.choice([UserWarning, DeprecationWarning]),
        )
    np.seterr(
        **{
            k: rng.choice(["ignore", "ignore", "warn"])
            for k in ("divide", "over", "under", "invalid")
        }
    )
    lg = logging.getLogger("exoplanet")
    lg.setLevel(rng.choice([logging.CRITICAL, logging.ERROR + 5]))


def restore():
    np.seterr(divide="ignore", over="ignore", under="ignore", invalid="ignore")
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    logging.getLogger("exoplanet").setLevel(logging.CRITICAL)


