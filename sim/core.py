"""The simulator: one seed is one exactly repeatable execution.

Seams, all of them outside /repo:

* module loading   -- `World` loads the package under test from /repo/src with
                      its own importer; `World.restart()` throws the loaded
                      package away and loads it again, which is how a process
                      crash is simulated (only pickled bytes survive).
* calls made by it -- `sys.monitoring` CALL events in the package's own frames;
                      the injector makes the n-th such call fail.
* threads          -- `sys.monitoring` LINE (or INSTRUCTION) events in the
                      package's own frames are the yield points at which the
                      scheduler parks one real thread and releases another.
* locks            -- threading.Lock/RLock created by the package become
                      scheduler aware (the package has none at the moment).
* randomness       -- every generator handed to the code under test is seeded
                      from the scenario; process-wide generators are scrambled
                      on purpose.
"""

import contextlib
import hashlib
import importlib
import importlib.abc
import importlib.util
import json
import os
import random
import sys
import threading
import types

REPO = os.environ.get("SIM_REPO", "/repo")
PKG = os.path.join(REPO, "src", "exoplanet")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOL = 4
MON = sys.monitoring


# --------------------------------------------------------------------------
class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, kind, msg="", **detail):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg
        self.detail = detail


class HarnessError(Exception):
    """The simulator itself failed; never reported as a violation."""


class InjectedMemoryError(MemoryError):
    pass


class InjectedInterrupt(KeyboardInterrupt):
    pass


class InjectedOSError(OSError):
    pass


class InjectedRuntimeError(RuntimeError):
    pass


FAULTS = {
    "memory": InjectedMemoryError,
    "interrupt": InjectedInterrupt,
    "oserror": InjectedOSError,
    "runtime": InjectedRuntimeError,
}
INJECTED = tuple(FAULTS.values())


def rng_for(*parts):
    """A deterministic random.Random for a tuple of names and numbers."""
    h = hashlib.sha256("/".join(map(str, parts)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


# --------------------------------------------------------------------------
# The injector and the scheduler share one monitoring tool.
class _Monitor:
    def __init__(self):
        self.ready = False
        self.fault = threading.local()
        self.sched = None
        self.instr = False
        self.skip_names = {"__exit__", "__enter__", "__aexit__"}

    def install(self):
        if self.ready:
            return
        MON.use_tool_id(TOOL, "verif-sim")
        E = MON.events
        MON.register_callback(TOOL, E.PY_START, self._py_start)
        MON.register_callback(TOOL, E.CALL, self._call)
        MON.register_callback(TOOL, E.LINE, self._line)
        MON.register_callback(TOOL, E.INSTRUCTION, self._instruction)
        MON.set_events(TOOL, E.PY_START)
        self.codes = []
        self.ready = True

    def _py_start(self, code, offset):
        if code.co_filename.startswith(PKG):
            ev = MON.events.CALL | MON.events.LINE
            if self.instr:
                ev |= MON.events.INSTRUCTION
            MON.set_local_events(TOOL, code, ev)
            self.codes.append(code)
        return MON.DISABLE

    def set_instr(self, on):
        if on == self.instr:
            return
        self.instr = on
        ev = MON.events.CALL | MON.events.LINE
        if on:
            ev |= MON.events.INSTRUCTION
        for code in self.codes:
            MON.set_local_events(TOOL, code, ev)

    def _call(self, code, offset, fn, arg0):
        plan = getattr(self.fault, "plan", None)
        if plan is None:
            return
        name = getattr(fn, "__name__", type(fn).__name__)
        if name in self.skip_names:
            return
        if plan.only is not None and not plan.only(code, fn, arg0):
            return
        plan.count += 1
        if plan.count == plan.nth:
            plan.fired = (code.co_qualname, name)
            self.fault.plan = None
            exc = plan.exc
            raise (exc if isinstance(exc, type) else FAULTS[exc])("injected")

    def _line(self, code, line):
        s = self.sched
        if s is not None and not self.instr:
            s.yield_point(code, line)

    def _instruction(self, code, offset):
        s = self.sched
        if s is not None:
            s.yield_point(code, offset)


MONITOR = _Monitor()


class FaultPlan:
    def __init__(self, nth, exc, only=None):
        self.nth = nth
        self.exc = exc
        self.only = only
        self.count = 0
        self.fired = None


@contextlib.contextmanager
def fault(nth, exc, only=None):
    """Make the nth call out of the package in this thread raise `exc`."""
    plan = FaultPlan(nth, exc, only)
    old = getattr(MONITOR.fault, "plan", None)
    MONITOR.fault.plan = plan
    try:
        yield plan
    finally:
        MONITOR.fault.plan = old


# --------------------------------------------------------------------------
_REAL_LOCK = threading.Lock
_REAL_RLOCK = threading.RLock


class SimLock:
    """A lock whose waiters give the token back to the scheduler."""

    def __init__(self, reentrant):
        self._reentrant = reentrant
        self._owner = None
        self._depth = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self._reentrant and self._owner == me:
            self._depth += 1
            return True
        while self._owner is not None:
            if not blocking:
                return False
            s = MONITOR.sched
            if s is None:
                raise HarnessError("lock held outside a schedule")
            s.blocked()
        self._owner = me
        self._depth = 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._depth -= 1
        if self._depth == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        return (SimLock, (self._reentrant,))


def _lock_factory(real, reentrant):
    def make(*a, **k):
        fr = sys._getframe(1)
        if fr.f_code.co_filename.startswith(PKG):
            return SimLock(reentrant)
        return real(*a, **k)

    return make


class Scheduler:
    """Runs real threads one at a time; `preempts` maps step -> thread id."""

    def __init__(self, preempts=None, start=0, picker=None, max_steps=2000000):
        self.preempts = dict(preempts or {})
        self.start = start
        self.picker = picker
        self.step = 0
        self.max_steps = max_steps
        self.used = []
        self.trace = hashlib.sha256()
        self.switches = 0
        self.tls = threading.local()

    def run(self, bodies):
        n = len(bodies)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.results = [None] * n
        self.main = threading.Semaphore(0)
        threads = []
        for i, body in enumerate(bodies):
            th = threading.Thread(
                target=self._thread, args=(i, body), daemon=True
            )
            threads.append(th)
        MONITOR.sched = self
        try:
            for th in threads:
                th.start()
            self.sems[self.start % n].release()
            if not self.main.acquire(timeout=300):
                raise HarnessError("simulated threads made no progress")
            for th in threads:
                th.join(timeout=60)
        finally:
            MONITOR.sched = None
        return self.results

    def _thread(self, i, body):
        self.sems[i].acquire()
        self.tls.i = i
        try:
            self.results[i] = ("ok", body())
        except BaseException as e:  # noqa
            self.results[i] = ("exc", e)
        self.tls.i = None
        self.done[i] = True
        rest = [k for k in range(len(self.done)) if not self.done[k]]
        if not rest:
            self.main.release()
        else:
            # the choice at a thread's end follows the schedule as well
            k = self.preempts.get(("end", i), None)
            nxt = rest[0] if k is None or k not in rest else k
            self.sems[nxt].release()

    def yield_point(self, code, where):
        i = getattr(self.tls, "i", None)
        if i is None:
            return
        self.step += 1
        if self.step > self.max_steps:
            raise Violation("no-progress", "step bound exceeded")
        if self.picker is not None:
            t = self.picker(self.step, i, code, where)
            if t is not None and t != i and not self.done[t]:
                self.preempts[self.step] = t
        else:
            t = self.preempts.get(self.step)
        if t is None or t == i or t >= len(self.done) or self.done[t]:
            return
        self._switch(i, t, code.co_qualname, where)

    def _switch(self, i, t, name, where):
        self.used.append([self.step, t])
        self.switches += 1
        self.trace.update(f"{i}>{t}@{name}:{where};".encode())
        self.sems[t].release()
        self.sems[i].acquire()

    def blocked(self):
        i = getattr(self.tls, "i", None)
        rest = [
            k for k in range(len(self.done)) if not self.done[k] and k != i
        ]
        if i is None or not rest:
            raise Violation("deadlock", "every simulated thread is blocked")
        self.step += 1
        if self.step > self.max_steps:
            raise Violation("no-progress", "step bound exceeded")
        # round robin, so that the owner gets its turn
        nxt = [k for k in rest if k > i] or rest
        self._switch(i, nxt[0], "lock", 0)


# --------------------------------------------------------------------------
class _Loader(importlib.abc.Loader):
    cache = {}

    def __init__(self, path, is_pkg):
        self.path = path
        self.is_pkg = is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            src = f.read()
        key = (self.path, hashlib.sha256(src).hexdigest())
        code = self.cache.get(key)
        if code is None:
            code = self.cache[key] = compile(
                src, self.path, "exec", dont_inherit=True
            )
        module.__file__ = self.path
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "exoplanet" and not fullname.startswith("exoplanet."):
            return None
        rel = fullname.split(".")[1:]
        base = os.path.join(PKG, *rel)
        if os.path.isdir(base):
            fn, is_pkg = os.path.join(base, "__init__.py"), True
        else:
            fn, is_pkg = base + ".py", False
        if not os.path.exists(fn):
            if fullname == "exoplanet.exoplanet_version":
                # generated by the build and ignored by git
                return importlib.util.spec_from_loader(
                    fullname, _VersionLoader()
                )
            return None
        spec = importlib.util.spec_from_file_location(
            fullname,
            fn,
            loader=_Loader(fn, is_pkg),
            submodule_search_locations=[base] if is_pkg else None,
        )
        return spec


class _VersionLoader(importlib.abc.Loader):
    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__version__ = "0.0.0"


class World:
    """The one simulated process image of the package under test."""

    def __init__(self):
        MONITOR.install()
        if not any(isinstance(f, _Finder) for f in sys.meta_path):
            sys.meta_path.insert(0, _Finder())
        self.restarts = 0
        self.xo = None

    @staticmethod
    def purge():
        for m in list(sys.modules):
            if m == "exoplanet" or m.startswith("exoplanet."):
                del sys.modules[m]

    def load(self, purge=True):
        if purge:
            self.purge()
        threading.Lock = _lock_factory(_REAL_LOCK, False)
        threading.RLock = _lock_factory(_REAL_RLOCK, True)
        try:
            self.xo = importlib.import_module("exoplanet")
            # (an attribute of this name may be shadowed by a submodule)
            for sub in (
                "citations",
                "units",
                "utils",
                "interp",
                "estimators",
                "orbits",
                "orbits.keplerian",
                "orbits.ttv",
                "orbits.simple",
                "orbits.constants",
                "light_curves",
                "distributions",
                "distributions.eccentricity",
            ):
                importlib.import_module("exoplanet." + sub)
        finally:
            threading.Lock = _REAL_LOCK
            threading.RLock = _REAL_RLOCK
        m = sys.modules
        self.citations = m["exoplanet.citations"]
        self.units = m["exoplanet.units"]
        self.utils = m["exoplanet.utils"]
        self.interp = m["exoplanet.interp"]
        self.est = m["exoplanet.estimators"]
        self.orbits = m["exoplanet.orbits"]
        self.kep = m["exoplanet.orbits.keplerian"]
        self.ttv = m["exoplanet.orbits.ttv"]
        self.simple = m["exoplanet.orbits.simple"]
        self.lc = m["exoplanet.light_curves"]
        self.dist = m["exoplanet.distributions"]
        self.ecc = m["exoplanet.distributions.eccentricity"]
        return self

    def restart(self):
        """Crash: all in-memory state of the package is gone."""
        self.restarts += 1
        return self.load()


# --------------------------------------------------------------------------
class Ctx:
    """Everything one simulated run may touch, and what it recorded."""

    def __init__(self, world, prop, tier):
        self.w = world
        self.prop = prop
        self.tier = tier
        self.h = hashlib.sha256()
        self.answers = hashlib.sha256()  # of the numeric results alone
        self.n_events = 0
        self.stats = {}
        self.faults = {}
        self.checks = 0
        self.sim_days = 0.0
        self.ticks = 0
        self.states = set()
        self.cover = {}
        self.nontrivial = False
        self.findings = {}

    def finding(self, kind, msg):
        """A defect that may be on the list of known findings."""
        if (self.prop, kind) not in open_findings():
            raise Violation(kind, msg)
        self.findings.setdefault(kind, msg)
        self.log("finding", kind)

    def log(self, *ev):
        self.n_events += 1
        self.h.update(repr(ev).encode())
        if VERBOSE:
            print("   ", *ev, file=sys.stderr)

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def state(self, *key):
        """Note that a (coarse) system state was reached."""
        self.states.add(
            hashlib.sha256(repr(key).encode()).hexdigest()[:16]
        )

    def cov(self, key):
        self.cover[key] = self.cover.get(key, 0) + 1

    def logval(self, tag, val):
        """Record a numeric result in the event log (rounded)."""
        import numpy as np

        a = np.asarray(val, dtype=float)
        with np.errstate(all="ignore"):
            txt = ",".join("%.9g" % v for v in a.ravel())
        d = hashlib.sha256(txt.encode()).hexdigest()[:12]
        self.answers.update(repr((tag, a.shape, d)).encode())
        self.log(tag, a.shape, d)


def open_findings():
    """`finding: property=<id> kind=<kind> <text>` lines of the list."""
    if _FINDINGS is None:
        out = {}
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            with open(p) as f:
                for line in f:
                    if line.startswith("finding:"):
                        w = dict(
                            x.split("=", 1) for x in line.split() if "=" in x
                        )
                        out[w.get("property"), w.get("kind")] = line[
                            len("finding:") :
                        ].strip()
        globals()["_FINDINGS"] = out
    return _FINDINGS


_FINDINGS = None
VERBOSE = bool(os.environ.get("SIM_VERBOSE"))


def jdump(obj):
    return json.dumps(obj, sort_keys=True)
