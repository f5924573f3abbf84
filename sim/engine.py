"""Running, minimising and replaying scenarios."""

import copy
import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

from . import core
from .core import Ctx, HarnessError, Violation

SCN_TIMEOUT = int(os.environ.get("SIM_SCN_TIMEOUT", "150"))


class Timeout(BaseException):
    pass


def _alarm(sig, frame):
    raise Timeout("scenario did not finish")


def prop_module(prop):
    return importlib.import_module("sim.props." + prop.lower())


def prepare():
    warnings.simplefilter("ignore")
    import logging

    logging.getLogger("pytensor").setLevel(logging.ERROR)
    logging.getLogger("pymc").setLevel(logging.ERROR)
    logging.getLogger("exoplanet").setLevel(logging.CRITICAL)
    signal.signal(signal.SIGALRM, _alarm)
    return core.World()


def _scrub():
    """Process state a previous (violating) scenario may have left behind."""
    import numpy as np

    np.seterr(divide="ignore", invalid="ignore", over="ignore")
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    core.MONITOR.sched = None
    core.MONITOR.fault.plan = None
    try:
        from pymc.model.core import MODEL_MANAGER

        MODEL_MANAGER.active_contexts.clear()
    except Exception:
        pass


def execute(world, mod, scn, tier="quick"):
    """Run one scenario.  Returns (ctx, Violation or None)."""
    _scrub()
    world.load()
    core.MONITOR.set_instr(bool(scn.get("instr")))
    ctx = Ctx(world, mod.PROP, tier)
    ctx.resolved = {}
    v = None
    signal.alarm(SCN_TIMEOUT)
    try:
        mod.run(scn, ctx)
    except Violation as e:
        v = e
        ctx.log("VIOLATION", e.kind)
    except Timeout:
        raise
    except HarnessError:
        raise
    except Exception as e:
        # an error that came out of the package, not out of the harness
        where = [
            f"{os.path.basename(f.filename)}:{f.lineno}"
            for f in traceback.extract_tb(e.__traceback__)
            if f.filename.startswith(core.PKG)
        ]
        if not where:
            raise
        v = Violation(
            "unexpected-exception",
            f"{type(e).__name__}: {str(e)[:500]} (through {where[-1]})",
        )
        ctx.log("VIOLATION", v.kind)
    finally:
        signal.alarm(0)
        core.MONITOR.sched = None
        core.MONITOR.fault.plan = None
        core.MONITOR.set_instr(False)
    return ctx, v


# --------------------------------------------------------------------------
def _candidates(scn, mod):
    """Smaller scenarios, most promising first."""
    for key in getattr(mod, "SHRINK", ("ops", "preempts", "faults")):
        seq = scn
        path = key.split(".")
        try:
            for p in path[:-1]:
                seq = seq[int(p) if p.isdigit() else p]
            lst = seq[path[-1]]
        except (KeyError, IndexError, TypeError):
            continue
        if not isinstance(lst, list) or not lst:
            continue
        n = len(lst)
        size = n
        while size >= 1:
            for a in range(0, n, size):
                c = copy.deepcopy(scn)
                tgt = c
                for p in path[:-1]:
                    tgt = tgt[int(p) if p.isdigit() else p]
                del tgt[path[-1]][a : a + size]
                yield c
            size //= 2
    if hasattr(mod, "simplify"):
        yield from mod.simplify(scn)


def minimise(world, mod, scn, viol, tier, budget=60.0):
    t0 = time.monotonic()
    best, bestv = scn, viol
    tried = 0
    improved = True
    while improved and time.monotonic() - t0 < budget:
        improved = False
        for cand in _candidates(best, mod):
            if time.monotonic() - t0 > budget:
                break
            tried += 1
            try:
                _, v = execute(world, mod, cand, tier)
            except Timeout:
                break
            except Exception:
                continue
            if v is not None and v.kind == bestv.kind:
                best, bestv = cand, v
                improved = True
                break
    return best, bestv, tried


# --------------------------------------------------------------------------
def indices(wid, n, nw):
    """The scenarios this worker runs: whichever no other worker has begun."""
    d = os.environ.get("SIM_CLAIM")
    if not d:
        yield from range(wid, n, nw)
        return
    for i in range(n):
        try:
            os.close(os.open(os.path.join(d, str(i)), os.O_CREAT | os.O_EXCL))
        except FileExistsError:
            continue
        yield i


def worker(prop, tier, seed, wid, nw, n, deadline):
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)  # anything the code prints goes to stderr
    world = prepare()
    mod = prop_module(prop)
    t0 = time.monotonic()
    for i in indices(wid, n, nw):
        if time.monotonic() - t0 > deadline:
            out.write(json.dumps({"skipped": i}) + "\n")
            continue
        rng = core.rng_for(seed, prop, i)
        scn = mod.gen(rng, i, tier)
        scn["prop"] = prop
        scn["seed"] = seed
        scn["index"] = i
        scn = json.loads(json.dumps(scn))
        t1 = time.monotonic()
        out.write(json.dumps({"start": i}) + "\n")
        try:
            ctx, v = execute(world, mod, scn, tier)
        except Timeout:
            out.write(json.dumps({"timeout": i}) + "\n")
            return 2
        except Exception:
            out.write(
                json.dumps(
                    {"error": f"scenario {i}\n" + traceback.format_exc()}
                )
                + "\n"
            )
            return 2
        rec = dict(
            i=i,
            h=ctx.h.hexdigest()[:16],
            a=ctx.answers.hexdigest()[:16],
            ev=ctx.n_events,
            checks=ctx.checks,
            stats=ctx.stats,
            faults=ctx.faults,
            days=ctx.sim_days,
            ticks=ctx.ticks,
            states=sorted(ctx.states),
            cover=ctx.cover,
            nt=bool(ctx.nontrivial),
            wall=time.monotonic() - t1,
            restarts=world.restarts,
            findings=sorted(ctx.findings),
        )
        world.restarts = 0
        if v is not None:
            # the schedule as it was actually taken becomes explicit
            scn2 = dict(scn, **ctx.resolved)
            rec["violation"] = dict(
                kind=v.kind, msg=str(v.msg)[:2000], scn=scn2, orig=scn2
            )
            out.write(json.dumps(dict(rec, pending=True)) + "\n")
            small, sv, tried = minimise(world, mod, scn2, v, tier)
            rec["violation"] = dict(
                kind=sv.kind,
                msg=str(sv.msg)[:2000],
                scn=small,
                orig=scn2,
                tried=tried,
            )
            out.write(json.dumps(rec) + "\n")
            return 1
        out.write(json.dumps(rec) + "\n")
    return 0


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    world = prepare()
    mod = prop_module(rep["property"])
    ctx, v = execute(world, mod, rep["scenario"], rep.get("tier", "quick"))
    return rep, ctx, v
