"""Seeded schedules for simulated threads."""

import collections
import collections.abc
import dis
import sys

from .core import HarnessError, Scheduler, Violation, rng_for

MUTATORS = {
    "append", "appendleft", "extend", "insert", "update", "setdefault", "pop",
    "popitem", "clear", "add", "discard", "remove", "sort", "reverse", "fill",
    "setattr", "delattr", "__setitem__", "__setattr__", "set_value", "copyto",
}
STORES = {
    "STORE_GLOBAL", "DELETE_GLOBAL", "STORE_SUBSCR", "DELETE_SUBSCR",
    "STORE_SLICE", "DELETE_ATTR", "STORE_DEREF",
}
_hot = {}


def hot(code):
    """Offsets and lines at or just after which shared state may have changed.

    Only a bias of the search: every point stays a possible switch."""
    got = _hot.get(id(code))
    if got is not None:
        return got[1]
    glob = {}
    for m in list(sys.modules.values()):
        if getattr(m, "__file__", None) == code.co_filename:
            glob = vars(m)
    lines, order, where = set(), [], {}
    prev = None
    line = code.co_firstlineno
    for ins in dis.get_instructions(code):
        if ins.positions is not None and ins.positions.lineno is not None:
            line = ins.positions.lineno
        where[ins.offset] = line
        if line not in order:
            order.append(line)
        op = ins.opname
        if op in STORES:
            lines.add(line)
        elif op == "STORE_ATTR":
            own = prev is not None and prev.argval == "self"
            if not (own and code.co_name == "__init__"):
                lines.add(line)
        elif op in ("LOAD_ATTR", "LOAD_METHOD", "LOAD_GLOBAL") and ins.argval in MUTATORS:
            lines.add(line)
        elif op == "LOAD_GLOBAL" and isinstance(
            glob.get(ins.argval),
            (list, dict, set, collections.deque, collections.abc.Mapping),
        ):
            lines.add(line)
        prev = ins
    order.sort()
    near = set(lines)
    for k, ln in enumerate(order):
        if ln in lines:
            near.update(order[k + 1 : k + 3])
    offs = {o for o, ln in where.items() if ln in near}
    _hot[id(code)] = (code, (near, offs))
    return near, offs



def gen_sched(rng):
    return dict(
        seed=rng.randrange(1 << 30),
        p=rng.choice([0.01, 0.05, 0.2, 0.6]),
        start=rng.randrange(4),
        burst=rng.random() < 0.3,
        hot=rng.random() < 0.5,
    )


def run_threads(ctx, scn, bodies):
    """Run the bodies under the scenario's schedule; returns their results."""
    sc = scn["sched"]
    if "preempts" in scn:
        pre = {}
        for k, t in scn["preempts"]:
            pre[tuple(k) if isinstance(k, list) else k] = t
        s = Scheduler(pre, start=sc["start"])
    else:
        rng = rng_for("sched", sc["seed"])
        n = len(bodies)
        state = {"left": 0}

        instr = scn.get("instr", False)

        def picker(step, me, code, where):
            if sc.get("hot"):
                # mostly where state outside the calling frame is touched
                if where in hot(code)[1 if instr else 0]:
                    return rng.randrange(n) if rng.random() < 0.5 else None
                return rng.randrange(n) if rng.random() < 0.002 else None
            if sc["burst"] and state["left"] > 0:
                state["left"] -= 1
                return (me + 1) % n
            if rng.random() < sc["p"]:
                if sc["burst"]:
                    state["left"] = rng.randrange(6)
                return rng.randrange(n)
            return None

        s = Scheduler(picker=picker, start=sc["start"])
    res = s.run(bodies)
    ctx.resolved["preempts"] = s.used
    ctx.ticks += s.step
    ctx.count("context-switches", s.switches)
    ctx.fault("preemption", s.switches)
    ctx.log("schedule", s.switches, s.trace.hexdigest()[:16])
    ctx.state("sched", s.trace.hexdigest()[:16])
    for r in res:
        if r is None:
            raise HarnessError("a simulated thread did not finish")
    # the verdict of the lowest numbered thread counts
    for kind, v in res:
        if kind == "exc" and isinstance(v, (Violation, HarnessError)):
            raise v
    for kind, v in res:
        if kind == "exc":
            raise v
    return [v for _, v in res]
