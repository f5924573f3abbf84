"""Deep comparison of objects that belong to the caller."""

import hashlib

import numpy as np


def _attrs(x):
    d = {}
    for k, v in sorted(vars(x).items()):
        if k in ("tag", "_owner", "_container", "container", "data"):
            continue
        if isinstance(v, (str, int, float, bool, type(None))):
            d[k] = repr(v)
        elif hasattr(v, "to_string"):
            d[k] = str(v)
        else:
            d[k] = id(v)
    # attributes PyTensor computes lazily are not part of what the user sees
    return {
        k: v
        for k, v in d.items()
        if k.startswith("__") or not k.startswith("_")
    }


def snap(x, deep=0):
    """A value that is equal before and after iff `x` was left alone."""
    if x is None or isinstance(x, (bool, int, float, str)):
        return (type(x).__name__, repr(x))
    if isinstance(x, (np.ndarray, np.generic)):
        a = np.asarray(x)
        return (
            type(x).__name__,
            a.dtype.str,
            a.shape,
            hashlib.sha256(np.ascontiguousarray(a).tobytes()).hexdigest(),
        )
    if isinstance(x, dict):
        return ("dict", [(k, id(v), snap(v, deep + 1)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (
            type(x).__name__,
            [
                (None if isinstance(v, float) else id(v), snap(v, deep + 1))
                for v in x
            ],
        )
    if hasattr(x, "get_value"):
        return ("shared", id(x.type), snap(x.get_value(borrow=True)), _attrs(x))
    if hasattr(x, "owner") and hasattr(x, "type"):
        o = x.owner
        own = None
        if o is not None:
            own = (id(o), id(o.op), tuple(map(id, o.inputs)))
        data = snap(x.data) if hasattr(x, "data") else None
        return ("tensor", str(x.type), own, data, _attrs(x))
    return (type(x).__name__, repr(x))


def where(a, b, path=""):
    """The first place two snapshots differ."""
    if type(a) is type(b) and isinstance(a, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return where(x, y, f"{path}/{i}")
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return f"{path}/{k}: {a.get(k)!r:.60} -> {b.get(k)!r:.60}"
    return f"{path}: {a!r:.80} -> {b!r:.80}"
