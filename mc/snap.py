"""State of a real object: digests of everything it holds."""
import hashlib
import numpy as np


def canon(o, seen=None, depth=0):
    seen = seen if seen is not None else {}
    if o is None or isinstance(o, (bool, int, str, bytes)):
        return repr(o)
    if isinstance(o, (float, np.floating)):
        return float(o).hex()
    if isinstance(o, np.integer):
        return repr(int(o))
    if isinstance(o, complex):
        return repr(o)
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return "AO" + canon(list(o.ravel()), seen, depth + 1)
        return "A%s%s%s" % (o.shape, o.dtype, hashlib.sha1(np.ascontiguousarray(o).tobytes()).hexdigest())
    if type(o).__name__ == "Parameters":       # lmfit: name, value, bounds
        return "P" + repr([(k, float(v.value).hex(), v.min, v.max, v.vary) for k, v in o.items()])
    if isinstance(o, dict):
        return "{" + ",".join(sorted(canon(k, seen, depth + 1) + ":" + canon(v, seen, depth + 1) for k, v in o.items())) + "}"
    if isinstance(o, (list, tuple)):
        return "[" + ",".join(canon(v, seen, depth + 1) for v in o) + "]"
    if isinstance(o, (set, frozenset)):
        return "s" + ",".join(sorted(canon(v, seen, depth + 1) for v in o))
    if id(o) in seen:
        return "#%d" % seen[id(o)]
    seen[id(o)] = len(seen)
    if callable(o) and not hasattr(o, "kf"):
        return "f:" + getattr(o, "__qualname__", type(o).__name__)
    m = getattr(type(o), "__module__", "")
    if m.startswith("sympy"):
        return "S:" + str(o)
    d = getattr(o, "__dict__", None)
    if d is not None:
        return type(o).__name__ + canon(d, seen, depth + 1)
    return type(o).__name__


def state(o):
    return hashlib.sha1(canon(o).encode()).hexdigest()[:20]


def same(a, b, rtol=1e-12):
    """Equality of observed values: same kind, same shape, equal numbers (to
    rounding, so that a rearranged computation stays equal)."""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k], rtol) for k in a)
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    try:
        x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return a == b
    if x.shape != y.shape:
        return False
    if x.size == 0:
        return True
    with np.errstate(all="ignore"):
        f = np.isfinite(y)
        s = np.max(np.abs(y[f])) if f.any() else 0
        d = np.where((x == y) | (np.isnan(x) & np.isnan(y)), 0, np.abs(x - y))
    return bool(np.all(d <= rtol * s))
