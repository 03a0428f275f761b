"""Observable values of library objects, computed without the library's own
evaluation code (used for operand-purity checks and as state keys)."""
import functools
import types

import numpy as np
import tensap

from . import ref


FUNCTIONS = (types.FunctionType, types.MethodType, types.BuiltinFunctionType, np.ufunc, functools.partial, type)


def obs(o, depth=0):
    """Nested tuple/array structure describing the value a user can observe."""
    if depth > 6:
        return ("deep",)
    if o is None or isinstance(o, (str, bool, int, float, complex)):
        return o
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("objarr", o.shape, tuple(obs(x, depth + 1) for x in o.ravel()))
        return ("arr", o.shape, np.array(o))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(obs(x, depth + 1) for x in o))
    if isinstance(o, range):
        return ("range", tuple(o))
    if isinstance(o, dict):
        return ("dict", tuple((k, obs(o[k], depth + 1)) for k in sorted(o, key=str)))
    if isinstance(o, tensap.TreeBasedTensor):
        return ("TBT", tuple(int(x) for x in o.shape), tuple(int(x) for x in o.ranks),
                tuple(bool(x) for x in o.is_active_node), obs(o.tree),
                ("arr", None, ref.dense(o)))
    if isinstance(o, tensap.DimensionTree):
        return ("tree", ref.tree_key(o))
    if isinstance(o, tensap.FullTensor):
        return ("full", tuple(np.shape(o.data)), np.array(o.data, dtype=float))
    if isinstance(o, tensap.MultiIndices):
        return ("mi", np.array(o.array))
    if isinstance(o, (tensap.CanonicalTensor, tensap.DiagonalTensor, tensap.SparseTensor)):
        return (type(o).__name__, ("arr", None, ref.dense(o)))
    if hasattr(o, "toarray"):
        return ("sparse", np.array(o.toarray()))
    if isinstance(o, FUNCTIONS):
        return ("function", getattr(o, "__qualname__", ""))
    if hasattr(o, "__dict__"):
        # attributes with a leading underscore are caches, not part of the value
        return (type(o).__name__, tuple((k, obs(v, depth + 1)) for k, v in sorted(vars(o).items()) if not k.startswith("_")))
    return ("opaque", type(o).__name__)


def same_obs(a, b, tol=1e-10):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
            return False
        if a.dtype.kind in "fc" or b.dtype.kind in "fc":
            if a.size == 0:
                return True
            s = max(1.0, float(np.nanmax(np.abs(b))) if not np.all(np.isnan(b)) else 1.0)
            return bool(np.allclose(a, b, rtol=0, atol=tol * s, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_obs(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= tol * max(1, abs(b))
    try:
        return bool(a == b)
    except Exception:  # noqa
        return a is b
