"""Cheap fingerprints of the library's module state and of host-program state.

Used (a) as a search heuristic: operations that touch shared state get more simulated runs, and
(b) by the ambient-state check.
"""
from __future__ import annotations

import sys
import types
import warnings

MAXN = 64
_skip = {}


def _val(v, depth=0):
    t = type(v)
    if v is None or t in (bool, int, float, str, bytes, complex):
        return v if t is not str or len(v) < 200 else hash(v)
    if depth > 2:
        return id(v)
    if t is tuple and depth == 0 and (not v or all(type(x) in (float, int, str, type(None), bool) for x in v)):
        return v
    if hasattr(v, "cache_info"):
        try:
            return ("lru", v.cache_info()[3])
        except Exception:  # noqa: BLE001
            return id(v)
    if t is tuple and len(v) > MAXN:
        return (id(v),)
    if t in (list, tuple, set, frozenset) or isinstance(v, (list, tuple, set, frozenset)):
        try:
            return (t.__name__, len(v), tuple(_val(x, depth + 1) for x in list(v)[:MAXN]))
        except RuntimeError:
            return (t.__name__, len(v))
    if isinstance(v, dict):
        if len(v) > 30 or (depth and len(v) > 8):
            return (t.__name__, id(v), len(v))
        try:
            return (t.__name__, len(v), tuple((_val(k, depth + 1), _val(x, depth + 1)) for k, x in list(v.items())[:MAXN]))
        except RuntimeError:
            return (t.__name__, len(v))
    if t.__name__ == "ndarray":
        return ("nd", str(v.dtype), v.shape, v.tobytes() if v.size < 4096 and v.dtype.kind != "O" else id(v))
    if hasattr(v, "__len__") and not isinstance(v, type):
        try:
            return (t.__name__, len(v))
        except Exception:  # noqa: BLE001
            return id(v)
    if t.__module__.startswith("pymap3d") or t.__module__ in ("_thread", "threading", "types", "weakref"):
        d = getattr(v, "__dict__", None)
        if isinstance(d, dict):
            return (t.__name__, id(v), tuple((k, _val(x, depth + 1)) for k, x in list(d.items())[:MAXN]))
    return id(v)


def modules():
    return [(n, m) for n, m in list(sys.modules.items()) if (n == "pymap3d" or n.startswith("pymap3d.")) and m is not None and ".tests" not in n]


def library():
    out = []
    for n, m in modules():
        for k, v in list(vars(m).items()):
            if k.startswith("__") and k.endswith("__"):
                continue
            if isinstance(v, types.ModuleType) or _skip.get((n, k)) == id(v):
                continue
            if (callable(v) and not hasattr(v, "cache_info") and getattr(v, "__module__", n) != n) or type(v).__module__ in ("typing", "__future__", "numpy"):
                _skip[n, k] = id(v)
                continue
            if isinstance(v, types.FunctionType) and not (v.__dict__ or v.__defaults__ or v.__kwdefaults__ or v.__closure__):
                continue
            if isinstance(v, types.FunctionType):
                if v.__module__ == n:
                    if v.__dict__ or v.__defaults__ or v.__kwdefaults__ or v.__closure__:
                        cl = None
                        if v.__closure__:
                            cl = tuple(_cell(c) for c in v.__closure__)
                        out.append((n, k, id(v), _val(v.__dict__), _val(v.__defaults__), _val(v.__kwdefaults__), cl))
                continue
            if isinstance(v, type):
                if v.__module__ == n:
                    for kk, vv in list(vars(v).items()):
                        if kk.startswith("__"):
                            continue
                        if isinstance(vv, (types.FunctionType, property, types.MemberDescriptorType)):
                            continue
                        if isinstance(vv, (classmethod, staticmethod)):
                            vv = vv.__func__
                            if isinstance(vv, types.FunctionType):
                                continue
                        out.append((n, k, kk, _val(vv)))
                continue
            out.append((n, k, _val(v)))
    return hash(tuple(_h(x) for x in out))


def _cell(c):
    try:
        return _val(c.cell_contents, 1)
    except ValueError:
        return None


def _h(x):
    try:
        return hash(x)
    except TypeError:
        return hash(repr(x))


def host_quick():
    """state of the host that all threads share and that is cheap to look at"""
    import logging

    r = logging.root
    np = sys.modules.get("numpy")
    return (
        id(warnings.filters), len(warnings.filters), id(warnings.filters[0]) if warnings.filters else 0, getattr(warnings, "_filters_version", 0),
        id(warnings.showwarning), len(r.handlers), r.level, r.manager.disable, sys.getrecursionlimit(),
        tuple(np.geterr().values()) if np is not None and hasattr(np, "geterr") else None,
    )
