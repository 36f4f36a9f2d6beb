"""Values as JSON: arguments of operations (decode) and outcomes of calls (canon).

Runs inside the simulated process.  NumPy may be absent.
"""
from __future__ import annotations

import importlib
import json
import math
from datetime import datetime, timedelta, timezone, tzinfo

try:
    import numpy as np
except ImportError:
    np = None


def use_numpy(mod):
    global np
    np = mod


class SkipOp(Exception):
    """operation not expressible in this configuration"""


# ----------------------------------------------------------------- arguments
class NoOffset(tzinfo):
    """a zone that does not know its offset: datetimes with it are naive"""

    def utcoffset(self, dt):
        return None

    dst = tzname = utcoffset


class Wrapped(tzinfo):
    """a zone class of the caller's own"""

    def __init__(self, z):
        self.z = z

    def utcoffset(self, dt):
        return None if dt is None else dt.replace(tzinfo=self.z).utcoffset()

    def dst(self, dt):
        return None if dt is None else dt.replace(tzinfo=self.z).dst()

    def tzname(self, dt):
        return None if dt is None else dt.replace(tzinfo=self.z).tzname()

    def fromutc(self, dt):
        return self.z.fromutc(dt.replace(tzinfo=self.z)).replace(tzinfo=self)

    def __reduce__(self):
        return Wrapped, (self.z,)


class Stamp(datetime):
    """a datetime class of the caller's own"""


def tz_of(s):
    if s is None:
        return None
    if s == "utc":
        return timezone.utc
    if s == "none":
        return NoOffset()
    if isinstance(s, (int, float)):
        return timezone(timedelta(minutes=s))
    from zoneinfo import ZoneInfo

    if s.startswith("w:"):
        return Wrapped(ZoneInfo(s[2:]))
    return ZoneInfo(s)


def decode(v):
    if isinstance(v, list):
        return [decode(x) for x in v]
    if not isinstance(v, dict):
        return v
    t = v["t"]
    if t == "arr":
        if np is None:
            raise SkipOp("array without numpy")
        a = np.array(v["v"], dtype=v.get("dt", "f8"))
        if "tile" in v:  # long arrays without long scenario files
            a = np.resize(a, v["tile"])
        if "shape" in v:
            a = a.reshape(v["shape"])
        lay = v.get("lay", "C")
        if lay == "F":
            a = np.asfortranarray(a)
        elif lay == "strided":
            b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), a.dtype) if a.ndim else a
            if a.ndim:
                b[..., ::2] = a
                a = b[..., ::2]
        elif lay == "neg":
            if a.ndim:
                a = a[..., ::-1].copy()[..., ::-1]
        elif lay == "ro":
            a.flags.writeable = False
        return a
    if t == "np":
        if np is None:
            return v["v"]
        return getattr(np, v.get("dt", "float64"))(v["v"])
    if t == "dt":
        d = (Stamp if v.get("cls") == "sub" else datetime).fromisoformat(v["v"])
        tz = tz_of(v.get("tz"))
        return d.replace(tzinfo=tz, fold=v.get("fold", 0))
    if t == "dt64":
        if np is None:
            raise SkipOp("datetime64 without numpy")
        u = v.get("u", "us")
        if isinstance(v["v"], list):
            return np.array(v["v"], dtype="datetime64[%s]" % u)
        return np.array([v["v"]], dtype="datetime64[%s]" % u)[0]
    if t == "ell":
        from pymap3d.ellipsoid import Ellipsoid

        return Ellipsoid.from_name(v["n"])
    if t == "ellc":
        from pymap3d.ellipsoid import Ellipsoid

        kw = {k: v[k] for k in ("name", "model", "flattening", "thirdflattening", "eccentricity") if k in v}
        return Ellipsoid(v["a"], v["b"], **kw)
    if t == "cplx":
        return complex(*v["v"])
    if t == "tuple":
        return tuple(decode(x) for x in v["v"])
    raise ValueError(t)


def resolve(name):
    mod, fn = name.split(":")
    m = importlib.import_module("pymap3d" + ("." + mod if mod else ""))
    for part in fn.split("."):
        m = getattr(m, part)
    return m


def op_args(op):
    return [decode(x) for x in op["a"]], {k: decode(x) for k, x in op.get("k", {}).items()}


def call(op):
    """decode + call; returns canonical outcome"""
    a, k = op_args(op)
    return outcome(resolve(op["f"]), a, k)


def outcome(f, a, k):
    try:
        r = f(*a, **k)
    except Exception as e:  # noqa: BLE001
        return canon_exc(e)
    return canon(r)


def canon_exc(e):
    return ["exc", type(e).__name__]


# ------------------------------------------------------------------ outcomes
def _f(x):
    x = float(x)
    if x != x:
        return "nan"
    if x in (math.inf, -math.inf):
        return "inf" if x > 0 else "-inf"
    return x


def canon(v, depth=0):
    if depth > 8:
        return ["deep"]
    if v is None or isinstance(v, (bool, str)):
        return v
    t = type(v)
    if t is int:
        return ["i", str(v)]
    if t is float:
        return _f(v)
    if t is complex:
        return ["c", _f(v.real), _f(v.imag)]
    if t in (tuple, list):
        return ["T" if t is tuple else "L"] + [canon(x, depth + 1) for x in v]
    if isinstance(v, datetime):
        off = v.utcoffset()
        return ["dt", v.replace(tzinfo=None).isoformat(), v.fold, None if off is None else off.total_seconds()]
    if np is not None:
        if isinstance(v, np.ndarray):
            with np.errstate(all="ignore"):  # the host's state may be a raising one
                return ["nd", str(v.dtype), list(v.shape), _flat(v)]
        if isinstance(v, np.generic):
            if v.dtype.kind == "f":
                return ["np", str(v.dtype), _f(v)]
            if v.dtype.kind == "c":
                return ["np", str(v.dtype), _f(v.real), _f(v.imag)]
            return ["np", str(v.dtype), str(v)]
    if t.__name__ == "Ellipsoid" or any(c.__name__ == "Ellipsoid" for c in t.__mro__):
        return ["ell", t.__name__] + [
            canon(getattr(v, n, "?"), depth + 1)
            for n in ("model", "name", "semimajor_axis", "semiminor_axis", "flattening", "thirdflattening", "eccentricity")
        ]
    if isinstance(v, BaseException):
        return canon_exc(v)
    return ["obj", t.__module__ + "." + t.__name__]


def _flat(v):
    k = v.dtype.kind
    if k == "f":
        return [_f(x) for x in v.astype("f8").ravel().tolist()]
    if k == "O":
        return [canon(x, 1) for x in v.ravel().tolist()]
    if k == "c":
        return [y for x in v.ravel().tolist() for y in (_f(x.real), _f(x.imag))]
    if k in "mM":
        return [str(x) for x in v.ravel()]
    return [str(x) for x in v.ravel().tolist()]


def key(v):
    return json.dumps(v, sort_keys=True)


def same(a, b):
    return key(a) == key(b)


# ------------------------------------------------- tolerant comparison of canons
def _tof(x):
    return {"nan": math.nan, "inf": math.inf, "-inf": -math.inf}[x] if isinstance(x, str) else float(x)


def _isnum(c):
    return isinstance(c, (float,)) or c in ("nan", "inf", "-inf")


def close_num(x, y, rtol, atol):
    x, y = _tof(x), _tof(y)
    if x != x or y != y:
        return x != x and y != y
    if x == y:
        return True
    if math.isinf(x) or math.isinf(y):
        return False
    return abs(x - y) <= atol + rtol * max(abs(x), abs(y))


def flatten(c):
    """canon -> list of leaf numbers/strings, ignoring container and numpy types"""
    if isinstance(c, list) and c and isinstance(c[0], str):
        tag = c[0]
        if tag in ("T", "L"):
            out = []
            for x in c[1:]:
                out += flatten(x)
            return out
        if tag == "nd":
            return list(c[3])
        if tag == "np":
            return list(c[2:])
        if tag == "c":
            return list(c[1:])
        if tag == "i":
            return [float(c[1])]
        if tag == "ell":
            out = []
            for x in c[2:]:
                out += flatten(x)
            return out
        return [key(c)]
    return [c]


def close(a, b, rtol=1e-11, atol=1e-9):
    fa, fb = flatten(a), flatten(b)
    if len(fa) != len(fb):
        return False
    for x, y in zip(fa, fb):
        if _isnum(x) and _isnum(y):
            if not close_num(x, y, rtol, atol):
                return False
        elif x != y:
            return False
    return True
