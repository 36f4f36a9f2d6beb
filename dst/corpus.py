"""A corpus of operations, found by coverage feedback from the library under test.

The corpus is built afresh from /repo's working tree before the simulated runs of a campaign: chunks of
operations, each a pure function of (seed, configuration, chunk), run one after the other in a forked
child while the library's statements are traced; operations that take the library along a new edge
(statement to statement) are kept and mutated further.  It steers generation only: which operations the
simulated runs use, and at which rarely executed statements faults and switches are aimed.
"""
from __future__ import annotations

import copy
import json
import math
import os
import random
import sys
import time

from . import catalog, changed

CHUNKS = {"np": 24, "std": 10, "ap": 8}
OPS = {"np": 420, "std": 420, "ap": 160}
SRC_CFG = {"npl": "np", "raw": "np", "rawap": "ap"}
KEEP = 8  # operations kept per edge


# ----------------------------------------------------------------------- mutation
def kinds_by_pos(e):
    out = []
    for k in e.kinds:
        out += [k] * (3 if k in ("pos3", "vel3", "nv3", "nvs") else 1)
    return out


_consts = None


def consts():
    """numbers the library's own code compares with or stores: worth trying as inputs"""
    global _consts
    if _consts is None:
        fl, it = set(), set()
        import types

        lib = os.path.join(os.environ["DST_SRC"], "pymap3d")
        seen = set()

        def walk(co):
            if co in seen:
                return
            seen.add(co)
            for c in co.co_consts:
                one(c)

        def one(c):
            if isinstance(c, types.CodeType):
                walk(c)
            elif isinstance(c, tuple):
                for x in c:
                    one(x)
            elif isinstance(c, bool):
                pass
            elif isinstance(c, int):
                (it if 0 <= c <= 5000 else fl).add(c)
            elif isinstance(c, float) and math.isfinite(c):
                fl.add(c)

        for f in sorted(os.listdir(lib)):
            if f.endswith(".py"):
                try:
                    with open(os.path.join(lib, f), encoding="utf-8") as fh:
                        walk(compile(fh.read(), f, "exec"))
                except (OSError, SyntaxError, ValueError):
                    pass
        _consts = sorted(fl), sorted(it)
    return _consts


SIZES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 20, 32, 33, 50, 64, 65, 100, 101, 128, 256, 257, 512, 1000, 1024]
SHAPES = [[1, 2], [2, 1], [2, 2], [2, 3], [3, 2], [1, 1], [4, 2], [2, 2, 2], [1, 5], [5, 1], [3, 3]]


def around(rng, c):
    """a size near (a multiple of) one that matters to the code"""
    k = rng.choice([1, 1, 1, 2, 2, 3]) if c < 7000 else 1
    return max(0, min(20001, c * k + rng.choice([-1, 0, 0, 1, 1])))


def pick_size(rng):
    new = changed.current().sizes
    if new and rng.random() < 0.4:
        return around(rng, rng.choice(new))
    x = rng.random()
    if x < 0.55:
        return rng.choice([1, 2, 3, 4, 5, 6])
    if x < 0.85:
        return rng.choice(SIZES)
    if x > 0.985:
        return rng.choice([2000, 2048, 4096, 4097, 5000, 8192, 10000, 10001])
    c = [i for i in consts()[1] if 0 < i <= 2000]
    return max(0, (rng.choice(c) if c else 3) + rng.choice([-1, 0, 0, 1]))


def pick_const(rng):
    fl, it = consts()
    new = changed.current().numbers
    c = rng.choice(new) if new and rng.random() < 0.5 else rng.choice(fl) if fl and rng.random() < 0.6 else (rng.choice(it) if it else 1.0)
    return rng.choice([c, c, float(c), -c, float(c) + 1e-9, float(c) - 1e-9, math.degrees(c) if abs(c) < 1e6 else c, math.radians(c), c + 1, c - 1, c / 2])


SPECIAL = [0.0, -0.0, 90.0, -90.0, 180.0, -180.0, 270.0, 360.0, 1e-300, -1e-300, math.nan, math.inf, -math.inf, 1e308, 1e-12, 1, 0, -1, math.pi, math.pi / 2, -math.pi / 2, 2 * math.pi]
WRONG = ["x", None, [], "", {"t": "cplx", "v": [1.0, 2.0]}, {"t": "tuple", "v": []}, "12.5", True, [["x"]]]


def to_arrays(rng, o, e, deg, cfg):
    """numeric arguments become arrays of one (random) shape, or some of them do"""
    ks = kinds_by_pos(e)
    if rng.random() < 0.45:
        shape = list(rng.choice(SHAPES)) if rng.random() < 0.9 else []
    else:
        shape = [pick_size(rng)]
    n = 1
    for d in shape:
        n *= d
    base = min(n, 9)
    only = rng.random() < 0.25
    same = rng.random() < 0.15
    uniq = {}
    triple = {}
    for i, a in enumerate(o["a"]):
        num = isinstance(a, (int, float)) and not isinstance(a, bool) or isinstance(a, dict) and a["t"] in ("np", "arr")
        if not num or i >= len(ks) or ks[i] in ("time", "timestr", "ellname", "latl", "lonl", "nvs"):
            continue
        if only and rng.random() < 0.5:
            continue
        if isinstance(a, dict) and a["t"] == "arr" and catalog.is_flat(a):
            v = list(a["v"])
        elif isinstance(a, dict) and a["t"] == "arr":
            continue
        else:
            v = [a["v"] if isinstance(a, dict) else a]
        k = ks[i]
        c = 0
        if k in ("pos3", "vel3", "nv3"):
            c = triple[k] = (triple.get(k, -1) + 1) % 3
        while len(v) < base:
            if same:
                v.append(v[0])
                continue
            row = gen_row(rng, k, len(v), c, uniq)
            v.append(catalog.conv(k, row, deg))
        d = {"t": "arr", "v": [float(x) if isinstance(x, (int, float)) else x for x in v[:base]]}
        if n > base or n == 0:
            d["tile"] = n
        if len(shape) != 1:
            d["shape"] = shape
        o["a"][i] = d


def gen_row(rng, k, r, c, uniq):
    key = (k, r)
    if c == 0 or key not in uniq:
        uniq[key] = catalog.gen_kind(rng, {"lata": "lat", "lona": "lon"}.get(k, k))
    row = uniq[key]
    return row[c % len(row)]


DTY = ["f4", "f8", "f2", "i8", "i4", "g", ">f8", "O", "u2", "c16", "?"]
SCAL = ["float32", "float64", "float16", "int64", "int32", "longdouble", "uint8", "bool_"]


def retype(rng, o, cfg):
    """equal values, other types"""
    np_ok = cfg != "std"
    for i, a in enumerate(o["a"]):
        if rng.random() < 0.3:
            continue
        if isinstance(a, bool) or a is None or isinstance(a, str):
            continue
        if isinstance(a, (int, float)):
            x = rng.random()
            fin = math.isfinite(a)
            if x < 0.4 and fin and a == int(a) and abs(a) < 1e15:
                o["a"][i] = int(a) if isinstance(a, float) else float(a)
            elif np_ok:
                dt = rng.choice(SCAL)
                if dt in ("int64", "int32", "uint8", "bool_") and not (fin and a == int(a) and (0 <= a < 256 or dt.startswith("int") and abs(a) < 2e9)):
                    dt = "float32"
                o["a"][i] = {"t": "np", "v": a, "dt": dt} if rng.random() < 0.7 else {"t": "arr", "v": [float(a)], "shape": []}
        elif isinstance(a, dict) and a["t"] == "np":
            o["a"][i] = a["v"]
        elif isinstance(a, dict) and a["t"] == "arr":
            x = rng.random()
            if x < 0.3 and "tile" not in a and "shape" not in a:
                o["a"][i] = copy.deepcopy(a["v"])
            elif x < 0.85:
                dt = rng.choice(DTY)
                flat = a["v"] if catalog.is_flat(a) else [math.nan]
                if dt in ("i8", "i4", "u2", "?") and not all(isinstance(v, (int, float)) and math.isfinite(v) and abs(v) < 2e9 for v in flat):
                    dt = "f4"
                a["dt"] = dt
                a.pop("lay", None)
            else:
                a["lay"] = rng.choice(["F", "strided", "neg", "ro"])
        elif isinstance(a, list) and np_ok and a and all(isinstance(v, (int, float)) and not isinstance(v, bool) for v in a):
            o["a"][i] = {"t": "arr", "v": [float(v) for v in a]}
        elif isinstance(a, dict) and a["t"] == "dt" and np_ok and rng.random() < 0.3:
            o["a"][i] = {"t": "dt64", "v": a["v"], "u": rng.choice(["us", "ns", "ms"])}
        elif isinstance(a, dict) and a["t"] == "dt":
            o["a"][i] = a["v"] if rng.random() < 0.5 else [copy.deepcopy(a)]


def twin(rng, op, cfg):
    """one argument replaced by a value that compares (and hashes) equal but is not the same: what a careless
    cache key or memo confuses"""
    o = copy.deepcopy(op)
    c = []
    for i, a in enumerate(o["a"]):
        if isinstance(a, bool) or a is None or isinstance(a, (str, list)):
            continue
        if isinstance(a, (int, float)):
            if a == 0:
                c.append((i, -0.0 if math.copysign(1, a) > 0 else 0.0))
                c.append((i, False))
            if a == 1:
                c.append((i, True))
            if a - a == 0 and a == int(a) and abs(a) < 1e15:
                c.append((i, int(a) if isinstance(a, float) else float(a)))
                if cfg != "std" and abs(a) < 2048:
                    c += [(i, {"t": "np", "v": a, "dt": d}) for d in ("float32", "float16", "int64")]
            elif cfg != "std":
                c.append((i, {"t": "np", "v": a, "dt": "longdouble"}))
        elif isinstance(a, dict) and a["t"] == "np":
            c.append((i, a["v"]))
        elif isinstance(a, dict) and a["t"] == "dt":
            c.append((i, dict(a, fold=1 - a.get("fold", 0))))
        elif isinstance(a, dict) and a["t"] == "arr" and catalog.is_flat(a) and a["v"] and all(isinstance(v, (int, float)) and v - v == 0 and v == int(v) and abs(v) < 2048 for v in a["v"]):
            c += [(i, dict(a, dt=d)) for d in ("f4", "f2", "i8") if a.get("dt", "f8") != d]
            if 0 in a["v"]:
                c.append((i, dict(a, v=[-v if v == 0 else v for v in a["v"]])))
    if isinstance(o["k"].get("deg"), bool):
        c.append(("deg", int(o["k"]["deg"])))
    if not c:
        return retyped(rng, op, cfg)
    i, v = rng.choice(c)
    (o["k"] if isinstance(i, str) else o["a"])[i] = copy.deepcopy(v)
    return o


def poke(rng, o, vals):
    e = catalog.BY_F[o["f"]]
    opts = [n for fl, ns in (("U", ["delta_ut1"]), ("P", ["xp", "yp"]), ("C", ["radius"])) if e.has(fl) for n in ns]
    if opts and rng.random() < 0.3:
        o["k"][rng.choice(opts)] = vals(rng)
        return
    slots = catalog._num_slots(o)
    if slots:
        s = rng.choice(slots)
        v = vals(rng)
        if s[0] == "arr":
            v = float(v)
        catalog._set(o, s, v)


def centre(rng, o, e):
    """values that cancel each other: the height of the centre of the ellipsoid, the two ends of a pair alike"""
    ks = kinds_by_pos(e)
    ell = o["k"].get("ell")
    a = ell["a"] if isinstance(ell, dict) and ell.get("t") == "ellc" else 6378137.0
    for i in range(min(len(ks), len(o["a"]))):
        v = {"lat": 0.0, "alt": -a, "radius": 0.0}.get(ks[i])
        if v is None or rng.random() < 0.15:
            continue
        x = o["a"][i]
        if isinstance(x, (int, float)) and not isinstance(x, bool):
            o["a"][i] = v
        elif isinstance(x, dict) and x["t"] == "np":
            x["v"] = v
        elif isinstance(x, dict) and x["t"] == "arr" and catalog.is_flat(x) and x["v"]:
            x["v"][0] = v


def spoil(rng, o):
    """an argument that is not acceptable"""
    if not o["a"]:
        return
    i = rng.randrange(len(o["a"]))
    a = o["a"][i]
    if isinstance(a, list) and a and rng.random() < 0.7:
        a[rng.randrange(len(a))] = copy.deepcopy(rng.choice(WRONG))
    elif isinstance(a, dict) and a["t"] == "arr" and a["v"] and rng.random() < 0.5:
        if rng.random() < 0.6:
            for k in ("shape", "tile"):
                a.pop(k, None)
            a["v"] = a["v"][:-1] if len(a["v"]) > 2 else a["v"] + a["v"] + a["v"]
        elif catalog.is_flat(a):
            a["v"][rng.randrange(len(a["v"]))] = None
            a["dt"] = "O"
    else:
        o["a"][i] = copy.deepcopy(rng.choice(WRONG))


def extras(rng, o, e, cfg):
    """keyword arguments in unusual forms"""
    k = o["k"]
    have = [c for c in "EDKQUP" if e.has(c)]
    if not have:
        return
    c = rng.choice(have)
    if c == "E":
        k["ell"] = catalog.gen_ell(rng) or {"t": "ell", "n": "wgs84"}
        if rng.random() < 0.4:
            # an ellipsoid of unusual size or flattening
            c = pick_const(rng)
            a = abs(c) if 1 < abs(c) < 1e12 and rng.random() < 0.5 else rng.choice([1.0, 1829.7, 6.0e6, 6378137.0, 7.1e7])
            f = abs(c) if abs(c) < 1 and rng.random() < 0.7 else rng.choice([0.0, 1e-9, 0.01, 0.1, 0.3, 0.5, 0.9])
            k["ell"] = {"t": "ellc", "a": float(a), "b": float(a * (1 - f))}
    elif c == "D":
        k["deg"] = rng.choice([True, False, 1, 0])
    elif c == "K":
        k["npts"] = rng.choice([0, 1, 2, 3, 10, 33, 100, min(pick_size(rng), 2000)])
    elif c == "Q":
        k["sequence"] = rng.choice(["zyx", "xyz", "zxy", "yxz", "xzy", "yzx", "zyz", "ZYX", "bad", ""])
    elif c == "U":
        k["delta_ut1"] = rng.choice([0.0, 0.334, -0.9, 1, math.nan, 3601.0, -1e5, 1e7, 1e15, math.inf])
    else:
        k["xp"], k["yp"] = rng.choice([(0.1, 0.2), (0.0, 0.3), (1e-9, 0.0), (-700.0, 3.0), (0.0, math.nan), (1e9, 1e9)])


def lists(rng, o, e):
    """a list (perhaps nested) where one value is usual: functions that take sequences recursively"""
    for i, a in enumerate(o["a"]):
        if isinstance(a, (int, float)) and not isinstance(a, bool) and rng.random() < 0.8:
            o["a"][i] = rng.choice([[a], [a, a + 1.0], [[a], [a]], [a] * 5])
        elif isinstance(a, dict) and a["t"] == "dt" and rng.random() < 0.8:
            o["a"][i] = rng.choice([[copy.deepcopy(a)], [copy.deepcopy(a), copy.deepcopy(a)], [[copy.deepcopy(a)]]])


def diversify(rng, op, cfg):
    try:
        return _diversify(rng, op, cfg)
    except catalog.ODD:
        return copy.deepcopy(op)


def _diversify(rng, op, cfg):
    o = copy.deepcopy(op)
    e = catalog.BY_F[o["f"]]
    deg = bool(o["k"].get("deg", True))
    new = changed.current().strings
    if new and rng.random() < 0.3:
        words = [(o["a"], i) for i, v in enumerate(o["a"]) if isinstance(v, str)] + [(o["k"], n) for n, v in o["k"].items() if isinstance(v, str)]
        if words:
            d, i = rng.choice(words)
            d[i] = rng.choice(new)
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        x = rng.random()
        if x < 0.28 and cfg != "std":
            to_arrays(rng, o, e, deg, cfg)
        elif x < 0.40:
            retype(rng, o, cfg)
        elif x < 0.56:
            poke(rng, o, pick_const)
        elif x < 0.72:
            poke(rng, o, lambda r: r.choice(SPECIAL))
        elif x < 0.74:
            centre(rng, o, e)
        elif x < 0.80:
            spoil(rng, o)
        elif x < 0.88:
            extras(rng, o, e, cfg)
        elif x < 0.92:
            lists(rng, o, e)
        else:
            o = catalog.sibling(rng, o, cfg)
            e = catalog.BY_F[o["f"]]
    return catalog.fix_area(o)


def retyped(rng, op, cfg):
    o = copy.deepcopy(op)
    try:
        for _ in range(4):
            retype(rng, o, cfg)
            if o != op:
                break
    except catalog.ODD:
        return copy.deepcopy(op)
    return o


# ----------------------------------------------------------------------- feedback
class EdgeTracer:
    """statement-to-statement edges of library code taken by one call"""

    def __init__(self, lib, limit):
        self.lib, self.limit = lib, limit
        self.n = 0
        self.edges = set()
        self.lines = set()
        self.ids = {}

    def co(self, co):
        v = self.ids.get(co)
        if v is None:
            v = self.ids[co] = "%s:%d" % (os.path.basename(co.co_filename), co.co_firstlineno)
        return v

    def glob(self, frame, event, arg):
        co = frame.f_code
        if not co.co_filename.startswith(self.lib):
            return None
        name = self.co(co)
        prev = [0]
        mod = co.co_name == "<module>"

        def local(frame, event, arg):
            if event == "line":
                if not mod:
                    self.n += 1
                    if self.n > self.limit:
                        from .sched import StepLimit

                        raise StepLimit()
                ln = frame.f_lineno
                self.edges.add((name, prev[0], ln))
                self.lines.add((co.co_filename, ln))
                prev[0] = ln
            elif event == "exception":
                self.edges.add((name, prev[0], arg[0].__name__))
            elif event == "return" and not mod:
                self.profile(name, frame.f_locals)
            return local

        return local

    def profile(self, name, loc):
        """which elements masks select, and non-finite values: cases that are no branches in vectorised code"""
        for k, v in loc.items():
            dt = getattr(v, "dtype", None)
            if dt is None:
                if type(v) is float and v - v != 0:
                    self.edges.add((name, "~" + k, "bad"))
                continue
            if dt.kind == "b":
                try:
                    t = "none" if not v.any() else "all" if v.all() else "some"
                    if getattr(v, "ndim", 0) and v.size:
                        self.edges.add((name, "~" + k, t + ("1" if v.size == 1 else "")))
                except Exception:  # noqa: BLE001
                    pass
            elif dt.kind == "f" and getattr(v, "ndim", 0) and v.size > 1:
                import numpy

                f = numpy.isfinite(v)
                if not f.all():
                    self.edges.add((name, "~" + k, "bad" if not f.any() else "partbad"))

    def fperr(self, kind, flag):
        """called by NumPy when a statement divides by zero, overflows, ..."""
        f = sys._getframe(1)
        while f is not None and not f.f_code.co_filename.startswith(self.lib):
            f = f.f_back
        if f is not None:
            self.edges.add((self.co(f.f_code), "!%d" % f.f_lineno, str(kind).split()[0]))

    def run(self, fn):
        self.n = 0
        self.edges = set()
        self.lines = set()
        sys.settrace(self.glob)
        try:
            return fn()
        finally:
            sys.settrace(None)


LONG = 60000  # statements of the longest operations kept


def build_chunk(seed, cfg, chunk):
    """operations of one chunk with the edges they take (runs in a forked child)"""
    from . import codec, sched

    rng = random.Random("corpus|%s|%s|%s" % (seed, cfg, chunk))
    tr = EdgeTracer(sched.LIB, LONG)
    nch, nops = CHUNKS[cfg], OPS[cfg]
    mine = catalog.ENTRIES[chunk % 2::2]
    first = list(mine)
    rng.shuffle(first)
    kept = []  # (op, steps, new edges)
    new_lines = changed.current().lines
    hits = []  # of these, the ones that reach changed code
    count = {}
    out = {}
    lines = {}
    t_end = time.monotonic() + 40.0
    for n in range(nops):
        if time.monotonic() > t_end:
            break
        x = rng.random()
        if n < len(first):
            op = catalog.fix_area(catalog.gen_op(rng, cfg, entry=first[n]))
            if n % 2:
                op = diversify(rng, op, cfg)
        elif kept and x < 0.6:
            op = rng.choice(hits if hits and rng.random() < 0.5 else kept[-60:] if rng.random() < 0.5 else kept)
            op = diversify(rng, op, cfg)
        elif x < 0.8:
            op = catalog.fix_area(catalog.gen_op(rng, cfg))
        else:
            op = diversify(rng, catalog.fix_area(catalog.gen_op(rng, cfg)), cfg)
        if len(json.dumps(op)) > 3000:
            continue
        try:
            a, k = codec.op_args(op)
            f = codec.resolve(op["f"])
        except Exception:  # noqa: BLE001  (not expressible)
            continue
        strict = rng.random() < 0.2  # as in a host that turns warnings and floating-point errors into exceptions
        try:
            got = tr.run(lambda: strictly(f, a, k) if strict else listening(tr.fperr, f, a, k))
        except sched.StepLimit:
            continue
        tag = got[0] + ":" + str(got[1]) if isinstance(got, list) and got and got[0] in ("exc", "nd", "np") else type(got).__name__
        edges = tr.edges | {(op["f"], "=", tag)}
        new = False
        for ed in edges:
            c = count.get(ed, 0)
            count[ed] = c + 1
            if c == 0:
                new = True
        hit = bool(new_lines) and any("%s:%d" % (os.path.basename(f), ln) in new_lines for f, ln in tr.lines)
        if new:
            kept.append(op)
            if hit:
                hits.append(op)
        rare = [ed for ed in edges if count[ed] <= 4]
        if rare:
            out[len(out)] = [op, tr.n, ["%s>%s>%s" % ed for ed in rare], int(strict)]
        for ln in tr.lines:
            lines[ln] = lines.get(ln, 0) + 1
    return {"ops": list(out.values()), "count": {"%s>%s>%s" % ed: c for ed, c in count.items()}, "lines": [[os.path.basename(f), ln, c] for (f, ln), c in lines.items()]}


def strictly(f, a, k):
    import warnings

    from . import codec

    with warnings.catch_warnings():
        warnings.simplefilter("error")
        if codec.np is None:
            return codec.outcome(f, a, k)
        with codec.np.errstate(all="raise"):
            return codec.outcome(f, a, k)


def listening(cb, f, a, k):
    from . import codec

    if codec.np is None:
        return codec.outcome(f, a, k)
    with codec.np.errstate(all="call", call=cb):
        return codec.outcome(f, a, k)


def merge(chunks, seed=1):
    """one corpus of all chunks, in chunk order"""
    count, lines = {}, {}
    for c in chunks:
        for ed, n in c["count"].items():
            count[ed] = count.get(ed, 0) + n
        for f, ln, n in c["lines"]:
            k = "%s:%d" % (f, ln)
            lines[k] = lines.get(k, 0) + n
    byedge = {}
    ops = []
    for c in chunks:
        for op, n, eds, strict in c["ops"]:
            idx = None
            for ed in eds:
                L = byedge.setdefault(ed, [])
                if len(L) < KEEP:
                    if idx is None:
                        idx = len(ops)
                        ops.append([op, n, strict])
                    L.append(idx)
    edges = sorted((ed, count[ed], L) for ed, L in byedge.items())
    new = changed.current().lines
    mine = [e for e in edges if new.intersection(statement(e[0]))] if new else []
    return {"ops": ops, "edges": edges, "lines": lines, "seq": covers(edges, ops, random.Random("cover%s" % seed)), "new": covers(mine, ops, random.Random("new%s" % seed), 60)[:6000]}


def covers(edges, ops, rng, passes=9):
    """operations in an order that takes every edge again and again: [[operation, [statements]]...]"""
    byop = {}
    for ed, _, L in edges:
        for i in L:
            byop.setdefault(i, []).append(ed)
    seq = []
    for p in range(passes):
        todo = [(len(L) + rng.random(), ed, L) for ed, _, L in edges if p % 3 == 2 or ed.rsplit(">", 1)[1].isdigit()]
        todo.sort()
        left = {ed for _, ed, _ in todo}
        part = []
        for _, ed, L in todo:
            if ed in left:
                i = min(rng.choice(L), rng.choice(L), key=lambda i: ops[i][1])
                new = [x for x in byop[i] if x in left]
                left.difference_update(new)
                part.append([i, sorted({f for x in new for f in statement(x)})])
        rng.shuffle(part)
        seq += part
    return seq


def statement(ed):
    """the statements an edge leads to (or in which its exception is raised, or that use its variable)"""
    name, a, b = ed.split(">")
    f = name.split(":")[0]
    if a == "=":
        return []
    if a[0] == "~":
        return ["%s:%d" % (f, n) for n in users(f).get((int(name.split(":")[1]), a[1:]), [])]
    return ["%s:%s" % (f, a[1:] if a[0] == "!" else b if b.isdigit() else a)]


_users = {}


def users(fname):
    """{(first line of a function, variable): lines that use it}"""
    if fname not in _users:
        import ast

        out = _users[fname] = {}
        try:
            with open(os.path.join(os.environ["DST_SRC"], "pymap3d", fname), encoding="utf-8") as fh:
                tree = ast.parse(fh.read())
        except (OSError, SyntaxError, ValueError, KeyError):
            return out
        for fn in ast.walk(tree):
            if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                first = min([fn.lineno] + [d.lineno for d in fn.decorator_list])
                for x in ast.walk(fn):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                        L = out.setdefault((first, x.id), [])
                        if x.lineno not in L:
                            L.append(x.lineno)
    return _users[fname]


# ----------------------------------------------------------------------- use
class Corpus:
    def __init__(self, d):
        self.ops = d["ops"]
        self.edges = d["edges"]
        self.lines = d["lines"]
        self.seq = d["seq"]
        self.new = d.get("new") or []  # the covering sequence of changed code
        new = changed.current().lines
        self.reach = [i for i, e in enumerate(self.edges) if new.intersection(statement(e[0]))] if new else []
        self.cursor = 0
        self.focus = {}  # operation -> statements of it worth aiming at
        self.strict = set()  # operations found interesting in a strict host
        self.cum = []
        t = 0.0
        for _, n, __ in self.edges:
            t += (1.0 if _[-1].isdigit() else 0.3) / math.sqrt(n)
            self.cum.append(t)
        self.byf = {}
        for i, (op, n, _) in enumerate(self.ops):
            self.byf.setdefault(op["f"], []).append(i)

    def pick(self, rng, max_steps=1500, f=None):
        """an operation, rare edges preferred"""
        import bisect

        for _ in range(12):
            if f is not None:
                L = self.byf.get(f) or []
                if not L:
                    return None
                i = rng.choice(L)
            elif self.reach and rng.random() < 0.35:
                i = rng.choice(self.edges[rng.choice(self.reach)][2])
            elif rng.random() < 0.25:
                i = rng.choice(self.byf[rng.choice(sorted(self.byf))])
            else:
                j = bisect.bisect_left(self.cum, rng.random() * self.cum[-1])
                i = rng.choice(self.edges[min(j, len(self.edges) - 1)][2])
            op, n, _ = self.ops[i]
            if n <= max_steps:
                return copy.deepcopy(op)
        return None

    def seek(self, n):
        """start of a group or run: what follows depends on n only"""
        self.cursor = n
        self.focus = {}
        self.strict = set()

    def next(self, max_steps=1500):
        """the next operation of the covering sequence"""
        from . import codec

        if not self.seq:
            return None
        seq, n = self.seq, self.cursor
        if self.new:
            seq, n = (self.new, n // 2) if n % 2 else (self.seq, n // 2)
        i, lines = seq[n % len(seq)]
        self.cursor += 1
        op, n, strict = self.ops[i]
        if n > max_steps:
            return None
        op = copy.deepcopy(op)
        k = codec.key(op)
        if lines:
            self.focus[k] = lines
        if strict:
            self.strict.add(k)
        return op

    def rarity(self, fl):
        return 1.0 / math.sqrt(1 + self.lines.get(fl, 0))


_loaded = {}


def load(cfg):
    cfg = SRC_CFG.get(cfg, cfg)
    if cfg not in _loaded:
        try:
            with open(os.path.join(os.environ["DST_TMP"], "corpus-%s.json" % cfg)) as f:
                d = json.load(f)
            _loaded[cfg] = Corpus(d) if d["ops"] else None
        except (OSError, KeyError):
            return None
    return _loaded[cfg]
