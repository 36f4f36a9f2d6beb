"""C02: no call's result depends on the calls made before it."""
from __future__ import annotations

import copy
import gc
import random

from .. import catalog, codec
from .base import Prop, family_pool, mismatch, one_of, sig, usable

BAD = [
    {"f": "ellipsoid:Ellipsoid.from_name", "a": ["no-such-ellipsoid"], "k": {}},
    {"f": "ecef:geodetic2ecef", "a": ["x", 1.0, 2.0], "k": {}},
    {"f": "ecef:ecef2geodetic", "a": [1.0, "y", 2.0], "k": {}},
    {"f": "karney:geodesic_inverse", "a": [None, 1.0, 2.0, 3.0], "k": {}},
    {"f": "karney:geodesic_direct", "a": [95.0, 1.0, 2.0, "q"], "k": {}},
    {"f": "vincenty:vdist", "a": [95.0, 1.0, 2.0, 3.0], "k": {}},
    {"f": "vincenty:vreckon", "a": [10.0, 1.0, -2.0, 3.0], "k": {}},
    {"f": "los:lookAtSpheroid", "a": [42.0, -82.0, -100.0, 0.0, 10.0], "k": {}},
    {"f": "enu:aer2enu", "a": [10.0, 20.0, -3.0], "k": {}},
    {"f": "sidereal:datetime2sidereal", "a": ["nonsense", 0.5], "k": {"force_non_astropy": True}},
    {"f": "nvector:nvector_mean", "a": [[0.0], [0.0], [0.0]], "k": {}},
    {"f": "lox:loxodrome_inverse", "a": ["a", 2.0, 3.0, 4.0], "k": {}},
    {"f": "body:body_matrix", "a": [1.0, 2.0, 3.0], "k": {"sequence": "bad"}},
    {"f": "timeconv:str2dt", "a": ["2013-13-45"], "k": {}},
    {"f": "rsphere:curve", "a": [10.0], "k": {"method": "bad"}},
    {"f": "nvector:nvector_distance", "a": [1.0, 0.0, 0.0, 0.0, 1.0, 0.0], "k": {"radius": "x"}},
]
BAD += [
    {"f": "ellipsoid:Ellipsoid", "a": [6.0e6, 6.1e6], "k": {}},
    {"f": "ellipsoid:Ellipsoid", "a": ["a", 6.1e6], "k": {}},
    {"f": "earth_orientation:juliandate", "a": [None], "k": {}},
]
_A = catalog.A
_T = {"t": "dt", "v": "2013-01-15T12:00:05"}
_M = {"t": "arr", "v": [[1e6, 2e6, 3e6], [4e6, 5e6, 6e6]]}
_MT = {"t": "arr", "v": [[1e6, 2e6], [4e6, 5e6], [3e6, 1e6]]}
BAD_V = [
    {"f": "eci:eci2ecef", "a": [_M, _MT, _M, _T], "k": {"force_non_astropy": True}},
    {"f": "eci:ecef2eci", "a": [_A(1e6, 2e6), _A(1e6, 2e6), _A(1e6, 2e6, 3e6), _T], "k": {"force_non_astropy": True}},
    {"f": "eci:ecef2eci_state", "a": [_M, _M, _M, _M, _MT, _M, _T], "k": {"force_non_astropy": True}},
    {"f": "ecef:geodetic2ecef", "a": [_A(1, 2), _A(1, 2, 3), _A(0, 0)], "k": {}},
    {"f": "vincenty:vdist", "a": [_A(1, 95), _A(1, 2), _A(3, 4), _A(5, 6)], "k": {}},
    {"f": "vincenty:vreckon", "a": [_A(1, 2), _A(1, 2), _A(-3, 4), _A(5, 6)], "k": {}},
    {"f": "enu:aer2enu", "a": [_A(1, 2), _A(1, 2), _A(-3, 4)], "k": {}},
    {"f": "los:lookAtSpheroid", "a": [_A(1, 2), _A(1, 2), _A(-300, 4), _A(5, 6), _A(5, 6)], "k": {}},
    {"f": "lox:loxodrome_direct", "a": [_A(1, 2), _A(1, 2, 3), _A(-300, 4), _A(5, 6)], "k": {}},
    {"f": "vincenty:track2", "a": [100.0, 1.0, 3.0, 4.0], "k": {"npts": 3}},
    {"f": "ecef:ecef2geodetic", "a": [_A(1, 2), _A(1, 2, 3), _A(1, 2)], "k": {}},
]


def bad_ops(cfg):
    return BAD + BAD_V if cfg != "std" else BAD


def bad_op(rng, cfg):
    return copy.deepcopy(rng.choice(bad_ops(cfg)))


def scribble(v, depth=0):
    """overwrite a returned or passed-in mutable value in place; returns how many objects were hit"""
    np = codec.np
    n = 0
    if depth > 4:
        return 0
    if np is not None and isinstance(v, np.ndarray):
        try:
            if v.dtype.kind == "f":
                v[...] = -777.25
                n = 1
            elif v.dtype.kind in "iu":
                v[...] = 77
                n = 1
            elif v.dtype.kind == "M":
                v[...] = np.datetime64("1950-01-01")
                n = 1
            elif v.dtype.kind == "O":
                v[...] = None
                n = 1
        except (ValueError, TypeError):
            pass
        return n
    if isinstance(v, tuple):
        return sum(scribble(x, depth + 1) for x in v)
    if isinstance(v, list):
        n = 1 + sum(scribble(x, depth + 1) for x in v)
        v[:] = [-777.25] * (len(v) + 1)
        return n
    if isinstance(v, dict):
        v.clear()
        return 1
    return 0


def fill_inplace(dst, src):
    """make the caller's existing argument objects hold the new values; None if not possible"""
    np = codec.np
    if np is not None and isinstance(dst, np.ndarray) and isinstance(src, np.ndarray):
        # (NumPy's loops round differently for other strides)
        if dst.shape == src.shape and dst.dtype == src.dtype and dst.strides == src.strides and dst.flags.writeable:
            dst[...] = src
            return dst
        return src
    if isinstance(dst, list) and isinstance(src, list):
        dst[:] = src
        return dst
    return src


class C02(Prop):
    id = "C02"
    group_size = 14
    plan = [("np", 185, 1500), ("npl", 13, 80), ("std", 53, 400), ("ap", 13, 60)]
    fault_kinds = ("failing_call", "scribble", "reused_buffer", "cache_clear", "filler_call", "gc")
    stubs = "none"
    assumptions = ["two results are compared exactly (value, type, dtype, shape), NaN equal to NaN"]
    rule = ("a run is nontrivial if at least two checked calls of it are siblings (same function, arguments differing in one place) or repeat an earlier call; "
            "distinct = distinct sequences of (call, perturbation)")

    def pool(self, rng, cfg, refs):
        return family_pool(rng, cfg, refs, nfam=8, size=5, max_steps=2500)

    def gen(self, rng, pool, cfg, refs, tier):
        nf = rng.choice([1, 1, 2, 3])
        fams = [self.fam(rng, pool)] + [rng.choice(pool) for _ in range(nf - 1)]
        ops = [o for f in fams for o in f]
        if rng.random() < 0.5:
            ops += catalog.canaries(rng, 2, cfg)
        n = rng.choice([4, 8, 15, 30, 60])
        p_scr = rng.choice([0.0, 0.2, 0.6])
        p_bad = rng.choice([0.0, 0.1, 0.3])
        p_clear = rng.choice([0.0, 0.0, 0.08])
        fill = rng.random() < 0.12
        hist = []
        for _ in range(n):
            x = rng.random()
            if x < p_bad:
                hist.append({"op": bad_op(rng, cfg), "bad": True})
                continue
            if x < p_bad + p_clear:
                hist.append({"clear": True})
                continue
            st = {"op": rng.choice(ops)}
            if rng.random() < p_scr:
                st["scr"] = rng.choice(["res", "args", "both"])
            if rng.random() < 0.25:
                st["reuse"] = True
            if rng.random() < 0.03:
                st["gc"] = True
            hist.append(st)
        if fill:
            base = rng.choice(fams[0])
            steps = max(5, refs.get(base)["steps"])
            hist.insert(rng.randrange(len(hist)), {"fill": min(rng.choice([10, 40, 150, 300, 1100]), max(10, 60000 // steps)), "op": base, "seed": rng.getrandbits(30)})
            hist += [{"op": rng.choice(ops)} for _ in range(4)]
        return {"hist": hist}

    def ref_ops(self, sc):
        return [s["op"] for s in sc["hist"] if "op" in s and "fill" not in s]

    def execute(self, sc, refs):
        cnt = dict(calls=0, scribble=0, failing_call=0, reused_buffer=0, cache_clear=0, filler_call=0, gc=0, steps=0)
        res = {"viol": None, "st": cnt, "sig": sig(sc["hist"]), "nontrivial": False}
        last = {}
        fs = {}
        for n, s in enumerate(sc["hist"]):
            if s.get("clear"):
                codec.resolve("ellipsoid:clear_ellipsoid_caches")()
                cnt["cache_clear"] += 1
                continue
            op = s["op"]
            if "fill" in s:
                r = random.Random(s["seed"])
                for i in range(s["fill"]):
                    o = catalog.fix_area(catalog.sibling(r, op, sc["cfg"])) if i % 2 else vary(r, op)
                    try:
                        codec.call(o)
                    except Exception:  # noqa: BLE001  (arguments that cannot be built)
                        pass
                    cnt["filler_call"] += 1
                continue
            if s.get("gc"):
                gc.collect()
                cnt["gc"] += 1
            a, k = codec.op_args(op)
            f = codec.resolve(op["f"])
            if s.get("reuse") and op["f"] in last:
                la = last[op["f"]]
                if len(la) == len(a):
                    a = [fill_inplace(d, x) for d, x in zip(la, a)]
                    cnt["reused_buffer"] += 1
            fs[op["f"]] = fs.get(op["f"], 0) + 1
            try:
                raw = f(*a, **k)
                got = codec.canon(raw)
            except Exception as e:  # noqa: BLE001
                raw = None
                got = codec.canon_exc(e)
            cnt["calls"] += 1
            cnt["failing_call"] += bool(s.get("bad"))
            ref = refs[codec.key(op)]
            cnt["steps"] += ref.get("steps", 0)
            if not codec.same(got, ref["out"]):
                res["viol"] = mismatch(op, got, ref["out"], "call %d of the history" % n)
                return res
            last[op["f"]] = a
            w = s.get("scr")
            if w in ("res", "both"):
                cnt["scribble"] += scribble(raw)
            if w in ("args", "both"):
                cnt["scribble"] += scribble(list(a)) - 1
        res["nontrivial"] = max(fs.values(), default=0) > 1
        return res

    def explicit(self, sc, res):
        return None


def vary(rng, op):
    """a copy of op with all numeric arguments slightly changed (distinct cache keys)"""
    o = copy.deepcopy(op)
    for i, a in enumerate(o["a"]):
        if isinstance(a, float):
            o["a"][i] = a + rng.uniform(-1e-3, 1e-3)
        elif catalog.is_flat(a) and all(isinstance(x, float) for x in a["v"]):
            a["v"] = [x + rng.uniform(-1e-3, 1e-3) for x in a["v"]]
        elif isinstance(a, dict) and a["t"] == "dt":
            a["v"] = "20%02d-%02d-%02dT%02d:%02d:%02d" % (rng.randint(0, 30), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))
            a.pop("tz", None)
    el = o["k"].get("ell")
    if isinstance(el, dict) and rng.random() < 0.5:
        o["k"]["ell"] = {"t": "ellc", "a": 6378137.0 + rng.randint(-900, 900), "b": 6356752.0 + rng.randint(-900, 900)}
    elif rng.random() < 0.3 and catalog.BY_F[o["f"]].has("E"):
        o["k"]["ell"] = {"t": "ellc", "a": 6378137.0 + rng.randint(-900, 900), "b": 6356752.0 + rng.randint(-900, 900)}
    return o
