"""C12: batching is transparent and one bad element never affects its batch-mates."""
from __future__ import annotations

import copy
import math

from .. import catalog, changed, codec, corpus
from .base import Prop, sig
from .imports import near

NAN, INF = math.nan, math.inf
EXTRA = ["aer:eci2aer", "aer:aer2eci", "ecef:eci2geodetic", "ecef:geodetic2eci", "eci:eci2ecef", "eci:ecef2eci", "eci:eci2ecef_state", "eci:ecef2eci_state", "azelradec:azel2radec", "azelradec:radec2azel",
         "vallado:azel2radec", "vallado:radec2azel", "body:body_matrix", "body:ned2body_matrix", "body:body2enu_matrix", "body:sez2body_matrix", "body:nwu2body_matrix", "enu:ecef2enu_matrix", "enu:enu2ecef_matrix",
         "ned:ecef2ned_matrix", "ned:ned2ecef_matrix", "nwu:nwu2ecef_matrix", "sez:ecef2sez_matrix", "sidereal:datetime2sidereal", "sidereal:greenwichsrt"]
SCALAR_ONLY = {"nvector:nvector_interpolate", "nvector:nvector_intersection"}
ENTRIES = [e for e in catalog.WEIGHTED if e.has("V") and e.f not in SCALAR_ONLY] + [catalog.BY_F[f] for f in EXTRA]
TIMELISTS = ["sidereal:datetime2sidereal", "sidereal:juliandate", "sidereal:greenwichsrt", "timeconv:str2dt"]
POISON = [NAN, INF, -INF, 0.0, -0.0, 1e300, -1e300, 1e-300, 1e16, 5e-324, 90.0, -90.0, 180.0, -180.0, 360.0, 1e9, -1.0, math.pi / 2, -math.pi / 2, math.pi]
RTOL, ATOL = 1e-8, 1e-6


class C12(Prop):
    id = "C12"
    corpus = ("std", "np")
    group_size = 10
    plan = [("np", 520, 6000), ("npl", 4, 40), ("ap", 6, 60)]
    fault_kinds = ("corrupt_neighbour", "degenerate_neighbour", "repeated_element", "reordered_batch", "split_batch", "odd_layout", "integer_elements", "empty_batch", "time_batch", "broadcast_batch")
    rule = "a run is nontrivial if one of its batches had at least two elements or a corrupt or degenerate one; distinct = distinct batches"
    stubs = "none: the simulator decides only which requests are coalesced into which arrays and which of them are corrupt"
    assumptions = ["equality is up to rounding: relative 1e-8 or absolute 1e-6, angles modulo a full turn; elements whose result alone moves by more than that when the input moves by a few units in the last place are compared with their single-element array only if that is stable too",
                   "a batch may be rejected as a whole if one of its elements is rejected when passed alone as a scalar"]
    sim_time_note = "not applicable: one batch is one event"

    # ---- generation
    def row(self, rng, e, deg):
        out = []
        for kind in e.kinds:
            if kind == "time":
                continue
            out += [catalog.conv(kind, x, deg) for x in catalog.gen_kind(rng, kind)]
        return out

    def gen_batch(self, rng, cfg):
        e = changed.steer(rng, ENTRIES)
        tmpl = catalog.gen_op(rng, "std", entry=e, arrays=False, simple_time=True)
        k = tmpl["k"]
        deg = k.get("deg", True)
        x = rng.random()
        n = 1 if x < 0.06 else 0 if x < 0.09 else rng.choice([2, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33]) if x < 0.95 else rng.choice([100, 257, 600, 600, 1025, 4099])
        sizes = changed.current().sizes
        if sizes and rng.random() < 0.3:
            n = corpus.around(rng, rng.choice(sizes))
        if cfg == "ap":
            n = min(n, 40)
        b = {"f": e.f, "k": k}
        ti = [i for i, kind in enumerate(e.kinds) if kind == "time"]
        if ti:
            b["time"] = catalog.gen_time(rng, True)
            b["tpos"] = sum(catalog.nvals(kd) for kd in e.kinds[: ti[0]])
        rows = []
        bad = 0
        for _ in range(n):
            y = rng.random()
            if rows and (y < 0.12 or len(rows) > 400):
                rows.append(list(rng.choice(rows)))
                continue
            o = catalog.gen_op(rng, "std", entry=e, arrays=False, simple_time=True)
            r = [float(v) for v in o["a"] if isinstance(v, (int, float)) and not isinstance(v, bool)]
            if rng.random() < 0.25:
                c = corpus.load("std")
                o2 = c.pick(rng, 10**9, e.f) if c is not None else None
                if o2 is not None and all(isinstance(v, (int, float)) and not isinstance(v, bool) for i, v in enumerate(o2["a"]) if i != b.get("tpos")):
                    o = o2
                    r = [float(v) for i, v in enumerate(o["a"]) if i != b.get("tpos")]
            if bool(deg) != bool(o["k"].get("deg", True)) or len(r) != sum(catalog.nvals(kd) for kd in e.kinds if kd != "time"):
                r = self.row(rng, e, deg)
                r = [float(v) for v in r]
            if y > 0.72:
                for _ in range(rng.choice([1, 1, 2])):
                    r[rng.randrange(len(r))] = rng.choice(POISON) if rng.random() < 0.7 else float(corpus.pick_const(rng))
                bad += 1
            elif y > 0.66 and len(r) == 4:  # two points: antipodal or coincident
                h = 180.0 if deg else math.pi
                r[2:] = rng.choice([[r[0], r[1]], [-r[0], r[1] - math.copysign(h, r[1])], [-r[0], r[1] - math.copysign(h * 0.9995, r[1])], [h / 2, 0.0]])
                bad += 1
            rows.append(r)
        if n > 1 and rng.random() < 0.3:
            rows = self.structure(rng, rows)
            n = len(rows)
        if n > 1 and rng.random() < 0.15:
            rows = self.found(rng, e, deg, sum(catalog.nvals(kd) for kd in e.kinds if kd != "time")) or rows
            rows = rows[:40] if cfg == "ap" else rows
            n = len(rows)
        b["rows"] = rows
        b["bad"] = bad
        if n > 40:  # of the elements of a long batch, some are looked at
            look = {rng.randrange(n) for _ in range(12)}
            for c in [x for x in sizes if x < n] or [64, 256, 1000, 1024, 4096]:
                look.update(i for i in (c - 1, c, c + 1, n // c * c - 1, n // c * c) if 0 <= i < n)
            b["look"] = sorted(look)[:40]
        b["probe"] = self.row(rng, e, deg)
        nargs = len(b["probe"])
        b["nargs"] = nargs
        if e.has("E") and "ell" not in k and rng.random() < 0.1:
            k["ell"] = {"t": "ell", "n": "mars"}
        # coalescing pattern: which arguments are shared by the whole batch
        if rows and not e.has("A") and nargs >= 2 and rng.random() < 0.3:
            pat = rng.random()
            if nargs > 3 and pat < 0.6:
                sh = list(range(3, nargs))
            elif nargs > 3 and pat < 0.8:
                sh = list(range(0, 3))
            else:
                sh = sorted(rng.sample(range(nargs), rng.randint(1, nargs - 1)))
            for r in rows[1:]:
                for i in sh:
                    r[i] = rows[0][i]
            b["shared"] = sh
        z = rng.random()
        if z < 0.12 and n and n % 2 == 0:
            b["shape"] = [2, n // 2]
        elif z < 0.18 and n:
            b["shape"] = [n, 1]
        elif z < 0.22 and n:
            b["shape"] = [1, n]
        elif z < 0.26 and n == 1:
            b["shape"] = []
        if rng.random() < 0.3:
            b["lay"] = rng.choice(["F", "strided", "neg", "ro"])
        if rng.random() < 0.12 and rows:
            for r in rows:
                for i, v in enumerate(r):
                    if math.isfinite(v) and abs(v) < 1e9:
                        r[i] = float(round(v))
            if all(math.isfinite(v) and abs(v) < 1e9 for r in rows for v in r):
                b["dt"] = "i8"
        if n > 1 and rng.random() < 0.3:
            b["perm"] = rng.sample(range(n), n)
        if n > 2 and rng.random() < 0.3:
            b["split"] = rng.randint(1, n - 1)
        return b

    def structure(self, rng, rows):
        """batches as scans and tables make them: runs of alike rows, one column swept or sorted"""
        n, m = len(rows), len(rows[0])
        x = rng.random()
        if n < 9 and rng.random() < 0.5:
            n = rng.choice([9, 10, 12, 17, 20, 33, 65])
        if x < 0.2:  # one kind of row, then another
            a, z = rng.choice(rows), rng.choice(rows)
            i = rng.choice([1, 2, n // 2, n - 2, n - 1, rng.randint(1, n - 1)]) if n > 2 else 1
            return [list(a) for _ in range(i)] + [list(z) for _ in range(n - i)]
        if x < 0.45:  # blocks of (nearly) the same row
            out = []
            while len(out) < n:
                r = rng.choice(rows)
                for _ in range(rng.choice([1, 2, 4, 8, 9, n])):
                    q = list(r)
                    if rng.random() < 0.3:
                        c = rng.randrange(m)
                        q[c] += rng.choice([1e-9, 1e-3, 1.0, -1.0])
                    out.append(q)
            return out[:n]
        if x < 0.7:  # a sweep
            r = rng.choice(rows)
            out = [list(r) for _ in range(n)]
            for c in rng.sample(range(m), rng.choice([1, 1, min(2, m)])):
                a, z = rng.choice(rows)[c], rng.choice(rows)[c]
                if math.isfinite(a) and math.isfinite(z):
                    if a == z:
                        a, z = rng.choice([(0.0, 180.0), (-90.0, 90.0), (0.0, 90.0), (-3.2, 3.2), (0.0, 1.0)])
                    for i in range(n):
                        out[i][c] = a + (z - a) * i / (n - 1)
            return out
        c = rng.randrange(m)
        return sorted(rows, key=lambda r: (r[c] != r[c], r[c] if r[c] == r[c] else 0.0))

    def found(self, rng, e, deg, m):
        """a batch of the coverage-guided corpus"""
        c = corpus.load("np")
        for _ in range(3):
            o = c.pick(rng, 4000, e.f) if c is not None else None
            if o is None or bool(o["k"].get("deg", True)) != bool(deg):
                continue
            a = [x for x in o["a"] if not (isinstance(x, dict) and x["t"] == "dt")]
            if len(a) != m or not all(isinstance(x, (int, float)) and not isinstance(x, bool) or isinstance(x, dict) and x["t"] == "arr" and catalog.is_flat(x) for x in a):
                continue
            L = [len(x["v"]) for x in a if isinstance(x, dict)]
            k = max(L, default=1)
            if k < 2:
                continue
            cols = [[x] * k if not isinstance(x, dict) else (x["v"] * k)[:k] for x in a]
            if all(isinstance(v, (int, float)) for col in cols for v in col):
                return [[float(col[i]) for col in cols] for i in range(k)]
        return None

    def gen_times(self, rng, cfg):
        f = rng.choice(TIMELISTS)
        n = rng.choice([0, 1, 2, 3, 5, 9])
        b = {"f": f, "k": {}, "times": True}
        if f == "timeconv:str2dt":
            b["rows"] = [rng.choice(catalog.TIMES) for _ in range(n)]
            b["u"] = rng.choice(["us", "ns", "s", "ms"])
        elif f == "sidereal:greenwichsrt":
            b["rows"] = [catalog.gen_kind(rng, "jd")[0] for _ in range(n)]
        else:
            b["rows"] = [catalog.gen_time(rng) for _ in range(n)]
            if f == "sidereal:datetime2sidereal":
                b["more"] = [catalog.gen_kind(rng, "lonr")[0]]
                if rng.random() < 0.5:
                    b["k"]["force_non_astropy"] = True
        b["seq"] = rng.choice(["list", "tuple"])
        return b

    def gen(self, rng, pool, cfg, refs, tier):
        return {"steps": [self.gen_times(rng, cfg) if rng.random() < 0.06 else self.gen_batch(rng, cfg) for _ in range(8)]}

    # ---- execution
    def execute(self, sc, refs):
        import warnings

        import numpy as np

        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        st = {k: 0 for k in self.fault_kinds}
        st.update(batches=0, elements=0, elements_compared=0, batches_rejected=0, elements_ill_conditioned=0)
        res = {"viol": None, "st": st, "sig": sig(sc["steps"]), "nontrivial": any(len(b["rows"]) > 1 or b.get("bad") for b in sc["steps"])}
        for b in sc["steps"]:
            v = self.times(b, st) if b.get("times") else self.batch(b, st, np)
            if v:
                res["viol"] = {"kind": v[0], "func": b["f"], "detail": "%s: %s" % (b["f"], v[1])}
                return res
        return res

    def times(self, b, st):
        f = codec.resolve(b["f"])
        st["time_batch"] += 1
        st["batches"] += 1
        if b["f"] == "timeconv:str2dt":
            if not b["rows"]:
                return None
            rows = [codec.decode({"t": "dt64", "v": r, "u": b["u"]}) for r in b["rows"]]
            whole = codec.decode({"t": "dt64", "v": b["rows"], "u": b["u"]})
        else:
            rows = [codec.decode(r) for r in b["rows"]]
            whole = tuple(rows) if b["seq"] == "tuple" else list(rows)
        more = b.get("more", [])
        alone = [codec.outcome(f, [r] + more, b["k"]) for r in rows]
        try:
            got = f(whole, *more, **b["k"])
        except Exception as e:  # noqa: BLE001
            if any(isinstance(a, list) and a and a[0] == "exc" for a in alone):
                return None
            return "rejected", "the batch %s raised %s, no element alone does" % (codec.key(b)[:300], type(e).__name__)
        got = [codec.canon(x) for x in got]
        if len(got) != len(alone):
            return "length", "%d times gave %d results" % (len(alone), len(got))
        for i, (x, y) in enumerate(zip(got, alone)):
            st["elements_compared"] += 1
            if not near(x, y):
                return "element", "element %d of %s is %s, alone %s" % (i, codec.key(b)[:300], codec.key(x)[:100], codec.key(y)[:100])
        return None

    def args(self, b, rows, np, shape=None, lay=None):
        """the arguments of a call with these rows coalesced"""
        sh = set(b.get("shared", []))
        out = []
        for i in range(b["nargs"]):
            if i in sh:
                v = rows[0][i]
                out.append(int(v) if b.get("dt") == "i8" else v)
                continue
            d = {"t": "arr", "v": [r[i] for r in rows], "dt": b.get("dt", "f8")}
            a = np.array(d["v"], dtype=d["dt"])
            if shape is not None:
                a = a.reshape(shape)
            if lay:
                a = layout(a, lay, np)
            out.append(a)
        return self.with_time(b, out)

    def with_time(self, b, out):
        if "time" in b:
            out = out[: b["tpos"]] + [codec.decode(b["time"])] + out[b["tpos"]:]
        return out

    def alone(self, b, row, f, k):
        vals = [int(v) for v in row] if b.get("dt") == "i8" else list(row)
        return codec.outcome(f, self.with_time(b, vals), k)

    def batch(self, b, st, np):
        f = codec.resolve(b["f"])
        k = {n: codec.decode(v) for n, v in b["k"].items()}
        rows = b["rows"]
        n = len(rows)
        st["batches"] += 1
        st["elements"] += n
        txt = codec.key(rows)
        st["corrupt_neighbour"] += txt.count("NaN") + txt.count("Infinity")
        st["degenerate_neighbour"] += b["bad"]
        st["repeated_element"] += n - len({codec.key(r) for r in rows})
        st["odd_layout"] += "lay" in b or "shape" in b
        st["integer_elements"] += n * (b.get("dt") == "i8")
        st["broadcast_batch"] += "shared" in b
        # NaN results of bad elements may raise alone; who is rejected alone?
        if n == 0:
            st["empty_batch"] += 1
            return self.empty(b, f, k, np)
        check = list(range(n)) if n <= 40 else sorted(set(list(range(20)) + list(range(n - 20, n)) + [i for i in b.get("look", ()) if i < n]))
        single = {i: self.alone(b, rows[i], f, k) for i in (range(n) if n <= 40 or b["bad"] else check)}
        rejected = [i for i, o in single.items() if is_exc(o)]
        try:
            got = f(*self.args(b, rows, np, b.get("shape"), b.get("lay")), **k)
        except Exception as e:  # noqa: BLE001
            st["batches_rejected"] += 1
            if rejected or n > 40 and len(single) < n:
                return None
            if b.get("shared") and not (b["shared"][0] == 3 and b["nargs"] - len(b["shared"]) == 3 and catalog.BY_F[b["f"]].kinds[-3:] == ["lat", "lon", "alt"]):
                return None  # not every mixture of numbers and arrays is promised, one observer and many targets is
            return "rejected", "a batch of %d raised %s(%s); each of its elements alone is accepted: %s" % (n, type(e).__name__, str(e)[:80], codec.key(b)[:500])
        try:
            cols = leaves(got, n, b.get("shape"), np)
        except ValueError as e:
            return "shape", "%s: %s" % (e, codec.key(b)[:400])
        for i in check:
            mine = [codec.canon(c if not hasattr(c, "shape") or c.shape == () else c.ravel()[i]) for c in cols]
            want = single[i]
            st["elements_compared"] += 1
            if is_exc(want):
                want = self.one_array(b, rows[i], f, k, np)
                if want is None:
                    continue
            else:
                want = codec.flatten(want)
            if len(mine) != len(want):
                return "shape", "element %d has %d parts, alone %d: %s" % (i, len(mine), len(want), codec.key(b)[:300])
            if agree(mine, want):
                continue
            one = self.one_array(b, rows[i], f, k, np)
            if one is not None and agree(mine, one) and (self.unstable(b, rows[i], f, k, want) or beyond_float(want, one)):
                st["elements_ill_conditioned"] += 1
                continue
            if self.unstable(b, rows[i], f, k, want) and (one is None or self.unstable_array(b, rows[i], f, k, np, one)):
                st["elements_ill_conditioned"] += 1
                continue
            return "element", "element %d of %d is %s, alone %s (row %s; %s)" % (i, n, codec.key(mine)[:160], codec.key(want)[:160], codec.key(rows[i]), codec.key({x: y for x, y in b.items() if x != "rows"})[:300])
        # the same requests coalesced differently
        for what in ("perm", "split"):
            if what not in b:
                continue
            st["reordered_batch" if what == "perm" else "split_batch"] += 1
            groups = [b["perm"]] if what == "perm" else [list(range(b["split"])), list(range(b["split"], n))]
            for gr in groups:
                try:
                    again = f(*self.args(b, [rows[i] for i in gr], np), **k)
                except Exception as e:  # noqa: BLE001
                    return "rejected", "accepted as one batch, but %s of it raised %s: %s" % (what, type(e).__name__, codec.key(b)[:400])
                c2 = leaves(again, len(gr), None, np)
                for j, i in enumerate(gr):
                    x = [codec.canon(c if not hasattr(c, "shape") or c.shape == () else c.ravel()[i]) for c in cols]
                    y = [codec.canon(c if not hasattr(c, "shape") or c.shape == () else c.ravel()[j]) for c in c2]
                    if not agree(x, y):
                        one = self.one_array(b, rows[i], f, k, np)
                        if one is not None and self.unstable_array(b, rows[i], f, k, np, one):
                            st["elements_ill_conditioned"] += 1
                            continue
                        return "regrouped", "element %d (%s) is %s in the batch, %s when the batch is %s: %s" % (i, codec.key(rows[i]), codec.key(x)[:120], codec.key(y)[:120], "reordered" if what == "perm" else "split", codec.key(b)[:300])
        return None

    def empty(self, b, f, k, np):
        if is_exc(self.alone(b, b["probe"], f, k)):
            return None
        if "time" in b and "astropy" in __import__("sys").modules and not b["k"].get("force_non_astropy"):
            return None  # astropy's own business
        try:
            got = f(*self.with_time(b, [np.zeros(0) for _ in range(b["nargs"])]), **k)
        except Exception as e:  # noqa: BLE001
            return "rejected", "an empty batch raised %s(%s)" % (type(e).__name__, str(e)[:80])
        try:
            leaves(got, 0, None, np)
        except ValueError as e:
            return "shape", "empty batch: %s" % e
        return None

    def one_array(self, b, row, f, k, np):
        try:
            got = f(*self.args(b, [row], np), **k)
            return [codec.canon(c if not hasattr(c, "shape") or c.shape == () else c.ravel()[0]) for c in leaves(got, 1, None, np)]
        except Exception:  # noqa: BLE001
            return None

    def nudges(self, row):
        for d in (3e-16, -3e-16, 2e-15, -2e-15, 1e-13):
            yield [v * (1 + d) if v else d for v in row]
            yield [v * (1 + (d if i % 2 else -d)) if v else -d for i, v in enumerate(row)]

    def unstable(self, b, row, f, k, want):
        b2 = dict(b, dt="f8")
        return any(not agree(codec.flatten(o), want) for o in (self.alone(b2, r, f, k) for r in self.nudges(row)))

    def unstable_array(self, b, row, f, k, np, want):
        b2 = dict(b, dt="f8")
        return any(o is None or not agree(o, want) for o in (self.one_array(b2, r, f, k, np) for r in self.nudges(row)))

    def shrink(self, sc):
        L = sc["steps"]
        if len(L) > 1:
            for b in L:
                yield dict(sc, steps=[b])
            return
        b = L[0]
        n = len(b["rows"])
        for key in ("perm", "split", "lay", "shape", "dt", "shared"):
            if key in b:
                c = copy.deepcopy(b)
                del c[key]
                yield dict(sc, steps=[c])
        if n > 1 and "perm" not in b and "split" not in b:
            ch = n // 2
            while ch >= 1:
                for s in range(0, n, ch):
                    c = copy.deepcopy(b)
                    c["rows"] = c["rows"][:s] + c["rows"][s + ch:]
                    c.pop("shape", None)
                    if c["rows"]:
                        yield dict(sc, steps=[c])
                ch //= 2


def layout(a, lay, np):
    if lay == "F" and a.ndim:
        return np.asfortranarray(a)
    if lay == "strided" and a.ndim:
        z = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), a.dtype)
        z[..., ::2] = a
        return z[..., ::2]
    if lay == "neg" and a.ndim:
        return a[..., ::-1].copy()[..., ::-1]
    a = a.copy()
    if lay == "ro":
        a.flags.writeable = False
    return a


def is_exc(c):
    return isinstance(c, list) and len(c) == 2 and c[0] == "exc"


def leaves(r, n, shape, np):
    """result -> list of leaves, each a scalar (common to the batch) or an array with one value per element"""
    if isinstance(r, (tuple, list)):
        return [y for x in r for y in leaves(x, n, shape, np)]
    a = r if hasattr(r, "shape") else np.asarray(r)
    if a.dtype.kind in "iu":
        a = a.astype("f8")
    if a.shape == ():
        return [a[()]]
    if a.size != n:
        raise ValueError("%d elements in, %d out" % (n, a.size))
    if list(a.shape) != list(shape if shape is not None else [n]):
        raise ValueError("shape %s in, %s out" % (shape if shape is not None else [n], list(a.shape)))
    return [a]


def agree(x, y):
    if len(x) != len(y):
        return False
    return all(close1(a, b) for a, b in zip([v for c in x for v in codec.flatten(c)], [v for c in y for v in codec.flatten(c)]))


def close1(x, y):
    if codec._isnum(x) and codec._isnum(y):
        if codec.close_num(x, y, RTOL, ATOL):
            return True
        x, y = codec._tof(x), codec._tof(y)
        return math.isfinite(x) and math.isfinite(y) and any(abs(abs(x - y) - t) < 1e-7 for t in (360.0, math.tau))
    return x == y


def beyond_float(a, b):
    """finite alone, NaN or infinite in an array or the other way round: the operands are outside the range of the formula"""
    a, b = [v for c in a for v in codec.flatten(c)], [v for c in b for v in codec.flatten(c)]
    return any(isinstance(x, str) != isinstance(y, str) for x, y in zip(a, b))
