"""C10: missing or failing optional packages never break what works without them."""
from __future__ import annotations

import builtins
import copy
import importlib
import json
import os
import subprocess
import sys
import types

from .. import catalog, changed, codec, corpus
from .base import Prop, short, sig

# what genuinely needs NumPy, even for scalars
LIST_OK = {"sidereal:datetime2sidereal"}
STR_OK = {"azelradec:azel2radec", "azelradec:radec2azel", "sidereal:datetime2sidereal"}
NEEDS_NUMPY = {"vincenty:track2"}
# time-taking functions whose default implementation is astropy's when astropy is there
ASTRO = {"eci:eci2ecef", "eci:ecef2eci", "eci:eci2ecef_state", "eci:ecef2eci_state", "aer:eci2aer", "aer:aer2eci", "ecef:eci2geodetic", "ecef:geodetic2eci", "azelradec:azel2radec",
         "azelradec:radec2azel", "sidereal:datetime2sidereal", "haversine:anglesep", "vallado:azel2radec", "vallado:radec2azel", "sidereal:datetime2sidereal_vallado"}
FORCE = sorted(f for f in ASTRO if catalog.BY_F[f].has("F"))
MODULES = ["", "aer", "azelradec", "body", "dca", "earth_orientation", "ecef", "eci", "ellipsoid", "enu", "frames", "haversine", "karney", "latitude", "los", "lox", "mathfun", "ned", "nvector", "nwu",
           "rcurve", "rsphere", "sez", "sidereal", "spherical", "timeconv", "utils", "vallado", "vincenty"]
NP_NAMES = ["arccos", "arcsin", "arcsinh", "arctan", "arctan2", "arctanh", "cbrt", "copysign", "cos", "degrees", "errstate", "exp", "fmod", "hypot", "inf", "isclose", "isfinite", "isnan", "linspace",
            "log", "minimum", "power", "radians", "sign", "sin", "sqrt", "tan", "asarray", "broadcast_arrays", "empty_like", "ones_like", "where", "finfo", "atleast_1d", "column_stack", "empty", "array", "ndarray"]


class Gate:
    """decides, for every import statement of library code that asks for an optional package, whether it works"""

    def __init__(self):
        self.real = builtins.__import__
        self.rules = {}  # package -> rule dict
        self.seen = {}
        self.denied = 0
        self.saved = {}

    def install(self):
        builtins.__import__ = self

    def remove(self):
        builtins.__import__ = self.real

    def __call__(self, name, globals=None, locals=None, fromlist=(), level=0):
        root = name.split(".")[0]
        r = self.rules.get(root) if level == 0 else None
        if r and globals and str(globals.get("__name__", "")).split(".")[0] == "pymap3d":
            n = self.seen[root] = self.seen.get(root, 0) + 1
            if r["kind"] == "nth" and n == r["n"] or r["kind"] == "after" and n > r["n"] or r["kind"] == "until" and n <= r["n"]:
                self.denied += 1
                raise ImportError("simulated: cannot import %s" % name)
        return self.real(name, globals, locals, fromlist, level)

    # whole-package faults work on sys.modules, where late arrivals and removals happen
    def hide(self, p, how="none"):
        if p not in self.saved:
            self.saved[p] = {k: v for k, v in sys.modules.items() if k == p or k.startswith(p + ".")}
        for k in self.saved[p]:
            sys.modules.pop(k, None)
        if how == "stub":
            sys.modules[p] = types.ModuleType(p)
        else:
            sys.modules[p] = None

    def stub(self, p, names):
        real = sys.modules.get(p)
        if real is None:
            real = self.saved.get(p, {}).get(p)
        self.hide(p, "stub")
        m = sys.modules[p]
        if p == "numpy":  # its inner modules are there (functions already imported need them), its face is broken
            sys.modules.update({k: v for k, v in self.saved[p].items() if k != p})
            m.__path__ = real.__path__
        for n in names:
            if hasattr(real, n):
                setattr(m, n, getattr(real, n))

    def drop(self, full):
        """one submodule is missing"""
        root = full.split(".")[0]
        if root not in self.saved:
            self.saved[root] = {k: v for k, v in sys.modules.items() if k == root or k.startswith(root + ".")}
        for k in list(sys.modules):
            if k == full or k.startswith(full + "."):
                del sys.modules[k]
        sys.modules[full] = None
        par, _, leaf = full.rpartition(".")
        if par and sys.modules.get(par) is not None and hasattr(sys.modules[par], leaf):
            self.saved.setdefault("attrs", []).append((sys.modules[par], leaf, getattr(sys.modules[par], leaf)))
            try:
                delattr(sys.modules[par], leaf)
            except AttributeError:
                pass

    def outcome(self, fn, a, k):
        """call, then look at the result with everything in place again"""
        try:
            r = fn(*a, **k)
        except Exception as e:  # noqa: BLE001
            return codec.canon_exc(e)
        now = {}
        for p, saved in self.saved.items():
            if p != "attrs":
                now[p] = {n: m for n, m in sys.modules.items() if n == p or n.startswith(p + ".")}
                sys.modules.update(saved)
        try:
            return codec.canon(r)
        finally:
            for p, mods in now.items():
                for n in self.saved[p]:
                    sys.modules.pop(n, None)
                sys.modules.update(mods)

    def restore(self, p):
        for m, leaf, v in self.saved.pop("attrs", []):
            setattr(m, leaf, v)
        if p in self.saved:
            for k in list(sys.modules):
                if k == p or k.startswith(p + "."):
                    del sys.modules[k]
            sys.modules.update(self.saved.pop(p))


def reference(ops, block):
    for m in list(sys.modules):
        if m == "pymap3d" or m.startswith("pymap3d."):
            del sys.modules[m]
    args = [arguments(o) for o in ops]
    g = Gate()
    for p in block + (["astropy"] if "numpy" in block else []):
        g.hide(p)
    out = []
    for o, ar in zip(ops, args):
        try:
            f = codec.resolve(o["f"])
            a, k = [late(x) for x in ar[0]], {n: late(x) for n, x in ar[1].items()}
        except ImportError as e:
            out.append(codec.canon_exc(e))
            continue
        out.append(g.outcome(f, a, k))
    return out


def arguments(o):
    return [decode_late(x) for x in o["a"]], {k: decode_late(x) for k, x in o.get("k", {}).items()}


class Injected(BaseException):
    pass


class C10(Prop):
    id = "C10"
    corpus = ("std",)
    group_size = 20
    plan = [("raw", 77, 1500), ("rawap", 26, 500), ("np", 7, 100), ("ap", 3, 40)]
    fault_kinds = ("package_absent", "import_fails_once", "import_fails_from_then_on", "import_fails_at_first", "partly_broken_package", "submodule_absent", "late_arrival", "disappears", "interrupted_import", "other_interpreter")
    rule = "a run is nontrivial if a fault changed the outcome of at least one import of an optional package (or a different interpreter was used); distinct = distinct (fault, import order, calls)"
    stubs = "the import statements of library code and sys.modules entries of NumPy/astropy, which the scenario controls; partly broken packages are module objects holding a subset of the real names"
    assumptions = ["faults surface as ImportError (ModuleNotFoundError included), which is what the import system raises for absent or partly installed packages",
                   "calls with array arguments are required to work only where NumPy was there when the library was imported; elsewhere they may raise but not return wrong values",
                   "the math module raises OverflowError, ValueError or ZeroDivisionError where NumPy gives infinities, NaN or a saturated value (isometric latitudes beyond 4e4 degrees)"]
    sim_time_note = "not applicable: import events are the unit"

    # ---- generation
    def scalar_op(self, rng, astro):
        for _ in range(50):
            if astro and rng.random() < 0.7:
                e = catalog.BY_F[rng.choice(FORCE if rng.random() < 0.6 else sorted(ASTRO))]
            else:
                e = changed.steer(rng, catalog.WEIGHTED)
            o = catalog.fix_area(catalog.gen_op(rng, "std", entry=e, arrays=False, simple_time=rng.random() < 0.7))
            c = corpus.load("std")
            if c is not None and rng.random() < 0.3:
                o2 = c.pick(rng, 10**9, e.f if rng.random() < 0.6 else None)
                if o2 is not None and all(isinstance(x, (int, float)) and not isinstance(x, bool) or isinstance(x, dict) and x["t"] == "dt" for x in o2["a"]):
                    o = o2
                e = catalog.BY_F[o["f"]]
            if '"arr"' in codec.key(o) or e.has("M"):
                continue
            if e.has("F") and rng.random() < 0.5:
                o["k"]["force_non_astropy"] = True
            if astro and e.has("T") and rng.random() < 0.3:
                self.other_time(rng, o, e)
            return o
        raise RuntimeError

    def other_time(self, rng, o, e):
        """the time as a list or a string where the function takes that"""
        t = [i for i, x in enumerate(o["a"]) if isinstance(x, dict) and x["t"] == "dt"]
        if len(t) != 1:
            return
        if o["f"] in LIST_OK and rng.random() < 0.8:
            v = [o["a"][t[0]]] + [catalog.gen_time(rng) for _ in range(rng.choice([0, 1, 2]))]
            o["a"][t[0]] = {"t": "tuple", "v": v} if rng.random() < 0.4 else v
        elif o["f"] in STR_OK and o["k"].get("force_non_astropy"):
            o["a"][t[0]] = o["a"][t[0]]["v"]

    def fault(self, rng, p):
        x = rng.random()
        if x < 0.2:
            return {"kind": "hide"}
        if x < 0.45:
            return {"kind": "nth", "n": rng.randint(1, 7 if p == "numpy" else 9)}
        if x < 0.6:
            return {"kind": "after", "n": rng.randint(0, 6)}
        if x < 0.75:
            return {"kind": "until", "n": rng.randint(1, 6)}
        if x < 0.9 or p == "numpy":
            if p == "numpy":
                k = rng.choice([0, 1, len(NP_NAMES) // 2, len(NP_NAMES) - 1, len(NP_NAMES) - 2])
                return {"kind": "stub", "names": sorted(rng.sample(NP_NAMES, k))}
            return {"kind": "stub", "names": rng.choice([[], ["units"], ["units", "coordinates", "time"]])}
        return {"kind": "drop", "m": rng.choice(["astropy.units", "astropy.coordinates", "astropy.time"])}

    def gen(self, rng, pool, cfg, refs, tier):
        p = "astropy" if cfg in ("rawap", "ap") else "numpy"
        if cfg == "np" or cfg == "ap":  # another interpreter without the packages
            return {"mode": "interp", "flags": rng.choice([[], [], ["-O"], ["-OO"], ["-I"], ["-X", "dev", "-W", "ignore"]]), "hist": [self.scalar_op(rng, cfg == "ap") for _ in range(25)]}
        sc = {"mode": "gate", "p": p, "fault": self.fault(rng, p)}
        order = rng.sample(MODULES, rng.choice([1, 1, 3, 8]))
        steps = [{"do": "import", "m": m} for m in order]
        if rng.random() < 0.2:
            sc["interrupt"] = rng.choice([1, 5, 30, rng.randint(1, 900), rng.randint(1, 3000)])
        n = rng.choice([4, 8, 12])
        late = rng.random()
        for i in range(n):
            if rng.random() < 0.15:
                steps.append({"do": "import", "m": rng.choice(MODULES)})
            if late < 0.35 and i == n // 2 or late < 0.1 and i == 1:
                steps.append({"do": "arrive"})
            elif 0.35 < late < 0.5 and i == n // 2:
                steps.append({"do": "leave"})
            if p == "numpy" and rng.random() < 0.15:
                o = catalog.fix_area(catalog.gen_op(rng, "np", arrays=True, simple_time=True))
            else:
                o = self.scalar_op(rng, p == "astropy")
            steps.append({"do": "op", "op": o})
        sc["steps"] = steps
        return sc

    def references(self, sc):
        """outcome of every call in processes where the packages are all there or have never been"""
        from ..zygote import fork_eval

        ops = sc["hist"] if sc["mode"] == "interp" else [s["op"] for s in sc["steps"] if s["do"] == "op"]
        refs = {}
        for b in [[], ["numpy"]] + ([["astropy"]] if sc["cfg"] in ("rawap", "ap") else []):
            out = fork_eval(reference, ops, b)
            if isinstance(out, dict):
                raise RuntimeError(str(out))
            for o, r in zip(ops, out):
                refs[codec.key(o), tuple(b)] = r
        return refs

    # ---- judging
    def judge(self, o, got, refs, sc, clean, where):
        why = self.verdict(o, got, refs, sc, clean)
        if why in ("wrong value", "differs from the non-astropy implementation's values") and ill_conditioned(o, got, refs[codec.key(o), ()]):
            return None
        return why

    def verdict(self, o, got, refs, sc, clean):
        """got: canonical outcome; clean: NumPy was undisturbed"""
        ko = codec.key(o)
        good, nonp, noap = (refs.get((ko, b)) for b in ((), ("numpy",), ("astropy",)))
        arrays = '"arr"' in codec.key(o) or '"dt64"' in codec.key(o)
        isexc = isinstance(got, list) and got and got[0] == "exc"
        known = [x for x in (good, nonp, noap) if x is not None]
        if any(near(got, x) for x in known if not is_exc(x)):
            # forcing the non-astropy implementation gives that implementation's values
            if o["k"].get("force_non_astropy") and noap is not None and not is_exc(noap):
                if not near(got, noap):
                    return "differs from the non-astropy implementation's values"
                if sc["mode"] == "gate" and not codec.close(got, noap, 1e-13, 1e-13):  # it is the same code
                    return "differs (slightly) from the non-astropy implementation's values"
            return None
        if isexc:
            if domain_only(good, got):
                return None
            if isinstance(good, list) and got == noap and any(isinstance(x, (int, float)) and not abs(x) < 1e8 for x in list(o["a"]) + list(o["k"].values())):
                return None  # astropy does without the corrections, and so does not mind NaN, or more seconds than a date has, for one
            if got[1] == "OverflowError" and any(isinstance(x, (int, float)) and abs(x) > 700 for x in o["a"]):
                return None  # math raises where NumPy saturates: absurd isometric latitudes
            if any(x == got for x in known if is_exc(x)) and good != got and not is_exc(good):
                # only the reference without NumPy fails like this
                return None if got[1] == "ImportError" and o["f"] in NEEDS_NUMPY or arrays else "unrelated error"
            if any(x == got for x in known):
                return None
            if got[1] in ("ImportError", "ModuleNotFoundError") and (o["f"] in NEEDS_NUMPY):
                return None
            if arrays and not clean:
                return None
            if sc.get("p") == "astropy" and o["f"] in ASTRO and not o["k"].get("force_non_astropy") and got[1] in ("ImportError", "ModuleNotFoundError") and (
                    sc["fault"]["kind"] == "drop" or any(s["do"] == "leave" for s in sc["steps"])):
                return None  # astropy itself imports parts of astropy later on
            if is_exc(good):
                return None  # it fails with everything in place too (in another way)
            return "fails"
        if is_exc(good):
            # the math module raises where NumPy gives NaN or infinity; the reverse for some edges
            return None
        if not_finite(good) or not_finite(got):
            return None
        return "wrong value"

    def execute(self, sc, refs):
        st = {k: 0 for k in self.fault_kinds}
        st.update(calls=0, imports=0, denied_imports=0)
        res = {"viol": None, "st": st, "sig": sig(sc), "nontrivial": True}
        refs = self.references(sc)
        if sc["mode"] == "interp":
            return self.interp(sc, refs, res)
        g = Gate()
        p, f = sc["p"], sc["fault"]
        fk = {"hide": "package_absent", "nth": "import_fails_once", "after": "import_fails_from_then_on", "until": "import_fails_at_first", "stub": "partly_broken_package", "drop": "submodule_absent"}[f["kind"]]
        # arguments are made by the host, which may well have its own NumPy
        built = {}
        for i, s in enumerate(sc["steps"]):
            if s["do"] == "op":
                built[i] = arguments(s["op"])
        if f["kind"] == "hide":
            g.hide(p)
        elif f["kind"] == "stub":
            g.stub(p, f["names"])
        elif f["kind"] == "drop":
            g.drop(f["m"])
        else:
            g.rules[p] = f
        g.install()
        clean = p != "numpy"
        try:
            if sc.get("interrupt"):
                st["interrupted_import"] += 1
                self.interrupted(sc["interrupt"])
            for i, s in enumerate(sc["steps"]):
                if s["do"] == "import":
                    st["imports"] += 1
                    try:
                        importlib.import_module("pymap3d" + ("." + s["m"] if s["m"] else ""))
                    except BaseException as e:  # noqa: BLE001
                        res["viol"] = {"kind": "import", "func": "import " + s["m"], "detail": "import pymap3d.%s failed with %s(%s) under %s of %s" % (s["m"], type(e).__name__, str(e)[:150], json.dumps(f)[:200], p)}
                        break
                elif s["do"] == "arrive":
                    st["late_arrival"] += 1
                    g.restore(p)
                    g.rules.clear()
                elif s["do"] == "leave":
                    st["disappears"] += 1
                    g.restore(p)
                    g.hide(p)
                elif i in built:
                    st["calls"] += 1
                    o = s["op"]
                    try:
                        fn = codec.resolve(o["f"])
                        a, k = [late(x) for x in built[i][0]], {k: late(x) for k, x in built[i][1].items()}
                        got = g.outcome(fn, a, k)
                    except BaseException as e:  # noqa: BLE001
                        got = ["exc", type(e).__name__]
                        if not isinstance(e, Exception):
                            raise
                    why = self.judge(o, got, refs, sc, clean, i)
                    if why:
                        good = refs[codec.key(o), ()]
                        res["viol"] = {"kind": "call", "func": o["f"], "detail": "%s with %s of %s: %s gave %s, with everything in place %s" % (why, json.dumps(f)[:200], p, short(o), codec.key(got)[:200], codec.key(good)[:200])}
                        break
        finally:
            g.remove()
        st["denied_imports"] = g.denied
        st[fk] += 1
        res["nontrivial"] = g.denied > 0 or f["kind"] in ("hide", "stub", "drop") or bool(sc.get("interrupt"))
        return res

    def interrupted(self, n):
        """the import itself is interrupted (or fails) at its n-th statement; the host then imports again"""
        from .. import sched

        def hook(step, frame):
            if step == n:
                raise Injected()

        tr = sched.SoloTracer(hook=hook, limit=200000)
        try:
            with tr:
                importlib.import_module("pymap3d")
        except Injected:
            pass

    def interp(self, sc, refs, res):
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        env["PYTHONHASHSEED"] = "0"
        env["DST_CFG"] = "std"
        env.pop("LD_PRELOAD", None)
        p = subprocess.run(["/opt/venv-stdlib/bin/python", "-B"] + sc.get("flags", []) + [os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "interp.py")], input=json.dumps(sc["hist"]), capture_output=True, text=True, env=env, timeout=60)
        try:
            outs = json.loads(p.stdout)
        except ValueError:
            res["viol"] = {"kind": "crash", "detail": "interpreter without NumPy died: %s" % p.stderr[-300:]}
            return res
        res["st"]["other_interpreter"] += 1
        for o, got in zip(sc["hist"], outs):
            res["st"]["calls"] += 1
            if got == ["skip"]:
                continue
            why = self.judge(o, got, refs, sc, False, 0)
            if why:
                res["viol"] = {"kind": "call", "func": o["f"], "detail": "%s without NumPy: %s gave %s, with NumPy %s" % (why, short(o), codec.key(got)[:200], codec.key(refs[codec.key(o), ()])[:200])}
                return res
        return res


# ---------------------------------------------------------------- helpers
class _Late:
    def __init__(self, v):
        self.v = v


def decode_late(x):
    """ellipsoids are the library's own objects: made at call time"""
    if isinstance(x, dict) and x["t"] in ("ell", "ellc"):
        return _Late(x)
    return codec.decode(x)


def late(x):
    return codec.decode(x.v) if isinstance(x, _Late) else x


def is_exc(c):
    return isinstance(c, list) and len(c) == 2 and c[0] == "exc"


def not_finite(c):
    return any(x in ("nan", "inf", "-inf") for x in codec.flatten(c) if isinstance(x, str))


def domain_only(good, got):
    return not_finite(good) and got[1] in ("ValueError", "ZeroDivisionError", "OverflowError")


def ill_conditioned(o, got, good):
    """rounding-sized changes of the arguments move the result about as far (azimuths at a pole, say)"""
    from ..zygote import fork_eval

    v = []
    for e in (1e-13, -1e-13, 3e-13):
        p = copy.deepcopy(o)
        p["a"] = [x * (1 + e) if isinstance(x, float) else x for x in p["a"]]
        v.append(p)
    out = fork_eval(reference, v, [])
    if isinstance(out, dict):
        raise RuntimeError(str(out))
    if is_exc(got):
        return False
    fa, fg = codec.flatten(got), codec.flatten(good)
    for r in out:
        fr = codec.flatten(r)
        if is_exc(r) or len(fr) != len(fg) or len(fa) != len(fg):
            continue
        # every number that differs must be an unstable one
        if all(not codec._isnum(g) or close1(x, g) or not close1(y, g) for x, g, y in zip(fa, fg, fr)):
            return True
    return False


def close1(x, y):
    return near([x], [y])


def near(a, b):
    """equal up to rounding: relative, absolute or modulo a full turn"""
    import math

    fa, fb = codec.flatten(a), codec.flatten(b)
    if len(fa) != len(fb):
        return False
    for x, y in zip(fa, fb):
        if codec._isnum(x) and codec._isnum(y):
            if codec.close_num(x, y, 1e-7, 1e-5):
                continue
            x, y = codec._tof(x), codec._tof(y)
            if math.isfinite(x) and math.isfinite(y) and any(abs(abs(x - y) - t) < 1e-5 for t in (360.0, math.tau)):
                continue
            return False
        if x != y:
            return False
    return True
