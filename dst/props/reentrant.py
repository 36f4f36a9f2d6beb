"""C14: calls are re-entrant at every instant."""
from __future__ import annotations

import copy
import logging
import sys
import warnings

from .. import catalog, codec, sched
from .base import Prop, aim, family_pool, mismatch, one_of, short, sig


class Found(BaseException):
    """a violation met inside a nested call: unwind everything"""

    def __init__(self, v):
        self.v = v


class C14(Prop):
    id = "C14"
    plan = [("np", 270, 2500), ("npl", 18, 150), ("std", 108, 900), ("ap", 7, 40)]
    fault_kinds = ("nested", "nested2", "nested3", "clear", "argument_hook", "warning_hook")
    rule = "a run is nontrivial if at least one call ran inside another one; distinct = distinct (calls, instants, nested calls)"
    assumptions = ["nested calls start at statement boundaries (in part of the runs bytecode boundaries) of library code, or from an argument's own methods (tzinfo, ellipsoid attributes), or from warning and logging hooks"]

    def pool(self, rng, cfg, refs):
        return family_pool(rng, cfg, refs, nfam=9, size=4, max_steps=2500, nhot=3)

    def nest(self, rng, refs, fam, op, opc, depth, cfg):
        n = max(1, refs.get(op)["steps"]) * (6 if opc else 1)
        out = []
        if rng.random() < 0.12 and n <= 150 and depth == 0:
            at = list(range(1, n + 1, rng.choice([1, 1, 2, 3]) if n > 40 else 1))
            ops = [rng.choice(fam)]
            return [{"at": a, "ops": ops, "clear": None, "sub": []} for a in at]
        for _ in range(rng.choice([1, 1, 2, 3]) if depth == 0 else 1):
            at = aim(rng, refs, op, cfg, 6 if opc else 1) if rng.random() < 0.8 else rng.randint(1, min(n, 30))
            ops = [rng.choice(fam) for _ in range(rng.choice([1, 1, 2, 3]))]
            if rng.random() < 0.3:
                ops[0] = op
            d = {"at": at, "ops": ops, "clear": rng.choice([None, None, None, "before", "after", "both"]), "sub": []}
            if depth < 2 and rng.random() < 0.35:
                d["sub"] = self.nest(rng, refs, fam, ops[0], opc, depth + 1, cfg)
            out.append(d)
        return out

    def gen(self, rng, pool, cfg, refs, tier):
        fam = self.fam(rng, pool)
        if rng.random() < 0.3:
            fam = fam + rng.choice(pool)
        op = one_of(rng, fam)
        opc = rng.random() < 0.25
        sc = {"outer": op, "opcodes": opc, "how": "trace", "nest": self.nest(rng, refs, fam, op, opc, 0, cfg)}
        x = rng.random()
        if x < 0.12 and any(isinstance(a, dict) and a["t"] == "dt" for a in op["a"]):
            sc["how"] = "tz"
        elif x < 0.24 and "ell" in op["k"]:
            sc["how"] = "ell"
        elif x < 0.30:
            sc["how"] = "warn"
        if sc["how"] != "trace":
            for d in sc["nest"]:
                d["at"] = 1 + d["at"] % 12
                for s in d["sub"]:
                    s["sub"] = []
        if rng.random() < 0.4:
            sc["warm"] = [rng.choice(fam) for _ in range(rng.choice([1, 2]))]
        sc["post"] = [op] + catalog.canaries(rng, 2, cfg)
        return sc

    def ref_ops(self, sc):
        out = [sc["outer"]] + sc["post"]

        def walk(nest):
            for d in nest:
                out.extend(d["ops"])
                walk(d["sub"])
        walk(sc["nest"])
        return out

    def execute(self, sc, refs):
        st = {k: 0 for k in self.fault_kinds}
        st.update(calls=0, steps=0)
        res = {"viol": None, "st": st, "sig": sig(sc["outer"], sc["nest"], sc["how"], sc.get("warm"), sc["opcodes"])}
        for o in sc.get("warm", []):
            codec.call(o)
        try:
            self.call(sc, refs, st, sc["outer"], sc["nest"], 0, sc["how"], "the outer call")
            for o in sc["post"]:
                got = codec.call(o)
                st["calls"] += 1
                want = refs[codec.key(o)]["out"]
                if not codec.same(got, want):
                    v = mismatch(o, got, want, "after nested calls")
                    v["kind"] = "later"
                    raise Found(v)
        except Found as e:
            res["viol"] = e.v
        except sched.Deadlock as e:
            res["viol"] = {"kind": "deadlock", "func": sc["outer"]["f"], "detail": "%s with calls nested in it waits for itself: %s" % (short(sc["outer"]), e)}
        except sched.StepLimit:
            res["viol"] = {"kind": "no-progress", "func": sc["outer"]["f"], "detail": "%s with calls nested in it does not finish" % short(sc["outer"])}
        res["nontrivial"] = st["nested"] > 0
        return res

    def clear(self, st):
        m = sys.modules.get("pymap3d.ellipsoid")
        f = getattr(m, "clear_ellipsoid_caches", None)
        if f is not None:
            st["clear"] += 1
            f()

    def fire(self, sc, refs, st, d, depth, where):
        if d["clear"] in ("before", "both"):
            self.clear(st)
        for i, o in enumerate(d["ops"]):
            st["nested" if depth == 0 else "nested%d" % (depth + 1)] += 1
            self.call(sc, refs, st, o, d["sub"] if i == 0 else [], depth + 1, "trace", "nested (level %d, %s)" % (depth + 1, where))
        if d["clear"] in ("after", "both"):
            self.clear(st)

    def call(self, sc, refs, st, op, nest, depth, how, who):
        """one call, with others nested in it"""
        prev = sys.gettrace()
        sys.settrace(None)
        box = []
        restore = []
        todo = {}
        for d in nest:
            todo.setdefault(d["at"], []).append(d)
        n = [0]

        def go(d, where):
            try:
                self.fire(sc, refs, st, d, depth, where)
            except (Found, sched.Deadlock, sched.StepLimit) as e:
                box.append(e)
                raise

        def tick(where):
            # one more instant at which a hook of the caller gets control
            n[0] += 1
            for d in todo.pop(n[0], ()):
                go(d, where)

        try:
            a, k = codec.op_args(op)
            f = codec.resolve(op["f"])
            if how == "tz":
                a = [hook_tz(x, tick, st) for x in a]
            elif how == "ell":
                k = dict(k, ell=hook_ell(k["ell"], tick, st))
            elif how == "warn":
                restore.append(hook_warn(tick, st))

            def hook(step, frame):
                for d in todo.pop(step, ()):
                    # tracing is on again during the nested calls, so that calls can be nested in those
                    sys.call_tracing(go, (d, "in %s line %s" % (frame.f_code.co_name, frame.f_lineno)))

            w = refs[codec.key(op)]
            tr = sched.SoloTracer(hook=hook if how == "trace" and nest else None, opcodes=sc["opcodes"] and how == "trace", limit=30000 + 100 * w["steps"])
            try:
                sys.settrace(tr.glob)
                got = codec.outcome(f, a, k)
            finally:
                sys.settrace(None)
                for r in restore:
                    r()
            if box:
                raise box[0]
            st["calls"] += 1
            st["steps"] += tr.steps
            if not codec.same(got, w["out"]):
                raise Found(mismatch(op, got, w["out"], who))
        finally:
            sys.settrace(prev)

    def explicit(self, sc, res):
        return None

    def shrink(self, sc):
        if sc.get("warm"):
            s = copy.deepcopy(sc)
            s["warm"] = []
            yield s
        for k in range(len(sc["post"])):
            s = copy.deepcopy(sc)
            del s["post"][k]
            yield s
        n = len(sc["nest"])
        ch = n
        while ch >= 1:
            for i in range(0, n, ch):
                s = copy.deepcopy(sc)
                s["nest"] = sc["nest"][:i] + sc["nest"][i + ch:]
                yield s
            ch //= 2

        def paths(nest, p=()):
            for i, d in enumerate(nest):
                yield p + (i,)
                yield from paths(d["sub"], p + (i,))

        for p in list(paths(sc["nest"])):
            def at(s):
                L = s["nest"]
                for i in p[:-1]:
                    L = L[i]["sub"]
                return L[p[-1]]
            d = at(sc)
            if d["sub"]:
                s = copy.deepcopy(sc)
                at(s)["sub"] = []
                yield s
            if d["clear"]:
                s = copy.deepcopy(sc)
                at(s)["clear"] = None
                yield s
            for j in range(len(d["ops"])):
                if len(d["ops"]) > 1:
                    s = copy.deepcopy(sc)
                    del at(s)["ops"][j]
                    if j == 0:
                        at(s)["sub"] = []
                    yield s


def hook_tz(x, tick, st):
    from datetime import datetime, timedelta, tzinfo

    if not isinstance(x, datetime):
        return x
    inner = x.tzinfo
    # without an offset it is as good as naive, but astropy does not take it
    none = timedelta(0) if "astropy" in sys.modules else None

    class Tz(tzinfo):
        def utcoffset(self, dt):
            st["argument_hook"] += 1
            tick("utcoffset of the argument")
            return none if inner is None or dt is None else inner.utcoffset(dt)

        def dst(self, dt):
            return None if inner is None or dt is None else inner.dst(dt)

        def tzname(self, dt):
            return None if inner is None or dt is None else inner.tzname(dt)

        def fromutc(self, dt):
            return inner.fromutc(dt.replace(tzinfo=inner)).replace(tzinfo=self)

    return x.replace(tzinfo=Tz())


def hook_ell(e, tick, st):
    names = {"semimajor_axis", "semiminor_axis", "flattening", "thirdflattening", "eccentricity"}

    class Hooked(type(e)):
        def __getattribute__(self, name):
            if name in names and not busy[0]:
                busy[0] = True
                try:
                    st["argument_hook"] += 1
                    tick("attribute %s of the ellipsoid" % name)
                finally:
                    busy[0] = False
            return object.__getattribute__(self, name)

    busy = [True]
    h = Hooked.__new__(Hooked)
    h.__dict__.update(e.__dict__)
    busy[0] = False
    return h


def hook_warn(tick, st):
    old = warnings.showwarning, logging.root.handlers[:], logging.root.level
    busy = [False]

    def ring(where):
        if busy[0]:
            return
        busy[0] = True
        try:
            st["warning_hook"] += 1
            tick(where)
        finally:
            busy[0] = False

    class H(logging.Handler):
        def emit(self, rec):
            ring("logging handler")

    def show(*a, **k):
        ring("warning hook")

    cm = warnings.catch_warnings()
    cm.__enter__()
    warnings.simplefilter("always")
    warnings.showwarning = show
    logging.root.handlers[:] = [H()]
    logging.root.setLevel(1)

    def restore():
        cm.__exit__(None, None, None)
        warnings.showwarning, logging.root.handlers[:] = old[0], old[1]
        logging.root.setLevel(old[2])

    return restore
