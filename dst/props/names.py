"""C07: named-ellipsoid lookup is linearizable, with one shared object per name."""
from __future__ import annotations

import gc
import json
import os
import sys

from .. import changed, codec, sched
from .base import Prop, gen_policy, make_policy, sig

MODELS = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "models.json"), encoding="utf-8"))
NAMES = sorted(MODELS)
UNKNOWN = ["WGS84", "wgs84 ", "", "nosuch", "wgs-84", "models", "__class__", None, 84, "WGS-84 (1984)"]
API = [
    {"f": "ecef:geodetic2ecef", "a": [42.0, -82.0, 200.0], "k": {}},
    {"f": "karney:geodesic_inverse", "a": [10.0, 20.0, 30.0, 40.0], "k": {}},
    {"f": "latitude:geodetic2conformal", "a": [45.0], "k": {}},
    {"f": "rcurve:parallel", "a": [45.0], "k": {}},
    {"f": "vincenty:vdist", "a": [10.0, 20.0, 30.0, 40.0], "k": {}},
]


class Injected(BaseException):
    pass


def linearizable(hist, limit=400000):
    """hist: list of [inv, resp, kind, name, token]; kind look/clear.  Is there an order respecting real
    time in which the lookups behave like a map whose entries are made on first use?  A freshly made
    entry must be an object no earlier lookup returned."""
    n = len(hist)
    order = sorted(range(n), key=lambda i: hist[i][0])
    seen = set()
    budget = [limit]

    def rec(done, cur, used):
        if done == (1 << n) - 1:
            return True
        budget[0] -= 1
        if budget[0] < 0:
            return True  # undecided counts as passed; never reached with the history sizes used
        k = (done, cur)
        if k in seen:
            return False
        seen.add(k)
        first = min(hist[i][1] for i in order if not done >> i & 1)
        d = dict(cur)
        for i in order:
            if done >> i & 1 or hist[i][0] > first:
                continue
            _, _, kind, name, tok = hist[i]
            if kind == "clear":
                if rec(done | 1 << i, frozenset(), used):
                    return True
            elif name in d:
                if d[name] == tok and rec(done | 1 << i, cur, used):
                    return True
            elif tok not in used and rec(done | 1 << i, cur | {(name, tok)}, used | {tok}):
                return True
        return False

    return rec(0, frozenset(), frozenset())


class C07(Prop):
    id = "C07"
    corpus = False
    group_size = 25
    plan = [("np", 440, 2000), ("npl", 24, 100), ("std", 200, 900)]
    fault_kinds = ("preemption", "interrupt", "clear", "unknown_name", "subclass", "other_call")
    rule = "a run is nontrivial if two operations of its recorded history overlapped in time; distinct = distinct (operations, schedule, interrupt)"
    assumptions = ["an interrupted lookup may or may not have taken effect", "the published parameters are those of the pinned commit's table, frozen in dst/models.json"]
    note = "every recorded history is decided exactly (Wing-Gong search); which histories occur is random search"

    def gen(self, rng, pool, cfg, refs, tier):
        names = rng.sample(NAMES, rng.choice([1, 1, 2, 3]))
        n = rng.choice([2, 2, 3, 3, 4])
        pc = rng.choice([0.0, 0.15, 0.3])
        pb = rng.choice([0.0, 0.1])
        ps = rng.choice([0.0, 0.0, 0.2])
        pa = rng.choice([0.0, 0.0, 0.2])

        def op():
            x = rng.random()
            if x < pc:
                return ["clear"]
            if x < pc + pb:
                return ["bad", rng.choice(UNKNOWN + [s for s in changed.current().strings if s not in MODELS])]
            if x < pc + pb + ps:
                return ["sub", rng.choice(names), rng.choice(["Sub", "Sub", "Twin", "Deep", "Own", "bad"])]
            if x < pc + pb + ps + pa:
                return ["api", rng.choice(API)]
            return ["look", rng.choice(names)]

        threads = [[op() for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(n)]
        warm = [op() for _ in range(rng.choice([0, 0, 1, 2]))]
        if rng.random() < 0.15:  # a tour: a process that meets many, or all, of the names
            tour = [["look", x] for x in rng.sample(NAMES, rng.choice([12, 20, 33, len(NAMES), len(NAMES)]))]
            if rng.random() < 0.5:
                warm = warm + [["look", x] for x in names] + tour
            else:
                rng.choice(threads).extend(tour)
        opc = rng.random() < 0.4
        per = 25 * (6 if opc else 1)
        sc = {"warm": warm, "threads": threads, "opcodes": opc, "names": names,
              "policy": gen_policy(rng, [per * sum(6 if o[0] == "api" else 1 for o in t) for t in threads])}
        if not opc and rng.random() < 0.35:
            sc["faults"] = [[rng.randrange(n), rng.randint(1, 30)] for _ in range(rng.choice([1, 1, 2]))]
        return sc

    def execute(self, sc, refs):
        mod = codec.resolve("ellipsoid:Ellipsoid").__module__
        E = codec.resolve("ellipsoid:Ellipsoid")
        clear = codec.resolve("ellipsoid:clear_ellipsoid_caches")

        def subclass(base):
            class Sub(base):
                """a user's subclass"""

            return Sub

        class Own(E):
            """one with a table of its own"""

            models = {n: {"name": "own", "a": 7e6, "b": 6.9e6} for n in sc["names"]}

        Sub = subclass(E)
        classes = {"Sub": Sub, "Twin": subclass(E), "Deep": subclass(Sub), "Own": Own}
        st = {k: 0 for k in self.fault_kinds}
        st.update(steps=0, calls=0)
        res = {"viol": None, "st": st, "sig": sig(sc), "nontrivial": False}
        keep = []
        hist = []
        now = [0]
        bad = []
        before = self.lib_objects(E)
        models0 = sorted(map(str, E.models))

        def tick():
            now[0] += 1
            return now[0]

        def token(o):
            for i, x in enumerate(keep):
                if x is o:
                    return i
            keep.append(o)
            return len(keep) - 1

        def fields(o, name, cls):
            a, b, nm = MODELS[name] if cls is not Own else (7e6, 6.9e6, "own")
            if type(o) is not cls:
                return "from_name(%r) gave a %s instead of a %s" % (name, type(o).__name__, cls.__name__)
            f = (a - b) / a
            for k, w in (("semimajor_axis", a), ("semiminor_axis", b), ("name", nm), ("model", name), ("flattening", f), ("thirdflattening", (a - b) / (a + b)), ("eccentricity", (2 * f - f * f) ** 0.5)):
                g = getattr(o, k, None)
                if isinstance(w, str):
                    if g != w:
                        return "from_name(%r).%s is %r, published %r" % (name, k, g, w)
                elif not isinstance(g, (int, float)) or abs(g - w) > 1e-9 * abs(w) + 1e-15:
                    return "from_name(%r).%s is %r, published %r" % (name, k, g, w)
            return None

        def do(o, task=None):
            off = task is not None
            kind = o[0]
            st["calls"] += 1
            inv = tick()
            try:
                if kind == "clear":
                    st["clear"] += 1
                    clear()
                    hist.append([inv, tick(), "clear", None, None])
                elif kind == "look":
                    r = E.from_name(o[1])
                    if off:
                        task.off += 1
                    hist.append([inv, tick(), "look", o[1], token(r)])
                    w = fields(r, o[1], E)
                    if w:
                        bad.append(w)
                    if off:
                        task.off -= 1
                elif kind == "sub":
                    st["subclass"] += 1
                    which = o[2] if len(o) > 2 else "Sub"
                    try:
                        r = classes.get(which, Sub).from_name(o[1] if which != "bad" else "no such planet")
                    except KeyError:
                        if which != "bad":
                            raise
                    else:
                        if off:
                            task.off += 1
                        w = fields(r, o[1], classes[which]) if which != "bad" else "a subclass's from_name() of an unknown name returned %r instead of raising KeyError" % (r,)
                        if w:
                            bad.append(w)
                        if off:
                            task.off -= 1
                elif kind == "bad" and o[1] in changed.current().strings and o[1] in E.models:
                    pass  # a name added since
                elif kind == "bad":
                    st["unknown_name"] += 1
                    try:
                        r = E.from_name(o[1])
                    except KeyError:
                        pass
                    else:
                        bad.append("from_name(%r) returned %r instead of raising KeyError" % (o[1], r))
                else:
                    st["other_call"] += 1
                    codec.resolve(o[1]["f"])(*o[1]["a"])
            except Injected:
                sys.settrace(None)
                if kind == "clear":  # may or may not have happened: allow both by splitting is not needed, see `maybe`
                    maybe.append([inv, tick()])
            except Exception as e:  # noqa: BLE001
                if off:
                    task.off += 1
                bad.append("%s raised %s: %s" % (o, type(e).__name__, e))
                if off:
                    task.off -= 1

        maybe = []
        for o in sc["warm"]:
            do(o)
        sim = sched.Sim(make_policy(sc["policy"]), opcodes=sc["opcodes"], step_limit=100000)
        faults = {tuple(x) for x in sc.get("faults", [])}

        def on_point(s, task, frame):
            if faults and (task.tid, task.steps) in faults and frame is not None and frame.f_lineno not in sched.unfair_lines(frame.f_code.co_filename):
                st["interrupt"] += 1
                faults.discard((task.tid, task.steps))
                raise Injected()

        if faults:
            sim.on_point = on_point

        def body(ops):
            def fn(task):
                for o in ops:
                    do(o, task)
                    sim.retrace()
            return fn

        for t in sc["threads"]:
            sim.add(body(t))
        sim.run()
        st["steps"] += sim.step
        st["preemption"] += sum(1 for s in sim.switches if s[0] > 0)
        res["switches"] = sim.switches
        if sim.failure:
            res["viol"] = {"kind": sim.failure[0], "detail": sim.failure[1]}
            return res
        for t in sim.tasks:
            if t.error is not None:
                if isinstance(t.error, sched.Deadlock):
                    res["viol"] = {"kind": "deadlock", "detail": str(t.error)}
                    return res
                raise t.error
        try:
            toured = [] if len(hist) < 12 else sorted({h[3] for h in hist if h[2] == "look"} - set(sc["names"]))
            for n in sc["names"]:
                do(["look", n])
                do(["look", n])
            for n in toured:
                do(["look", n])
            do(["bad", "nosuch"])
        except sched.Deadlock as e:
            res["viol"] = {"kind": "deadlock", "detail": "a later lookup can never finish: %s" % e}
            return res
        res["nontrivial"] = any(a[0] < b[0] < a[1] for a in hist for b in hist if a is not b)
        if bad:
            res["viol"] = {"kind": "wrong-object", "func": "from_name", "detail": bad[0]}
            return res
        ok = False
        for mask in range(1 << len(maybe)):
            h = hist + [[a, b, "clear", None, None] for i, (a, b) in enumerate(maybe) if mask >> i & 1]
            if linearizable(h):
                ok = True
                break
        if not ok:
            hist.sort()
            res["viol"] = {"kind": "not-linearizable", "func": "from_name", "detail": "no order of these operations [start, end, what, name, object] explains the objects returned: %s" % json.dumps(hist)}
            return res
        if sorted(map(str, E.models)) != models0:
            res["viol"] = {"kind": "trace", "func": "from_name", "detail": "the table of models changed: %s" % sorted(set(map(str, E.models)) ^ set(models0))}
            return res
        # a name that was unknown and is now in the table: the failed lookups must have left nothing
        unk = [o[1] for t in sc["threads"] + [sc["warm"]] for o in t if o[0] == "bad" and isinstance(o[1], str) and o[1] not in E.models] + ["nosuch"]
        E.models[unk[0]] = {"name": "Simulated", "a": 6378000.0, "b": 6357000.0}
        try:
            r = E.from_name(unk[0])
            if (r.semimajor_axis, r.semiminor_axis, r.name, r.model) != (6378000.0, 6357000.0, "Simulated", unk[0]):
                raise LookupError(repr(vars(r)))
            r = None
        except LookupError as e:
            res["viol"] = {"kind": "trace", "func": "from_name", "detail": "after a failed lookup of %r the name was added to Ellipsoid.models, but looking it up gives %r" % (unk[0], e)}
            return res
        finally:
            del E.models[unk[0]]
        # after a clear the library keeps none of the old objects alive
        keep.clear()
        sim.tasks.clear()
        sim = None
        do(["clear"])
        gc.collect()
        left = [o for o in self.lib_objects(E) if not any(o is b for b in before)]
        if left:
            res["viol"] = {"kind": "kept-alive", "func": "clear_ellipsoid_caches", "detail": "after a clear the library still holds %s" % ", ".join("%s(%r)" % (type(o).__name__, getattr(o, "model", "?")) for o in left)}
        return res

    @staticmethod
    def lib_objects(E):
        return [o for o in gc.get_objects() if isinstance(o, E)]
