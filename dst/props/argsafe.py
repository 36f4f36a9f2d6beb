"""C06: objects passed in by the caller are never modified."""
from __future__ import annotations

import copy
import json
import math
import sys

from .. import catalog, changed, codec, corpus, sched
from .base import Prop, aim_in, corpus_op, family_pool, gen_policy, make_policy, mismatch, short, sig, usable
from .history import bad_op, bad_ops

POISON = [math.nan, math.inf, -math.inf, 0.0, -0.0, 90.0, -90.0, 1e-300, 180.0, 1e-4, -1e-4]
DTYPES = ["f8", "f8", "f8", "f4", "i8", "i4", "f2", "g", ">f8", "O"]


class Injected(BaseException):
    pass


# ------------------------------------------------------------- images of arguments
def roots(v, out, depth=0):
    """the mutable objects reachable from an argument"""
    np = codec.np
    if depth > 4:
        return
    if np is not None and isinstance(v, np.ndarray):
        out.append(v)
        b = v.base
        while isinstance(b, np.ndarray):
            out.append(b)
            b = b.base
        if v.dtype.kind == "O":
            for x in v.ravel().tolist():
                roots(x, out, depth + 1)
    elif isinstance(v, (list, tuple)):
        if isinstance(v, list):
            out.append(v)
        for x in v:
            roots(x, out, depth + 1)
    elif isinstance(v, dict):
        out.append(v)
    elif any(c.__name__ == "Ellipsoid" for c in type(v).__mro__):
        out.append(v)


def image(o):
    np = codec.np
    if np is not None and isinstance(o, np.ndarray):
        f = o.flags
        if o.dtype.kind == "O":
            return tuple(map(id, o.ravel().tolist())), o.shape, o.strides, f.writeable
        return o.tobytes(), o.shape, o.strides, o.dtype, f.writeable
    if isinstance(o, list):
        return tuple((id(x), repr(x) if not hasattr(x, "shape") else 0) for x in o)
    if isinstance(o, dict):
        return repr(o)
    d = getattr(o, "__dict__", None)
    if d is not None:
        return tuple((k, repr(v)) for k, v in d.items())
    return repr(o)


def describe(o, before):
    np = codec.np
    if np is not None and isinstance(o, np.ndarray):
        a = np.frombuffer(before[0], dtype=o.dtype).reshape(o.shape) if o.dtype.kind != "O" else None
        if before[1] != o.shape:
            return "array of shape %s now has shape %s" % (before[1], o.shape)
        if before[-1] != o.flags.writeable:
            return "writeable flag of an array changed"
        return "array %s is now %s" % (a.tolist() if a is not None else "?", o.tolist())
    return "%s: %s is now %s" % (type(o).__name__, before, image(o))


class C06(Prop):
    id = "C06"
    systematic = 1
    plan = [("np", 360, 2400), ("npl", 10, 60), ("std", 48, 250), ("ap", 14, 60)]
    fault_kinds = ("preemption", "interrupt", "failing_call", "shared_argument", "frozen_argument", "corrupt_element")
    rule = "a run is nontrivial if a call received at least one mutable argument; distinct = distinct (calls, argument forms, schedule)"
    assumptions = ["what another thread can see of the arguments is sampled at every statement of library code, not inside one NumPy call"]

    def pool(self, rng, cfg, refs):
        return None

    def one(self, rng, cfg, refs):
        if rng.random() < 0.45:
            for n in range(6):
                c = corpus.load(cfg)
                o = c.next(4000) if c is not None and n == 0 else corpus_op(rng, cfg, refs, 4000)
                if o is None:
                    continue
                if rng.random() < 0.4:
                    o = corpus.diversify(rng, o, cfg)
                if self.mutable(o) and usable(refs, o, max_steps=4000):
                    return o
        for _ in range(20):
            e = changed.steer(rng, catalog.WEIGHTED)
            if cfg != "std" and not (e.has("V") or e.has("A") or e.has("E")) and rng.random() < 0.6:
                continue
            o = catalog.fix_area(catalog.gen_op(rng, cfg, entry=e, arrays=True if cfg != "std" and rng.random() < 0.85 else None))
            if rng.random() < 0.5:
                o = self.corrupt(rng, o)
            if cfg != "std" and rng.random() < 0.2:
                dt = rng.choice(DTYPES)
                for a in o["a"]:
                    if isinstance(a, dict) and a["t"] == "arr":
                        if dt in ("i8", "i4") and any(not isinstance(x, (int, float)) or not math.isfinite(x) for x in a["v"]):
                            continue
                        a["dt"] = dt
            if usable(refs, o, max_steps=4000):
                return o
        return {"f": "enu:enu2aer", "a": [1.0, 2.0, 3.0], "k": {}}

    def mutable(self, o):
        return any(isinstance(a, list) or isinstance(a, dict) and a["t"] == "arr" for a in o["a"]) or "ell" in o["k"]

    def corrupt(self, rng, o):
        o = copy.deepcopy(o)
        arrs = [a for a in o["a"] if isinstance(a, dict) and a["t"] == "arr" and catalog.is_flat(a)]
        for _ in range(rng.choice([1, 1, 2, 3])):
            if arrs:
                a = rng.choice(arrs)
                a["v"][rng.randrange(len(a["v"]))] = rng.choice(POISON)
        return o

    def gen(self, rng, pool, cfg, refs, tier):
        n = rng.choice([1, 1, 1, 2, 2, 3])
        o = self.one(rng, cfg, refs)
        threads = [[o]] + [[o if rng.random() < 0.5 else catalog.fix_area(catalog.sibling(rng, o, cfg))] for _ in range(n - 1)]
        if rng.random() < 0.3:
            threads[0].append(self.one(rng, cfg, refs))
        if rng.random() < 0.06:
            threads[0].append(bad_op(rng, cfg))
        threads = [[x for x in t if usable(refs, x, max_steps=4000)] for t in threads]
        sc = {"threads": threads, "share": rng.random() < 0.5, "mode": rng.choice(["plain", "plain", "ro", "alias", "matrix", "subclass", "np0"])}
        steps = [max(1, sum(refs.get(x).get("steps", 1) for x in t)) for t in threads]
        sc["policy"] = gen_policy(rng, steps, lambda t: aim_in(rng, refs, threads[t], cfg))
        if rng.random() < 0.2:
            sc["faults"] = [[0, aim_in(rng, refs, threads[0], cfg)]]
        return sc

    def ref_ops(self, sc):
        return [o for t in sc["threads"] for o in t]

    def build(self, op, mode, shared, st):
        """argument objects in the requested form"""
        np = codec.np
        if shared is not None:
            k = codec.key(op)
            if k in shared:
                st["shared_argument"] += 1
                return shared[k]
        a, k = codec.op_args(op)
        memo = {}
        if np is not None:
            if mode == "ro":
                for i, x in enumerate(a):
                    if isinstance(x, np.ndarray):
                        b = x
                        while isinstance(b, np.ndarray):
                            b.flags.writeable = False
                            b = b.base
                        st["frozen_argument"] += 1
            elif mode == "alias":
                for i, x in enumerate(op["a"]):
                    if isinstance(a[i], np.ndarray):
                        a[i] = memo.setdefault(codec.key(x), a[i])
            elif mode == "matrix":
                cols = [i for i, x in enumerate(a) if isinstance(x, np.ndarray) and x.ndim == 1 and x.dtype == np.dtype("f8")]
                if len({a[i].shape for i in cols}) == 1 and len(cols) > 1:
                    m = np.stack([a[i] for i in cols], axis=1)
                    for j, i in enumerate(cols):
                        a[i] = m[:, j]
            elif mode == "subclass":
                for i, x in enumerate(a):
                    if isinstance(x, np.ndarray) and x.dtype.kind == "f":
                        a[i] = x.view(_sub())
            elif mode == "np0":
                for i, x in enumerate(a):
                    if isinstance(x, float):
                        a[i] = np.array(x)
        if shared is not None:
            shared[codec.key(op)] = (a, k)
        return a, k

    def execute(self, sc, refs):
        st = {k: 0 for k in self.fault_kinds}
        st.update(steps=0, calls=0, images=0)
        st["failing_call"] = sum(1 for t in sc["threads"] for o in t if o in bad_ops(sc["cfg"]))
        st["corrupt_element"] = json.dumps(sc["threads"]).count("NaN") + json.dumps(sc["threads"]).count("Infinity")
        res = {"viol": None, "st": st, "sig": sig(sc), "nontrivial": False}
        shared = {} if sc["share"] else None
        built = []
        watch = []
        for t in sc["threads"]:
            bt = []
            for o in t:
                a, k = self.build(o, sc["mode"], shared, st)
                bt.append((o, a, k, codec.resolve(o["f"])))
                ob = []
                roots(tuple(a), ob)
                roots(tuple(k.values()), ob)
                for x in ob:
                    if not any(x is w[0] for w in watch):
                        watch.append([x, None, o])
            built.append(bt)
        for w in watch:
            w[1] = image(w[0])
        res["nontrivial"] = bool(watch)
        state = {"viol": None}
        faults = {tuple(x) for x in sc.get("faults", [])}

        def check(where, func="?"):
            for x, im, o in watch:
                st["images"] += 1
                if image(x) != im:
                    state["viol"] = {"kind": "modified", "func": o["f"], "detail": "%s: an argument of %s was modified: %s" % (where, short(o), describe(x, im)[:400])}
                    return

        def on_point(sim, task, frame):
            if state["viol"] is None:
                check("while running %s" % (frame.f_code.co_name if frame else "?"))
            if (task.tid, task.steps) in faults and frame is not None and frame.f_lineno not in sched.unfair_lines(frame.f_code.co_filename):
                st["interrupt"] += 1
                faults.discard((task.tid, task.steps))
                raise Injected()

        sim = sched.Sim(make_policy(sc["policy"]), step_limit=400000)
        sim.on_point = on_point
        got = [[None] * len(t) for t in built]

        def body(i, bt):
            def fn(task):
                for j, (o, a, k, f) in enumerate(bt):
                    try:
                        got[i][j] = codec.outcome(f, list(a), dict(k))
                    except Injected:
                        got[i][j] = "interrupted"
                        sys.settrace(None)
                    st["calls"] += 1
                    sim.retrace()
            return fn

        for i, bt in enumerate(built):
            sim.add(body(i, bt))
        sim.run()
        st["steps"] += sim.step
        st["preemption"] += sum(1 for s in sim.switches if s[0] > 0)
        res["switches"] = sim.switches
        if state["viol"] is None:
            check("after the call")
        if state["viol"]:
            res["viol"] = state["viol"]
            return res
        if sim.failure:
            res["viol"] = {"kind": sim.failure[0], "detail": sim.failure[1]}
            return res
        for i, bt in enumerate(built):
            for j, (o, a, k, f) in enumerate(bt):
                g, want = got[i][j], refs[codec.key(o)]["out"]
                if g == "interrupted":
                    continue
                if sc["mode"] in ("plain", "ro", "alias"):
                    bad = not codec.same(g, want)
                elif sc["mode"] in ("matrix", "subclass"):
                    # lists become usable next to an array that takes over the arithmetic, so only a new failure counts;
                    # zero-dimensional object arrays turn into their element, or not, depending on the other operands
                    bad = catalog.BY_F[o["f"]].has("V") and not any(isinstance(x, list) or isinstance(x, dict) and x.get("dt") == "O" for x in o["a"]) and g[:1] == ["exc"] and want[:1] != ["exc"] if isinstance(g, list) and isinstance(want, list) else False
                else:
                    bad = False
                if bad:
                    res["viol"] = mismatch(o, g, want, "with %s arguments" % {"ro": "read-only", "alias": "shared (same object for equal values)"}.get(sc["mode"], sc["mode"]))
                    return res
        return res


_S = None


def _sub():
    global _S
    if _S is None:
        class UserArray(codec.np.ndarray):
            """an array type of the caller's own"""
        _S = UserArray
    return _S
