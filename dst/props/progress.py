"""C11: every call finishes within a bounded amount of work."""
from __future__ import annotations

import copy
import math

from .. import catalog, changed, codec, corpus, sched
from .base import Prop, gen_policy, make_policy, short, sig

NAN, INF = math.nan, math.inf
EXT = [NAN, INF, -INF, 1e300, -1e300, 1e-300, 5e-324, 0.0, -0.0, 1e16, -1e16, 1e22, 1e9, -1e9, 1e6, -1e5, 720.0, 180.0, -180.0, math.nextafter(180, 0), math.nextafter(180, 200), 90.0, -90.0, math.nextafter(90, 0), math.nextafter(90, 91),
       1e-16, 1e-8, 2.5e7, 1.0, 10**18, 1.7976931348623157e308]
BUDGET = 60000  # statements per scalar call (the largest seen on the unmodified library: 50404, geodesic_area of five vertices; 3400 for a vreckon)
PER_ELEMENT = 20000  # further statements per array element or requested point


class C11(Prop):
    id = "C11"
    group_size = 10
    systematic = 13
    plan = [("np", 390, 2600), ("npl", 5, 40), ("std", 234, 1500), ("ap", 10, 50)]
    fault_kinds = ("corrupt_argument", "degenerate_argument", "degenerate_ellipsoid", "preemption", "deadline_in_statements")
    rule = "a run is nontrivial if at least one argument of its calls was corrupt, extreme or degenerate; distinct = distinct (calls, schedule)"
    assumptions = ["work is counted in executed statements of library code under the simulator's step clock; work inside one NumPy primitive is bounded by the size of its arrays"]
    sim_time_note = "the step clock: one tick per executed library statement"

    def extreme_ell(self, rng):
        a = rng.choice([6378137.0, 1.0, 1e300, 1e-300, 6378137.0])
        fl = rng.choice([0.0, 1 / 298.257, 0.5, 0.99, 0.999999999, 1.0, 1e-16, 1e-9])
        return {"t": "ellc", "a": a, "b": a * (1 - fl)}

    def one(self, rng, cfg):
        c = corpus.load(cfg)
        o = None
        if c is not None and rng.random() < 0.45:
            o = c.pick(rng, 10**9) if rng.random() < 0.3 else c.next(10**9)
        if o is not None:
            if rng.random() < 0.6:
                o = corpus.diversify(rng, o, cfg)
            e = catalog.BY_F[o["f"]]
        else:
            e = changed.steer(rng, catalog.WEIGHTED)
            o = catalog.fix_area(catalog.gen_op(rng, cfg, entry=e))
        n = 0
        if rng.random() < 0.85:
            slots = catalog._num_slots(o)
            if slots:
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    catalog._set(o, rng.choice(slots), rng.choice(EXT))
                    n += 1
        if e.has("E") and rng.random() < 0.25:
            o["k"]["ell"] = self.extreme_ell(rng)
        if e.has("K"):
            o["k"]["npts"] = rng.choice([2, 3, 5, 2, 1, 0, -1, 20])
        for kk in ("radius", "delta_ut1", "xp", "yp"):
            if kk in o["k"] and rng.random() < 0.4:
                o["k"][kk] = rng.choice(EXT)
        return o

    def size(self, o):
        n = 1
        for a in o["a"]:
            if isinstance(a, dict) and a["t"] == "arr":
                n = max(n, a.get("tile", 0), len(a["v"]) * (len(a["v"][0]) if a["v"] and isinstance(a["v"][0], list) else 1))
            elif isinstance(a, list):
                n = max(n, len(a))
        return n + max(0, o["k"].get("npts", 0))

    def budget(self, o):
        return BUDGET + PER_ELEMENT * self.size(o)

    def gen(self, rng, pool, cfg, refs, tier):
        if rng.random() < 0.8:
            return {"steps": [{"op": self.one(rng, cfg)} for _ in range(30)]}
        n = rng.choice([2, 3, 4])
        o = self.one(rng, cfg)
        threads = [[o if rng.random() < 0.5 else self.one(rng, cfg)] for _ in range(n)]
        return {"threads": threads, "policy": gen_policy(rng, [rng.choice([30, 300]) for _ in threads])}

    def execute(self, sc, refs):
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        st = {k: 0 for k in self.fault_kinds}
        st.update(steps=0, calls=0, most_statements=0)
        ops = [s["op"] for s in sc["steps"]] if "steps" in sc else [o for t in sc["threads"] for o in t]
        txt = codec.key(ops)
        st["corrupt_argument"] = txt.count("NaN") + txt.count("Infinity")
        st["degenerate_ellipsoid"] = txt.count('"ellc"')
        st["degenerate_argument"] = txt.count("e+300") + txt.count("180.0") + txt.count("90.0") + txt.count("e-300") + txt.count("5e-324")
        res = {"viol": None, "st": st, "sig": sig(sc), "nontrivial": True}
        if "steps" in sc:
            for o in ops:
                try:
                    a, k = codec.op_args(o)
                except codec.SkipOp:
                    continue
                except Exception:  # noqa: BLE001  (an impossible ellipsoid)
                    continue
                f = codec.resolve(o["f"])
                tr = sched.SoloTracer(limit=self.budget(o))
                try:
                    with tr:
                        codec.outcome(f, a, k)
                except sched.StepLimit:
                    st["deadline_in_statements"] += 1
                    res["viol"] = {"kind": "unbounded", "func": o["f"], "detail": "%s had not finished after %d statements" % (short(o), tr.steps)}
                    return res
                st["steps"] += tr.steps
                st["calls"] += 1
            return res
        built = []
        for t in sc["threads"]:
            row = []
            for o in t:
                try:
                    a, k = codec.op_args(o)
                except Exception:  # noqa: BLE001
                    continue
                row.append((o, a, k, codec.resolve(o["f"])))
            built.append(row)
        sim = sched.Sim(make_policy(sc["policy"]), step_limit=sum(self.budget(o) for o in ops))

        def body(row):
            def fn(task):
                for o, a, k, f in row:
                    codec.outcome(f, a, k)
                    st["calls"] += 1
            return fn

        for row in built:
            sim.add(body(row))
        sim.run()
        st["steps"] += sim.step
        st["preemption"] += sum(1 for s in sim.switches if s[0] > 0)
        res["switches"] = sim.switches
        if sim.failure:
            res["viol"] = {"kind": "unbounded" if sim.failure[0] == "steplimit" else sim.failure[0], "detail": "%s: threads running %s" % (sim.failure[1], "; ".join(short(o) for o in ops)[:400])}
        return res
