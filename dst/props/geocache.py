"""C08: geodesic solutions always belong to the ellipsoid given at the call."""
from __future__ import annotations

import copy
import gc
import pickle
import sys

from .. import catalog, codec, sched
from .base import Prop, gen_policy, make_policy, mismatch, short, sig

AX = [6378137.0, 6378137.0, 6378388.0, 6378137.5, 6.0e6, 6378137]
FL = [1 / 298.257223563, 0.0, 1 / 150.0, 1 / 297.0, 1 / 298.257223564, 0.1]
NM = [("", ""), ("WGS-84 (1984)", "wgs84"), ("X", "x"), ("X", "x")]
NAMED = ["wgs84", "grs80", "wgs84_mean", "mars", "clarke1866", "moon"]
FUNCS = ["karney:geodesic_inverse"] * 4 + ["karney:geodesic_direct"] * 3 + ["karney:geodesic_line"] * 2 + ["karney:geodesic_area"] * 2 + ["vincenty:vdist", "vincenty:vreckon", "vincenty:track2"]


class Injected(BaseException):
    pass


def axes(rng):
    a = rng.choice(AX)
    return a, a * (1 - rng.choice(FL))


def expected_ell(state):
    if state is None:
        return None
    if state[0] == "named":
        return {"t": "ell", "n": state[1]}
    _, a, b, name, model = state
    return {"t": "ellc", "a": a, "b": b, "name": name, "model": model}


def apply(slots, act):
    """effect of an action on the mirror of the slots; returns the reference operation of an op"""
    d = act["do"]
    if d == "new":
        slots[act["s"]] = ("own", act["a"], act["b"], act["n"][0], act["n"][1])
    elif d == "named":
        slots[act["s"]] = ("named", act["n"])
    elif d == "mut":
        o = slots.get(act["s"])
        if o is not None and o[0] == "own":
            slots[act["s"]] = ("own", act["a"], act["b"], o[3], o[4])
    elif d == "copy":
        o = slots.get(act["s"])
        if o is not None:
            if o[0] == "named":
                slots[act["to"]] = ("ncopy", o[1])
            else:
                slots[act["to"]] = o
    elif d == "del":
        slots.pop(act["s"], None)
    elif d == "op":
        if act["s"] is None:
            return {"f": act["f"], "a": act["a"], "k": dict(act["k"])}
        o = slots.get(act["s"])
        if o is not None:
            e = {"t": "ell", "n": o[1]} if o[0] in ("named", "ncopy") else expected_ell(o)
            return {"f": act["f"], "a": act["a"], "k": dict(act["k"], ell=e)}
    return None


class C08(Prop):
    id = "C08"
    corpus = False
    plan = [("np", 117, 1500), ("npl", 5, 60), ("std", 58, 700)]
    fault_kinds = ("preemption", "interrupt", "clear", "mutation", "object_death", "copied_object", "changed_while_in_use")
    rule = "a run is nontrivial if geodesic calls used at least two different pairs of axes; distinct = distinct (actions, schedule, interrupt)"
    assumptions = ["an ellipsoid is changed consistently (all its fields), by setting its attributes or by calling its constructor again",
                   "a result is checked unless another thread changed that very object during the call"]

    def template(self, rng, cfg):
        f = rng.choice(FUNCS)
        if cfg == "std" and f == "vincenty:track2":
            f = "karney:geodesic_line"
        o = catalog.fix_area(catalog.gen_op(rng, cfg, entry=catalog.BY_F[f], arrays=False))
        o["k"].pop("ell", None)
        return o

    def actions(self, rng, n, slots, tmpl, shared, cfg, extra=()):
        out = []
        for _ in range(n):
            x = rng.random()
            s = rng.choice(slots)
            if x < 0.5:
                t = rng.choice(tmpl)
                pick = rng.choice([s, s, s, s, rng.choice(shared) if shared else s, None])
                out.append({"do": "op", "s": pick, "f": t["f"], "a": t["a"], "k": t["k"]})
            elif x < 0.66:
                a, b = axes(rng)
                out.append({"do": "mut", "s": rng.choice(list(slots) + list(extra)), "a": a, "b": b, "how": rng.choice(["init", "set", "rset"])})
            elif x < 0.78:
                a, b = axes(rng)
                out.append({"do": "new", "s": s, "a": a, "b": b, "n": rng.choice(NM)})
            elif x < 0.84:
                out.append({"do": "named", "s": s, "n": rng.choice(NAMED)})
            elif x < 0.9:
                out.append({"do": "copy", "s": s, "to": rng.choice(slots), "how": rng.choice(["copy", "deepcopy", "pickle"])})
            elif x < 0.95:
                out.append({"do": "del", "s": s, "gc": rng.random() < 0.3})
            else:
                out.append({"do": "clear"})
        return out

    def gen(self, rng, pool, cfg, refs, tier):
        if rng.random() < 0.3:
            return self.gen_dirty(rng, cfg)
        tmpl = [self.template(rng, cfg) for _ in range(rng.choice([1, 2, 3]))]
        shared = ["h0", "h1"]
        a, b = axes(rng)
        a2, b2 = axes(rng)
        warm = [{"do": "new", "s": "h0", "a": a, "b": b, "n": rng.choice(NM)},
                rng.choice([{"do": "new", "s": "h1", "a": a2, "b": b2, "n": rng.choice(NM)}, {"do": "named", "s": "h1", "n": rng.choice(NAMED)}])]
        nt = rng.choice([1, 1, 1, 2, 2, 3])
        threads = []
        dirty = []
        if nt > 1 and rng.random() < 0.5:  # an object one thread changes while others use it
            a, b = axes(rng)
            warm.append({"do": "new", "s": "d", "a": a, "b": b, "n": rng.choice(NM)})
            dirty = ["d"]
        for i in range(nt):
            own = ["t%d.%d" % (i, j) for j in range(rng.choice([1, 2, 3]))]
            pre = []
            for s in own:
                a, b = axes(rng)
                pre.append({"do": "new", "s": s, "a": a, "b": b, "n": rng.choice(NM)})
            warm += pre
            n = rng.choice([6, 12, 25, 50]) if nt == 1 else rng.choice([1, 2, 3, 5])
            sh = shared + (dirty if i > 0 else [])
            threads.append(self.actions(rng, n, own, tmpl, sh, cfg, extra=dirty * 2 if i == 0 else ()))
        steps = [max(1, sum(150 for o in t)) for t in threads]
        sc = {"warm": warm, "threads": threads, "opcodes": False, "policy": gen_policy(rng, steps)}
        if rng.random() < 0.3:
            sc["faults"] = [[rng.randrange(nt), rng.choice([rng.randint(1, 40), rng.randint(1, steps[0])])] for _ in range(rng.choice([1, 1, 2]))]
        sc["post"] = [{"do": "op", "s": None, "f": t["f"], "a": t["a"], "k": t["k"]} for t in tmpl]
        sc["tmpl"] = tmpl
        return sc

    def gen_dirty(self, rng, cfg):
        """one thread changes an object while others are at the start of a call with it; a twin with the
        object's old axes, and one with its new axes, are used afterwards"""
        t = self.template(rng, cfg)
        while not t["f"].startswith("karney"):
            t = self.template(rng, cfg)
        (a, b), (a2, b2) = axes(rng), axes(rng)
        n = rng.choice(NM)
        warm = [{"do": "new", "s": "d", "a": a, "b": b, "n": n}, {"do": "new", "s": "h0", "a": a, "b": b, "n": n}, {"do": "new", "s": "h1", "a": a2, "b": b2, "n": n}]
        op = {"do": "op", "f": t["f"], "a": t["a"], "k": t["k"]}
        mut = {"do": "mut", "s": "d", "a": a2, "b": b2, "how": rng.choice(["init", "set", "rset"])}
        threads = [[mut], [dict(op, s="d")]]
        if rng.random() < 0.3:
            threads[0].append(dict(mut, a=a, b=b))
        if rng.random() < 0.4:
            threads.append([dict(op, s=rng.choice(["d", "h0", "h1"]))])
        if rng.random() < 0.2:
            threads.append([{"do": "clear"}])
        return {"warm": warm, "threads": threads, "opcodes": False, "policy": gen_policy(rng, [rng.choice([1, 8]), rng.choice([12, 25, 60]), 25, 2][:len(threads)]),
                "post": [], "tmpl": [t]}

    def plan_refs(self, sc):
        """reference operation of each op action, in order"""
        base = {}
        out = {"warm": [], "threads": [], "post": []}
        for x in sc["warm"]:
            out["warm"].append(apply(base, x))
        final = dict(base)
        for t in sc["threads"]:
            s = dict(base)
            row = []
            for x in t:
                row.append(apply(s, x))
            out["threads"].append(row)
            for k, v in s.items():
                if base.get(k) != v:
                    final[k] = v
            for k in base:
                if k not in s:
                    final.pop(k, None)
        out["post"] = []
        for s in [None] + sorted(final):
            for t in sc["tmpl"][:1] if len(final) > 4 else sc["tmpl"]:
                act = {"do": "op", "s": s, "f": t["f"], "a": t["a"], "k": t["k"]}
                out["post"].append((act, apply(final, act)))
        return out

    def ref_ops(self, sc):
        p = self.plan_refs(sc)
        return [o for o in p["warm"] if o] + [o for r in p["threads"] for o in r if o] + [o for _, o in p["post"] if o]

    def execute(self, sc, refs):
        st = {k: 0 for k in self.fault_kinds}
        st.update(steps=0, calls=0)
        res = {"viol": None, "st": st, "sig": sig(sc["warm"], sc["threads"], sc.get("policy"), sc.get("faults")), "nontrivial": False}
        E = codec.resolve("ellipsoid:Ellipsoid")
        clear = codec.resolve("ellipsoid:clear_ellipsoid_caches")
        p = self.plan_refs(sc)
        objs = {}
        busy = {}  # slot -> number of mutations begun
        bad = []

        def do(x, ref, task=None):
            d = x["do"]
            if task is not None:
                task.off += d in ("named", "copy", "del")
            try:
                if d == "new":
                    objs[x["s"]] = E(x["a"], x["b"], name=x["n"][0], model=x["n"][1])
                elif d == "named":
                    objs[x["s"]] = E.from_name(x["n"])
                elif d == "mut":
                    o = objs.get(x["s"])
                    if o is None or x["s"] in named_slots:
                        return
                    st["mutation"] += 1
                    busy[x["s"]] = busy.get(x["s"], 0) + 1
                    if x["how"] == "init":
                        E.__init__(o, x["a"], x["b"], name=o.name, model=o.model)
                    else:
                        tmp = E(x["a"], x["b"])
                        ks = ["semimajor_axis", "semiminor_axis", "flattening", "thirdflattening", "eccentricity"]
                        for k in ks if x["how"] == "set" else ks[::-1]:
                            setattr(o, k, getattr(tmp, k))
                    busy[x["s"]] += 1
                elif d == "copy":
                    o = objs.get(x["s"])
                    if o is None:
                        return
                    st["copied_object"] += 1
                    objs[x["to"]] = copy.copy(o) if x["how"] == "copy" else copy.deepcopy(o) if x["how"] == "deepcopy" else pickle.loads(pickle.dumps(o))
                elif d == "del":
                    st["object_death"] += objs.pop(x["s"], None) is not None
                    if x.get("gc"):
                        gc.collect()
                elif d == "clear":
                    st["clear"] += 1
                    clear()
                elif d == "op" and ref is not None:
                    k = dict(x["k"])
                    s = x["s"]
                    if s is not None:
                        if s not in objs:
                            return
                        k["ell"] = objs[s]
                    b0 = busy.get(s, 0)
                    if task is not None:
                        task.off += 1
                    a, k2 = codec.op_args({"a": x["a"], "k": {kk: v for kk, v in k.items() if kk != "ell"}})
                    f = codec.resolve(x["f"])
                    if task is not None:
                        task.off -= 1
                    if "ell" in k:
                        k2["ell"] = k["ell"]
                    got = codec.outcome(f, a, k2)
                    st["calls"] += 1
                    if s == "d" and not final[0]:
                        st["changed_while_in_use"] += busy.get(s, 0) != b0 or b0 % 2
                        return
                    want = refs[codec.key(ref)]["out"]
                    if not codec.same(got, want):
                        bad.append(mismatch(ref, got, want, "thread %s" % (task.tid if task else "main")))
            finally:
                if task is not None:
                    task.off -= d in ("named", "copy", "del")

        final = [False]
        # slots holding shared named objects are never changed
        named_slots = set()

        def run(x, ref, task=None):
            if x["do"] == "named":
                named_slots.add(x["s"])
            elif x["do"] == "new":
                named_slots.discard(x["s"])
            elif x["do"] == "copy" and x["s"] in objs:
                # a copy of a named object is left unchanged too (the mirror only knows its name)
                (named_slots.add if x["s"] in named_slots else named_slots.discard)(x["to"])
            do(x, ref, task)

        for x, r in zip(sc["warm"], p["warm"]):
            run(x, r)
        sim = sched.Sim(make_policy(sc["policy"]), opcodes=False, step_limit=800000)
        faults = {tuple(x) for x in sc.get("faults", [])}
        active = {}
        lost = set()

        def on_point(s, task, frame):
            if (task.tid, task.steps) in faults and frame is not None:
                if active.get(task.tid, {}).get("do") in ("op", "clear") and frame.f_lineno not in sched.unfair_lines(frame.f_code.co_filename):
                    st["interrupt"] += 1
                    faults.discard((task.tid, task.steps))
                    raise Injected()

        if faults:
            sim.on_point = on_point

        def body(t, rs):
            def fn(task):
                for x, r in zip(t, rs):
                    active[task.tid] = x
                    try:
                        run(x, r, task)
                    except Injected:
                        sys.settrace(None)
                    active[task.tid] = {}
                    sim.retrace()
            return fn

        for t, rs in zip(sc["threads"], p["threads"]):
            sim.add(body(t, rs))
        sim.run()
        st["steps"] += sim.step
        st["preemption"] += sum(1 for s in sim.switches if s[0] > 0)
        res["switches"] = sim.switches
        if sim.failure:
            res["viol"] = {"kind": sim.failure[0], "detail": sim.failure[1]}
            return res
        for t in sim.tasks:
            if t.error is not None:
                if isinstance(t.error, sched.Deadlock):
                    res["viol"] = {"kind": "deadlock", "detail": str(t.error)}
                    return res
                raise t.error
        final[0] = True
        try:
            for x, r in p["post"]:
                if r is not None:
                    do(x, r)
        except sched.Deadlock as e:
            res["viol"] = {"kind": "deadlock", "detail": str(e)}
            return res
        res["nontrivial"] = len({codec.key(o["k"].get("ell")) for row in p["threads"] for o in row if o}) > 1
        if bad:
            res["viol"] = bad[0]
        return res
