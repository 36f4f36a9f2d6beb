"""C05: an interrupted call leaves nothing behind."""
from __future__ import annotations

import copy
import sys

from .. import catalog, codec, sched
from .base import Prop, aim, family_pool, gen_policy, one_of, make_policy, mismatch, short, sig


class Injected(BaseException):
    pass


KINDS = {"kbd": KeyboardInterrupt, "mem": MemoryError, "exit": SystemExit, "alarm": TimeoutError, "cancel": Injected, "rec": RecursionError}
FAULTS = tuple(KINDS)
KINDS["own"] = ()


def in_chain(e, cls):
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if x is None or id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, cls):
            return True
        todo += [x.__cause__, x.__context__]
    return False


def attempt(f, a, k):
    """canonical outcome, plus the exception itself"""
    try:
        return codec.canon(f(*a, **k)), None
    except BaseException as e:  # noqa: BLE001
        return codec.canon_exc(e), e


def depth():
    f = sys._getframe(1)
    n = 0
    while f is not None:
        n += 1
        f = f.f_back
    return n


class C05(Prop):
    id = "C05"
    plan = [("np", 242, 1800), ("npl", 18, 100), ("std", 88, 600), ("ap", 11, 50)]
    fault_kinds = ("kbd", "mem", "exit", "alarm", "cancel", "rec", "repeated", "preemption")
    rule = "a run is nontrivial if at least one fault was really injected into a running call; distinct = distinct (calls, fault kind, fault step, schedule)"
    assumptions = ["faults are injected at statement boundaries (in part of the runs at bytecode boundaries); not on the header line of a `with`/`try` nor inside `finally` cleanup, where Python itself gives no guarantee",
                   "stack exhaustion is the interpreter's own recursion limit, lowered to leave a chosen number of frames"]

    def pool(self, rng, cfg, refs):
        return family_pool(rng, cfg, refs, nfam=9, size=4, max_steps=2500, nhot=3)

    def gen(self, rng, pool, cfg, refs, tier):
        fam = self.fam(rng, pool)
        hist = []
        opc = rng.random() < 0.25
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            o = one_of(rng, fam)
            n = max(1, refs.get(o)["steps"])
            kind = rng.choice(["kbd", "kbd", "mem", "exit", "alarm", "cancel", "rec"])
            if kind == "rec":
                at = rng.randint(1, 14)
            else:
                at = aim(rng, refs, o, cfg, 6 if opc else 1) if rng.random() < 0.85 else rng.randint(1, min(n, 40))
            hist.append({"op": o, "kind": kind, "at": at})
        storm = rng.random() < 0.22
        if storm:
            # what one interrupted call leaves behind may only show when it adds up
            hist = []
            for o in fam:
                n = max(1, refs.get(o)["steps"])
                if n <= 800:
                    kind = rng.choice(["kbd", "mem", "alarm", "cancel", "own"])
                    hist.append({"op": o, "kind": kind, "at": aim(rng, refs, o, cfg), "n": max(2, min(rng.choice([12, 25, 40, 70, 140, 300]), 5000 // n))})
            if not hist:
                storm, hist = False, [{"op": o, "kind": "kbd", "at": aim(rng, refs, o, cfg)}]
            opc = False
        if not storm and rng.random() < 0.06:
            hist.insert(rng.randint(0, len(hist)), {"op": copy.deepcopy(catalog.CLEAR), "kind": rng.choice(["kbd", "mem", "alarm", "cancel"]), "at": rng.randint(1, 8)})
        sc = {"hist": hist, "opcodes": opc}
        if rng.random() < 0.35:
            sc["warm"] = [rng.choice(fam) for _ in range(rng.choice([1, 2]))]
        if not storm and rng.random() < 0.3:  # other threads are in the library at the same time
            others = [[rng.choice(fam) for _ in range(rng.choice([1, 2]))] for _ in range(rng.choice([1, 2]))]
            sc["threads"] = others
            # CPython 3.12 itself crashes when a bytecode-level trace function raises while other threads are parked
            sc["opcodes"] = opc = False
            steps = [sum(refs.get(h["op"])["steps"] for h in hist)] + [sum(refs.get(o)["steps"] for o in t) for t in others]
            sc["policy"] = gen_policy(rng, [s * (6 if opc else 1) for s in steps])
            for h in hist:
                if h["kind"] == "rec":
                    h["kind"], h["at"] = "kbd", aim(rng, refs, h["op"], cfg)
        post = [copy.deepcopy(o) for o in fam] + catalog.canaries(rng, 3, cfg)
        rng.shuffle(post)
        # the interrupted call first: most likely to see what it left behind
        sc["post"] = [h["op"] for h in hist] + post
        sc["post_thread"] = rng.random() < 0.5
        return sc

    def ref_ops(self, sc):
        return [h["op"] for h in sc["hist"]] + sc["post"] + [o for t in sc.get("threads", []) for o in t]

    def execute(self, sc, refs):
        st = {k: 0 for k in self.fault_kinds}
        st.update(steps=0, calls=0)
        res = {"viol": None, "st": st, "nontrivial": False, "sig": sig(sc["hist"], sc.get("threads"), sc.get("policy"), sc.get("warm"))}
        for o in sc.get("warm", []):
            codec.call(o)
        if "threads" in sc:
            v = self.with_threads(sc, refs, st, res)
        else:
            v = self.alone(sc, refs, st)
        res["nontrivial"] = sum(st[k] for k in FAULTS) > 0
        if v is None:
            v = self.afterwards(sc, refs, st)
        res["viol"] = v
        return res

    def verdict(self, h, got, exc, fired, want):
        if codec.same(got, want):
            return None
        cls = KINDS[h["kind"]]
        if fired and exc is not None:
            if isinstance(exc, cls) or (issubclass(cls, Exception) and in_chain(exc, cls)):
                return None
        if isinstance(exc, sched.Deadlock):
            return {"kind": "blocked", "func": h["op"]["f"], "detail": "%s can never finish: %s" % (short(h["op"]), exc)}
        v = mismatch(h["op"], got, want, "interrupted (%s at %s)" % (h["kind"], h["at"]))
        v["kind"] = "interrupted"
        return v

    def alone(self, sc, refs, st):
        for h in [h for h in sc["hist"] for _ in range(h.get("n", 1))]:
            a, k = codec.op_args(h["op"])
            f = codec.resolve(h["op"]["f"])
            fired = [False]
            if h["kind"] == "rec":
                old = sys.getrecursionlimit()
                try:
                    sys.setrecursionlimit(depth() + 3 + h["at"])
                    got, exc = attempt(f, a, k)
                except RecursionError as e:
                    got, exc = codec.canon_exc(e), e
                finally:
                    sys.setrecursionlimit(old)
                fired[0] = exc is not None
                st["rec"] += in_chain(exc, RecursionError)
            else:
                def hook(step, frame, h=h, fired=fired):
                    if not fired[0] and step >= h["at"] and frame.f_lineno not in sched.unfair_lines(frame.f_code.co_filename):
                        fired[0] = True
                        st[h["kind"]] += 1
                        raise KINDS[h["kind"]]("simulated")

                if h["kind"] == "own":
                    hook = None
                    st["repeated"] += 1
                tr = sched.SoloTracer(hook=hook, opcodes=sc["opcodes"])
                with tr:
                    got, exc = attempt(f, a, k)
                st["steps"] += tr.steps
            st["calls"] += 1
            v = self.verdict(h, got, exc, fired[0], refs[codec.key(h["op"])]["out"])
            if v:
                return v
        return None

    def with_threads(self, sc, refs, st, res):
        sim = sched.Sim(make_policy(sc["policy"]), opcodes=sc["opcodes"], step_limit=400000)
        cur = [None, 0, False]  # fault being aimed, steps of thread 0 when its call began, fired
        out = []
        got = [[None] * len(t) for t in sc["threads"]]

        def on_point(s, task, frame):
            h = cur[0]
            if h is not None and task.tid == 0 and not cur[2] and task.steps - cur[1] >= h["at"] and frame is not None:
                if frame.f_lineno not in sched.unfair_lines(frame.f_code.co_filename):
                    cur[2] = True
                    st[h["kind"]] += 1
                    raise KINDS[h["kind"]]("simulated")

        sim.on_point = on_point

        def victim(task):
            for h in sc["hist"]:
                task.off += 1
                a, k = codec.op_args(h["op"])
                f = codec.resolve(h["op"]["f"])
                task.off -= 1
                cur[0], cur[1], cur[2] = h, task.steps, False
                g, e = attempt(f, a, k)
                cur[0] = None
                out.append((h, g, e, cur[2]))
                sim.retrace()

        def other(i, ops):
            def fn(task):
                for j, o in enumerate(ops):
                    task.off += 1
                    a, k = codec.op_args(o)
                    f = codec.resolve(o["f"])
                    task.off -= 1
                    got[i][j] = attempt(f, a, k)[0]
            return fn

        sim.add(victim)
        for i, t in enumerate(sc["threads"]):
            sim.add(other(i, t))
        sim.run()
        st["steps"] += sim.step
        st["calls"] += len(out) + sum(map(len, sc["threads"]))
        st["preemption"] += sum(1 for s in sim.switches if s[0] > 0)
        res["switches"] = sim.switches
        if sim.failure:
            return {"kind": sim.failure[0], "detail": "after an interrupt in thread 0: " + sim.failure[1]}
        for h, g, e, fired in out:
            v = self.verdict(h, g, e, fired, refs[codec.key(h["op"])]["out"])
            if v:
                return v
        for i, t in enumerate(sc["threads"]):
            for j, o in enumerate(t):
                want = refs[codec.key(o)]["out"]
                if not codec.same(got[i][j], want):
                    return mismatch(o, got[i][j], want, "thread %d, beside an interrupted one" % (i + 1))
        return None

    def afterwards(self, sc, refs, st):
        out = []
        if sc["post_thread"]:
            sim = sched.Sim(step_limit=2_000_000)

            def fn(task):
                for o in sc["post"]:
                    task.off += 1
                    a, k = codec.op_args(o)
                    f = codec.resolve(o["f"])
                    task.off -= 1
                    out.append((o, attempt(f, a, k)))

            sim.add(fn)
            sim.run()
            if sim.failure:
                return {"kind": "blocked", "detail": "a later call in another thread never finishes: " + sim.failure[1]}
        else:
            for o in sc["post"]:
                try:
                    a, k = codec.op_args(o)
                    f = codec.resolve(o["f"])
                except sched.Deadlock as e:
                    return {"kind": "blocked", "func": o["f"], "detail": "later call %s can never finish: %s" % (short(o), e)}
                out.append((o, attempt(f, a, k)))
        st["calls"] += len(out)
        for o, (g, e) in out:
            if isinstance(e, sched.Deadlock):
                return {"kind": "blocked", "func": o["f"], "detail": "later call %s can never finish: %s" % (short(o), e)}
            want = refs[codec.key(o)]["out"]
            if not codec.same(g, want):
                v = mismatch(o, g, want, "after an interrupted call (%s)" % ", ".join("%s: %s at %s" % (short(h["op"])[:80], h["kind"], h["at"]) for h in sc["hist"]))
                v["kind"] = "later"
                return v
        return None

    def shrink(self, sc):
        yield from super().shrink(sc)
        for i, h in enumerate(sc["hist"]):
            n = h.get("n", 1)
            for m in (1, n // 2, n - n // 4, n - 1):
                if 0 < m < n:
                    s = copy.deepcopy(sc)
                    s["hist"][i]["n"] = m
                    yield s

    def explicit(self, sc, res):
        if "threads" not in sc:
            return None
        return super().explicit(sc, res)
