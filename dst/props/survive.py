"""C15: stalled threads and forked children never inherit a broken library."""
from __future__ import annotations

import copy
import json
import os
import sys
import traceback

from .. import catalog, codec, sched, zygote
from .base import Prop, aim_in, family_pool, gen_policy, one_of, make_policy, mismatch, short, sig


class C15(Prop):
    id = "C15"
    plan = [("np", 180, 1800), ("npl", 15, 120), ("std", 68, 700), ("ap", 6, 40)]
    fault_kinds = ("stalled_threads", "fork", "fork_inside_call", "fork_again", "clear", "preemption")
    rule = "a run is nontrivial if at least one thread was inside a library call at the moment of the stall or fork; distinct = distinct (calls, schedule, instant, survivor's calls)"
    stubs = "the scheduler and locks created by library code are simulated; os.fork is the real one"
    assumptions = ["threads are frozen at statement boundaries (in part of the runs bytecode boundaries) of library code"]

    def pool(self, rng, cfg, refs):
        return family_pool(rng, cfg, refs, nfam=9, size=4, max_steps=1500, nhot=4)

    def gen(self, rng, pool, cfg, refs, tier):
        fam = self.fam(rng, pool)
        if rng.random() < 0.3:
            fam = fam + rng.choice(pool)
        threads = [[one_of(rng, fam) for _ in range(rng.choice([1, 1, 2]))] for _ in range(rng.choice([1, 2, 2, 3]))]
        opc = rng.random() < 0.25
        mul = 6 if opc else 1
        steps = [mul * max(1, sum(refs.get(o)["steps"] for o in t)) for t in threads]
        sc = {"threads": threads, "policy": gen_policy(rng, steps, lambda t: aim_in(rng, refs, threads[t], cfg, mul)), "opcodes": opc}
        if len(threads) == 1:
            sc["policy"] = {"kind": "list", "sw": []}
        tot = sum(steps)
        sc["stop"] = rng.randint(1, max(1, tot)) if rng.random() < 0.7 else rng.randint(1, min(tot, 40 * mul))
        if rng.random() < 0.5:  # aim at a rarely executed statement: one thread runs, the others follow from there
            sc["stop"] = aim_in(rng, refs, threads[0], cfg, mul)
            if len(threads) > 1:
                k = sc["stop"]
                sc["policy"] = {"kind": "sandwich", "plan": [[0, k], [1, aim_in(rng, refs, threads[1], cfg, mul)]]}
                sc["stop"] = k + rng.choice([0, rng.randint(0, sc["policy"]["plan"][1][1])])
        sc["how"] = rng.choice(["stall", "stall2", "fork", "fork", "forkin", "forkin"])
        if rng.random() < 0.35:
            sc["warm"] = [rng.choice(fam) for _ in range(rng.choice([1, 2]))]
        surv = [rng.choice(rng.choice(threads)) for _ in range(rng.choice([1, 2, 3]))] + [rng.choice(fam) for _ in range(rng.choice([0, 1, 2]))] + catalog.canaries(rng, 2, cfg)
        if rng.random() < 0.4:
            for _ in range(rng.choice([1, 1, 2])):
                surv.insert(rng.randint(0, len(surv)), None)  # None: clear the caches
        sc["surv"] = surv
        sc["again"] = rng.random() < 0.2
        return sc

    def ref_ops(self, sc):
        return [o for t in sc["threads"] for o in t] + [o for o in sc["surv"] if o is not None]

    # -- the survivor's calls, in whatever thread or process it is
    def survive(self, sc, refs, st, where, trace=True):
        """returns a violation or None"""
        for o in sc["surv"]:
            if o is None:
                f = getattr(sys.modules.get("pymap3d.ellipsoid"), "clear_ellipsoid_caches", None)
                if f is not None:
                    st["clear"] += 1
                    try:
                        f()
                    except sched.Deadlock as e:
                        return {"kind": "blocked", "detail": "%s: clear_ellipsoid_caches can never finish: %s" % (where, e)}
                    except Exception as e:  # noqa: BLE001
                        return {"kind": "clear-failed", "detail": "%s: clear_ellipsoid_caches raised %r" % (where, e)}
                continue
            want = refs[codec.key(o)]
            try:
                a, k = codec.op_args(o)
                f = codec.resolve(o["f"])
                tr = sched.SoloTracer(limit=30000 + 20 * want["steps"])
                if trace:
                    with tr:
                        got = codec.outcome(f, a, k)
                else:
                    got = codec.outcome(f, a, k)
            except sched.Deadlock as e:
                return {"kind": "blocked", "func": o["f"], "detail": "%s: %s can never finish: %s" % (where, short(o), e)}
            except sched.StepLimit:
                return {"kind": "no-progress", "func": o["f"], "detail": "%s: %s does not finish" % (where, short(o))}
            st["calls"] += 1
            if not codec.same(got, want["out"]):
                v = mismatch(o, got, want["out"], where)
                v["kind"] = "survivor"
                return v
        return None

    def child(self, sc, refs, where):
        sched.CURRENT = None
        st = {k: 0 for k in self.fault_kinds}
        st["calls"] = 0
        v = self.survive(sc, refs, st, where)
        if v is None and sc["again"]:
            st["fork_again"] += 1
            r = zygote.fork_eval(self.child, dict(sc, again=False), refs, where + ", and its own child", timeout=30.0)
            if "harness_error" in r or "crash" in r:
                return r
            v = r["viol"]
        return {"viol": v, "st": st}

    def execute(self, sc, refs):
        st = {k: 0 for k in self.fault_kinds}
        st.update(steps=0, calls=0)
        for o in sc.get("warm", []):
            codec.call(o)
        got = [[None] * len(t) for t in sc["threads"]]
        inside = [0] * len(sc["threads"])
        forked = {}
        lim = 20000 + 40 * (8 if sc["opcodes"] else 1) * sum(refs[codec.key(o)]["steps"] for t in sc["threads"] for o in t)
        sim = sched.Sim(make_policy(sc["policy"]), opcodes=sc["opcodes"], step_limit=lim)

        def body(i, ops):
            def fn(task):
                for j, o in enumerate(ops):
                    task.off += 1
                    a, k = codec.op_args(o)
                    f = codec.resolve(o["f"])
                    task.off -= 1
                    inside[i] = 1
                    try:
                        got[i][j] = codec.outcome(f, a, k)
                    except (sched.Deadlock, sched.StepLimit) as e:
                        if "w" not in forked:
                            raise
                        self.report(forked["w"], {"viol": {"kind": "blocked", "func": o["f"], "detail": "forked inside %s, which then never finishes in the child: %r" % (short(o), e)}, "st": {}})
                    inside[i] = 0
                    if "w" in forked:
                        break
                if "w" in forked:  # we are the only thread of the child
                    sys.settrace(None)
                    self.finish_child(sc, refs, forked["w"], ops[j], got[i][j])
            return fn

        def on_point(s, task, frame):
            if s.step == sc["stop"] and "pid" not in forked and "w" not in forked:
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    forked["w"] = w
                    # only this thread exists in the child
                    s.tasks = [task]
                    base = s.step
                    s.step_limit = 10**9

                    def watch(s2, t2, fr):
                        if s2.step > base + lim:
                            raise sched.StepLimit()
                    s.on_point = watch
                    return
                os.close(w)
                forked["pid"], forked["r"] = pid, r

        for i, t in enumerate(sc["threads"]):
            sim.add(body(i, t))
        if sc["how"] == "forkin":
            sim.on_point = on_point
        else:
            sim.stop_at = sc["stop"]
        sim.run()
        st["steps"] += sim.step
        st["preemption"] += sum(1 for x in sim.switches if x[0] > 0)
        nin = sum(inside)
        res = {"viol": None, "st": st, "switches": sim.switches, "sig": sig(sc["threads"], sim.switches, sc["stop"], sc["how"], sc["surv"], sc.get("warm")),
               "nontrivial": nin > 0 or "pid" in forked}
        if sim.failure and not sim.failure[0] == "steplimit":
            res["viol"] = {"kind": sim.failure[0], "detail": sim.failure[1]}
            return res
        if sim.failure:
            res["viol"] = {"kind": "no-progress", "detail": sim.failure[1]}
            return res
        for i, t in enumerate(sc["threads"]):
            for j, o in enumerate(t):
                if got[i][j] is not None or not sim.stopped:
                    want = refs[codec.key(o)]["out"]
                    if sim.tasks[i].error is not None:
                        res["viol"] = {"kind": "blocked", "func": o["f"], "detail": "%s: %r" % (short(o), sim.tasks[i].error)}
                        return res
                    if not codec.same(got[i][j], want):
                        res["viol"] = mismatch(o, got[i][j], want, "thread %d" % i)
                        return res
        if sc["how"] == "forkin":
            if "pid" in forked:
                st["fork_inside_call"] += 1
                r = self.collect(forked["pid"], forked["r"])
                if self.merge(res, st, r):
                    return res
            res["viol"] = self.survive(sc, refs, st, "in the parent, after a fork inside a call")
            return res
        st["stalled_threads"] += nin
        if sc["how"] == "fork":
            st["fork"] += 1
            try:
                r = zygote.fork_eval(self.child, sc, refs, "in a child forked while %d threads were inside the library" % nin, timeout=40.0)
            except zygote.Hang:
                r = {"viol": {"kind": "hang", "detail": "the forked child does not finish"}, "st": {}}
            if self.merge(res, st, r):
                return res
            res["viol"] = self.survive(sc, refs, st, "in the parent, with %d threads stalled inside the library" % nin)
            return res
        if sc["how"] == "stall2":
            res["viol"] = self.two(sc, refs, st, nin)
            return res
        res["viol"] = self.survive(sc, refs, st, "with %d threads stalled inside the library" % nin)
        return res

    def two(self, sc, refs, st, nin):
        """two surviving threads at once"""
        sim = sched.Sim(sched.RandomPolicy(__import__("random").Random(sc["stop"]), 0.1), step_limit=500000)
        out = []

        def fn(task):
            out.append(self.survive(sc, refs, st, "in one of two surviving threads, %d stalled" % nin, trace=False))

        sim.add(fn)
        sim.add(fn)
        sim.run()
        if sim.failure:
            return {"kind": "blocked" if sim.failure[0] == "deadlock" else "no-progress", "detail": "%d threads stalled inside the library; of two surviving threads: %s" % (nin, sim.failure[1])}
        for t in sim.tasks:
            if t.error is not None:
                raise t.error
        return next((v for v in out if v), None)

    # -- a child forked inside a call
    def finish_child(self, sc, refs, w, op, got):
        sched.CURRENT = None
        st = {k: 0 for k in self.fault_kinds}
        st["calls"] = 1
        try:
            want = refs[codec.key(op)]["out"]
            if not codec.same(got, want):
                v = mismatch(op, got, want, "forked inside this call, in the child")
            else:
                v = self.survive(sc, refs, st, "in a child forked inside a call")
            out = {"viol": v, "st": st}
        except BaseException:  # noqa: BLE001
            out = {"harness_error": traceback.format_exc()[-3000:]}
        self.report(w, out)

    def report(self, w, out):
        sys.settrace(None)
        data = json.dumps(out).encode()
        n = 0
        while n < len(data):
            n += os.write(w, data[n:])
        os._exit(0)

    def collect(self, pid, r):
        import select
        import signal
        import time

        buf = b""
        end = time.monotonic() + 40
        while True:
            left = end - time.monotonic()
            rl = select.select([r], [], [], max(0, left))[0]
            if not rl:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                return {"viol": {"kind": "hang", "detail": "a child forked inside a call does not finish"}, "st": {}}
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf += d
        os.close(r)
        _, stt = os.waitpid(pid, 0)
        return json.loads(buf) if buf else {"crash": stt}

    def merge(self, res, st, r):
        if "harness_error" in r:
            raise RuntimeError(r["harness_error"])
        if "crash" in r:
            res["viol"] = {"kind": "crash", "detail": "the forked child died, wait status %s" % r["crash"]}
            return True
        for k, v in r["st"].items():
            st[k] = st.get(k, 0) + v
        if r["viol"]:
            res["viol"] = r["viol"]
            return True
        return False

    def shrink(self, sc):
        for s in super().shrink(sc):
            if any(s["threads"]):
                yield s
        for i in range(len(sc["surv"])):
            s = copy.deepcopy(sc)
            del s["surv"][i]
            yield s
        if sc["again"]:
            yield dict(copy.deepcopy(sc), again=False)
        if sc["opcodes"]:
            yield dict(copy.deepcopy(sc), opcodes=False)
        if sc["stop"] > 1:
            for d in (sc["stop"] // 2, sc["stop"] - 10, sc["stop"] - 1):
                if d > 0:
                    yield dict(copy.deepcopy(sc), stop=d)
