"""C01: concurrent calls return what each would return alone."""
from __future__ import annotations

import copy

from .. import catalog, changed, codec, sched
from .base import Prop, aim_in, family_pool, gen_policy, one_of, mismatch, run_threads, sig, usable


class C01(Prop):
    id = "C01"
    plan = [("np", 168, 900), ("npl", 19, 80), ("std", 58, 250), ("ap", 14, 60)]
    fault_kinds = ("preemption",)
    rule = "a run is nontrivial if at least one running call was preempted at a scheduling point; distinct = distinct (calls of each thread, sequence of (step, thread) switches)"

    def pool(self, rng, cfg, refs):
        big = rng.random() < 0.1
        return family_pool(rng, cfg, refs, nfam=9, size=4, max_steps=6000 if big else 900)

    def gen(self, rng, pool, cfg, refs, tier):
        n = rng.choice([2, 2, 2, 3, 3, 4])
        style = rng.random()
        if style < 0.12:  # the same call from cold in every thread: they all initialise together
            o = one_of(rng, self.fam(rng, pool))
            threads = [[o] for _ in range(n)]
            opc = rng.random() < 0.2
            mul = 6 if opc else 1
            steps = [mul * refs.get(o)["steps"]] * n
            policy = gen_policy(rng, steps, lambda t: aim_in(rng, refs, threads[t], cfg, mul))
            return {"warm": [], "threads": threads, "policy": policy, "opcodes": opc, "post": catalog.canaries(rng, 2, cfg)}
        threads = []
        if style > 0.94 or style > 0.8 and changed.current().lines:  # one call, held up while another thread goes through many places
            o = one_of(rng, self.fam(rng, pool))
            crowd = [x for x in catalog.spread(rng, one_of(rng, self.fam(rng, pool)) if rng.random() < 0.2 else o, rng.choice([3, 5, 9, 17, 20])) if usable(refs, x)]
            threads = [[o], crowd]
            if rng.random() < 0.3:
                threads[0] = [o, o]
            steps = [sum(refs.get(o)["steps"] for o in t) for t in threads]
            policy = gen_policy(rng, steps, lambda t: aim_in(rng, refs, threads[t], cfg)) if rng.random() < 0.3 else {"kind": "sandwich", "plan": [[0, aim_in(rng, refs, threads[0], cfg)], [1, 10**9]]}
            return {"warm": [], "threads": threads, "policy": policy, "opcodes": False, "post": catalog.canaries(rng, 2, cfg)}
        if style < 0.6:  # siblings of one family
            fam = self.fam(rng, pool)
            threads = [[one_of(rng, fam) for _ in range(rng.choice([1, 1, 2]))] for _ in range(n)]
        elif style < 0.85:  # two families
            fs = [self.fam(rng, pool), rng.choice(pool)]
            threads = [[one_of(rng, rng.choice(fs)) for _ in range(rng.choice([1, 2, 3]))] for _ in range(n)]
        else:
            threads = [[rng.choice(rng.choice(pool)) for _ in range(rng.choice([1, 2]))] for _ in range(n)]
        if rng.random() < 0.15:  # one of them empties the library's caches meanwhile
            t = rng.choice(threads)
            t.insert(rng.randint(0, len(t)), copy.deepcopy(catalog.CLEAR))
            if len(t) > 1 and rng.random() < 0.4:
                t.remove(rng.choice([o for o in t if o["f"] != catalog.CLEAR["f"]]))
        warm = []
        if rng.random() < 0.4:
            warm = [rng.choice(rng.choice(threads)) for _ in range(rng.choice([1, 2]))]
        opc = rng.random() < 0.25
        mul = 6 if opc else 1
        steps = [mul * sum(refs.get(o)["steps"] for o in t) for t in threads]
        post = catalog.canaries(rng, 2, cfg)
        policy = gen_policy(rng, steps, lambda t: aim_in(rng, refs, threads[t], cfg, mul))
        return {"warm": warm, "threads": threads, "policy": policy, "opcodes": opc, "post": post}

    def ref_ops(self, sc):
        return [o for t in sc["threads"] for o in t] + sc["post"]

    def execute(self, sc, refs):
        for o in sc["warm"]:
            codec.call(o)
        got = [[None] * len(t) for t in sc["threads"]]

        def body(i, ops):
            def fn(task):
                for j, o in enumerate(ops):
                    task.off += 1
                    a, k = codec.op_args(o)
                    f = codec.resolve(o["f"])
                    task.off -= 1
                    got[i][j] = codec.outcome(f, a, k)
            return fn

        limit = 20000 + 30 * (8 if sc["opcodes"] else 1) * sum(refs[codec.key(o)]["steps"] for t in sc["threads"] for o in t)
        sim = run_threads(sc, [body(i, t) for i, t in enumerate(sc["threads"])], step_limit=limit)
        st = {"steps": sim.step, "preemption": sum(1 for s in sim.switches if s[0] > 0), "calls": sum(map(len, sc["threads"]))}
        res = {"viol": None, "st": st, "switches": sim.switches, "sig": sig(sc["threads"], sim.switches), "nontrivial": st["preemption"] > 0}
        if sim.failure:
            res["viol"] = {"kind": sim.failure[0], "detail": sim.failure[1]}
            return res
        for t in sim.tasks:
            if t.error is not None:
                if isinstance(t.error, sched.Deadlock):
                    res["viol"] = {"kind": "deadlock", "detail": str(t.error)}
                    return res
                raise t.error
        for i, t in enumerate(sc["threads"]):
            for j, o in enumerate(t):
                want = refs[codec.key(o)]["out"]
                if not codec.same(got[i][j], want):
                    res["viol"] = mismatch(o, got[i][j], want, "thread %d" % i)
                    return res
        # aftermath: the process still gives the right results
        for o in sc["post"] + [o for t in sc["threads"] for o in t]:
            r = codec.call(o)
            want = refs[codec.key(o)]["out"]
            if not codec.same(r, want):
                res["viol"] = mismatch(o, r, want, "afterwards")
                res["viol"]["kind"] = "aftermath"
                return res
        return res
