"""C03 (calls never change the host's settings) and C04 (results do not depend on them)."""
from __future__ import annotations

import copy
import json
import os
import random
import subprocess
import sys

from .. import catalog, codec, corpus, hoststate, sched
from .base import Prop, aim_in, family_pool, gen_policy, one_of, mismatch, run_threads, short, sig, usable
from .history import bad_op, bad_ops


class Injected(BaseException):
    pass


class C03(Prop):
    id = "C03"
    locale = True
    plan = [("np", 172, 1450), ("npl", 12, 80), ("std", 56, 380), ("ap", 14, 80)]
    fault_kinds = ("preemption", "interrupt", "failing_call")
    rule = "a run is nontrivial if library statements were executed between snapshots; distinct = distinct (calls, preset, schedule, interrupt point)"
    assumptions = ["the astropy-backed paths are excluded: astropy itself keeps global state of its own",
                   "NumPy's error state is per thread, so only its value before and after a call counts, not its value during one"]

    def pool(self, rng, cfg, refs):
        return family_pool(rng, cfg, refs, nfam=9, size=4, max_steps=2500)

    def gen(self, rng, pool, cfg, refs, tier):
        n = rng.choice([1, 1, 1, 2, 3])
        fam = self.fam(rng, pool)
        threads = []
        for _ in range(n):
            ops = [one_of(rng, fam if rng.random() < 0.7 else rng.choice(pool)) for _ in range(rng.choice([1, 2, 4]) if n == 1 else rng.choice([1, 2]))]
            if rng.random() < 0.15:
                ops.append(bad_op(rng, cfg))
            threads.append(ops)
        steps = [sum(refs.get(o).get("steps", 10) for o in t) for t in threads]
        sc = {"threads": threads, "policy": gen_policy(rng, steps, lambda t: aim_in(rng, refs, threads[t], cfg)), "preset": gen_preset(rng, cfg)}
        if rng.random() < 0.3:
            sc["faults"] = [[0, aim_in(rng, refs, threads[0], cfg)]]
        return sc

    def ref_ops(self, sc):
        return [o for t in sc["threads"] for o in t]

    def execute(self, sc, refs):
        apply_preset(sc["preset"])
        before = None
        st = {"steps": 0, "calls": 0, "preemption": 0, "interrupt": 0, "failing_call": sum(1 for t in sc["threads"] for o in t if o in bad_ops(sc["cfg"]))}
        seen = []
        faults = {tuple(x) for x in sc.get("faults", [])}
        base = hoststate.shared_quick()
        state = {"viol": None}
        cnt = [0]
        rq0 = hoststate.random_quick()

        def on_point(sim, task, frame):
            if state["viol"] is None:
                q = hoststate.shared_quick()
                if q != base:
                    names = [hoststate.QUICK_NAMES[i] for i in range(len(q)) if q[i] != base[i]]
                    state["viol"] = {"kind": "during", "func": frame.f_code.co_name if frame else "?", "detail": "while a call is running, another thread sees changed: %s (at %s)" % (
                        ", ".join(names), frame.f_code.co_name if frame else "?")}
                cnt[0] += 1
                if state["viol"] is None and cnt[0] % (7 if sc["cfg"] != "ap" else 2) == 0:
                    rq = hoststate.random_quick()
                    if rq != rq0:
                        state["viol"] = {"kind": "during", "func": frame.f_code.co_name if frame else "?", "detail": "while a call is running, another thread sees a changed random generator, locale, working directory or astropy configuration"}
            if (task.tid, task.steps) in faults and frame is not None and frame.f_lineno not in sched.unfair_lines(frame.f_code.co_filename):
                st["interrupt"] += 1
                faults.discard((task.tid, task.steps))
                raise Injected()

        def body(ops):
            def fn(task):
                nps = sys.modules.get("numpy")
                for o in ops:
                    task.off += 1
                    try:
                        a, k = codec.op_args(o)
                        f = codec.resolve(o["f"])
                    finally:
                        task.off -= 1
                    e0 = (nps.geterr(), nps.geterrcall()) if nps is not None else None
                    d0 = repr(__import__("decimal").getcontext())
                    try:
                        codec.outcome(f, a, k)
                    except Injected:
                        sys.settrace(None)
                    e1 = (nps.geterr(), nps.geterrcall()) if nps is not None else None
                    if e0 != e1:
                        seen.append("numpy error state of the calling thread: %s -> %s" % (e0, e1))
                    if d0 != repr(__import__("decimal").getcontext()):
                        seen.append("decimal context of the calling thread")
                    st["calls"] += 1
                    task_sim.retrace()
            return fn

        sim = sched.Sim(__import__("dst.props.base", fromlist=["x"]).make_policy(sc["policy"]), step_limit=200000)
        task_sim = sim
        sim.on_point = on_point
        for t in sc["threads"]:
            sim.add(body(t))
        before = hoststate.snapshot()
        sim.run()
        after = hoststate.snapshot()
        st["steps"] = sim.step
        st["preemption"] = sum(1 for s in sim.switches if s[0] > 0)
        res = {"viol": None, "st": st, "switches": sim.switches, "sig": sig(sc["threads"], sc["preset"], sim.switches, sc.get("faults")), "nontrivial": sim.step > 0}
        d = hoststate.diff(before, after) + seen
        ops = "; ".join(short(o) for t in sc["threads"] for o in t)[:300]
        if d:
            res["viol"] = {"kind": "left-behind", "func": d[0].split(":")[0], "detail": "after %s the host's settings differ: %s" % (ops, " | ".join(d)[:500])}
        elif state["viol"]:
            res["viol"] = state["viol"]
            res["viol"]["detail"] += " in " + ops
        elif sim.failure:
            res["viol"] = {"kind": sim.failure[0], "detail": sim.failure[1]}
        return res


# ------------------------------------------------------------------------ presets
def gen_preset(rng, cfg):
    """what the host program has configured before it calls the library"""
    p = {}
    if rng.random() < 0.35:
        p["filters"] = rng.choice(["error", "ignore", "always", "default", "once"])
    if cfg != "std" and rng.random() < 0.35:
        p["seterr"] = rng.choice([{"all": "ignore"}, {"all": "raise"}, {"all": "warn"}, {"all": "call"}, {"divide": "raise"}, {"invalid": "raise"}, {"invalid": "ignore", "divide": "ignore"}, {"over": "raise"}])
    if rng.random() < 0.3:
        p["log"] = rng.choice(["debug", "handler", "disable", "critical", "noraise"])
    if rng.random() < 0.15:
        p["tz"] = rng.choice(["America/New_York", "Asia/Kolkata", "XYZ-5:17"])
    if rng.random() < 0.15:
        p["decimal"] = rng.choice([2, 50, -7])
    if rng.random() < 0.15:
        p["seed"] = rng.randrange(1000)
    if rng.random() < 0.15:
        p["gc"] = rng.choice(["off", "one"])
    if rng.random() < 0.1:
        p["locale"] = rng.choice(["C", "fr_FR.UTF-8", "fr_FR.UTF-8"])
    if cfg != "std" and rng.random() < 0.1:
        p["printopt"] = rng.choice([{"precision": 1}, {"legacy": "1.13"}, {"suppress": True, "threshold": 2}])
    if cfg != "std" and rng.random() < 0.08:
        p["bufsize"] = rng.choice([16, 1024, 65536])
    if rng.random() < 0.08:
        p["streams"] = rng.choice(["none", "string"]) if cfg != "ap" else "string"  # without a stream, astropy cannot log its warning about a date after its tables
    if rng.random() < 0.1:
        p["rec"] = rng.choice([600, 5000])
    if rng.random() < 0.2:
        p["clock"] = rng.choice([-10**9, 10**9, 4 * 10**8, -1700000000 + 5, 3600])
    if rng.random() < 0.1:
        p["env"] = rng.choice([{"PYMAP3D": "1"}, {"LANG": "fr_FR.UTF-8", "LC_ALL": "fr_FR.UTF-8"}, {"TZ": "Mars/Phobos"}])
    return p


_clock = None


def clock():
    global _clock
    if _clock is None:
        _clock = False
        if "clk.so" in os.environ.get("LD_PRELOAD", ""):
            import ctypes

            lib = ctypes.CDLL(None)
            _clock = {n: ctypes.c_int64.in_dll(lib, n) for n in ("sim_offset_ns", "sim_frozen", "sim_base_ns", "sim_reads")}
    return _clock


def apply_preset(p):
    import decimal
    import gc
    import locale
    import logging
    import random as rnd
    import time
    import warnings

    n = 0
    if "filters" in p:
        warnings.simplefilter(p["filters"])
        n += 1
    if "seterr" in p and codec.np is not None:
        codec.np.seterr(**p["seterr"])
        if p["seterr"].get("all") == "call":
            codec.np.seterrcall(_errcall)
        n += 1
    if "log" in p:
        w = p["log"]
        if w == "debug":
            logging.root.setLevel(logging.DEBUG)
        elif w == "handler":
            logging.root.addHandler(logging.NullHandler())
            logging.root.setLevel(logging.INFO)
        elif w == "disable":
            logging.disable(logging.CRITICAL)
        elif w == "critical":
            logging.root.setLevel(logging.CRITICAL)
        else:
            logging.raiseExceptions = False
        n += 1
    if "tz" in p:
        os.environ["TZ"] = p["tz"]
        time.tzset()
        n += 1
    if "env" in p:
        os.environ.update(p["env"])
        time.tzset()
        n += 1
    if "decimal" in p:
        for c in (decimal.getcontext(), decimal.DefaultContext):
            c.prec = abs(p["decimal"])
            if p["decimal"] < 0:  # and rounds down, and keeps small exponents only
                c.rounding = decimal.ROUND_DOWN
                c.Emin, c.capitals = -5, 0
        n += 1
    if "bufsize" in p and codec.np is not None:
        codec.np.setbufsize(p["bufsize"])
        n += 1
    if "streams" in p:
        import io

        if p["streams"] == "none":
            sys.stdout = sys.stderr = None
        else:
            sys.stdout = sys.stderr = io.StringIO()
        n += 1
    if "seed" in p:
        rnd.seed(p["seed"])
        if codec.np is not None:
            codec.np.random.seed(p["seed"])
        n += 1
    if "gc" in p:
        gc.unfreeze()
        if p["gc"] == "off":
            gc.disable()
        else:
            gc.set_threshold(1, 1, 1)
        n += 1
    if "locale" in p:
        try:
            locale.setlocale(locale.LC_ALL, p["locale"])
        except locale.Error:
            pass
        n += 1
    if "printopt" in p and codec.np is not None:
        codec.np.set_printoptions(**p["printopt"])
        n += 1
    if "rec" in p:
        sys.setrecursionlimit(p["rec"])
        n += 1
    if "clock" in p:
        c = clock()
        if c:
            c["sim_offset_ns"].value = p["clock"] * 10**9
            n += 1
    return n


def _errcall(*a):
    pass


def may_raise(p, exc):
    """names of exceptions the host itself asked for"""
    names = set()
    if p.get("filters") == "error":
        names |= {"RuntimeWarning", "UserWarning", "DeprecationWarning", "FutureWarning", "PendingDeprecationWarning", "Warning", "AstropyWarning", "ErfaWarning", "ComplexWarning", "BytesWarning", "ResourceWarning"}
    if "raise" in (p.get("seterr") or {}).values():
        names.add("FloatingPointError")
    return exc[1] in names


class C04(Prop):
    id = "C04"
    shim = True
    locale = True
    plan = [("np", 198, 1400), ("npl", 9, 60), ("std", 53, 300), ("ap", 13, 60)]
    fault_kinds = ("ambient_setting", "setting_flipped_during_call", "fresh_interpreter", "clock_jump")
    timeout = 90.0
    stubs = "the host's wall clock (an LD_PRELOAD shim offsets it when gcc is there); nothing of the library"
    rule = "a run is nontrivial if at least one host setting differed from the default; distinct = distinct (calls, settings, flip points)"
    assumptions = ["of locales, C, C.UTF-8 and fr_FR.UTF-8 (decimal comma, French names; compiled with localedef) are used", "with filters or error modes set to raise, a call may raise the corresponding exception instead of returning"]

    def pool(self, rng, cfg, refs):
        return family_pool(rng, cfg, refs, nfam=9, size=4, max_steps=2500)

    def gen(self, rng, pool, cfg, refs, tier):
        if cfg in ("np", "std") and rng.random() < 0.06:
            ops = [o for f in pool for o in f]
            ops += copy.deepcopy(rng.sample(bad_ops(cfg), 8))
            rng.shuffle(ops)
            return {"interp": {"flags": rng.choice([["-O"], ["-OO"], [], ["-X", "utf8"], ["-W", "error"], ["-X", "dev"], ["-W", "ignore"]]), "hash": rng.choice([0, 1, 7, 4711, 99999]),
                               "env": rng.choice([{}, {"TZ": "Asia/Tokyo"}, {"LC_ALL": "C"}, {"LC_ALL": "fr_FR.UTF-8"}, {"TZ": "America/New_York", "PYTHONOPTIMIZE": "1"}])}, "steps": [{"op": o} for o in ops[:36]]}
        fam = self.fam(rng, pool)
        ops = [one_of(rng, fam if rng.random() < 0.7 else rng.choice(pool)) for _ in range(rng.choice([1, 2, 4]))]
        if rng.random() < 0.1:
            ops.append(bad_op(rng, cfg))
        p = gen_preset(rng, cfg)
        while not p:
            p = gen_preset(rng, cfg)
        c = corpus.load(cfg)
        if (c is not None and any(codec.key(o) in c.strict for o in ops) and rng.random() < 0.7) or rng.random() < 0.1:
            p["filters"] = rng.choice(["error", "default", "error"])
            if cfg != "std":
                p["seterr"] = rng.choice([{"all": "raise"}, {"all": "raise"}, {"invalid": "raise"}, {"divide": "raise"}])
        sc = {"steps": [{"op": o} for o in ops], "preset": p}
        if rng.random() < 0.5:
            tot = sum(refs.get(o).get("steps", 1) for o in ops)
            q = gen_preset(rng, cfg)
            q.pop("rec", None)
            if q:
                sc["faults"] = [[min(max(1, tot), aim_in(rng, refs, ops, cfg)), q]]
        return sc

    def ref_ops(self, sc):
        return [s["op"] for s in sc["steps"]]

    def execute(self, sc, refs):
        if "interp" in sc:
            return self.interp(sc, refs)
        st = {"steps": 0, "calls": 0, "ambient_setting": 0, "setting_flipped_during_call": 0, "clock_jump": 0}
        res = {"viol": None, "st": st, "sig": sig(sc), "nontrivial": True}
        dec = []
        for s in sc["steps"]:
            dec.append((codec.op_args(s["op"]), codec.resolve(s["op"]["f"])))
        st["ambient_setting"] += apply_preset(sc["preset"])
        allp = [sc["preset"]] + [f[1] for f in sc.get("faults", [])]
        todo = {f[0]: f[1] for f in sc.get("faults", [])}

        def hook(step, frame):
            q = todo.get(step)
            if q is not None:
                tr.off += 1
                st["setting_flipped_during_call"] += apply_preset(q)
                st["clock_jump"] += "clock" in q
                tr.off -= 1

        tr = sched.SoloTracer(hook=hook, limit=400000)
        for s, ((a, k), f) in zip(sc["steps"], dec):
            with tr:
                got = codec.outcome(f, a, k)
            st["calls"] += 1
            st["steps"] = tr.steps
            want = refs[codec.key(s["op"])]["out"]
            if not codec.same(got, want):
                if isinstance(got, list) and got and got[0] == "exc" and any(may_raise(p, got) for p in allp):
                    continue
                res["viol"] = mismatch(s["op"], got, want, "with host settings %s" % json.dumps(allp))
                return res
        return res

    def interp(self, sc, refs):
        it = sc["interp"]
        env = {k: v for k, v in os.environ.items() if not k.startswith("LD_")}
        env.update(it["env"])
        env["PYTHONHASHSEED"] = str(it["hash"])
        env["DST_CFG"] = sc["cfg"]
        ops = [s["op"] for s in sc["steps"]]
        root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        p = subprocess.run([sys.executable, "-B"] + it["flags"] + [os.path.join(root, "dst", "interp.py")], input=json.dumps(ops).encode(), capture_output=True, env=env, timeout=80)
        st = {"calls": len(ops), "fresh_interpreter": 1, "steps": 0}
        res = {"viol": None, "st": st, "sig": sig(sc), "nontrivial": True}
        if p.returncode != 0:
            res["viol"] = {"kind": "import", "detail": "fresh interpreter %s failed: %s" % (json.dumps(it), p.stderr.decode()[-400:])}
            return res
        outs = json.loads(p.stdout)
        for o, got in zip(ops, outs):
            want = refs[codec.key(o)]["out"]
            if not codec.same(got, want):
                if "error" in it["flags"] and got[0] == "exc" and may_raise({"filters": "error"}, got):
                    continue
                res["viol"] = mismatch(o, got, want, "in an interpreter started with %s" % json.dumps(it))
                return res
        return res
