"""Common parts of the property checks."""
from __future__ import annotations

import copy
import hashlib
import json
import random

from .. import catalog, changed, codec, corpus, sched


def H(*parts):
    return int.from_bytes(hashlib.sha256("|".join(map(str, parts)).encode()).digest()[:8], "big")


class Prop:
    id = "?"
    group_size = 20
    systematic = 5  # operations of the covering sequence used per group (or run, without a pool)
    corpus = True  # wants the coverage-guided corpus of operations
    timeout = 60.0
    # (cfg, groups quick, groups thorough)
    plan = [("np", 40, 400)]
    fault_kinds = ()
    level = "exploration"
    rule = ""
    stubs = "none: only the choice of who runs next, and locks created by library code, are simulated"
    assumptions = ["a scheduling point is a statement (in part of the runs a bytecode) of library code; preemption inside one C call is not simulated"]

    # -- scenario stream: a pure function of (seed, property, cfg, group)
    def scenarios(self, seed, group, cfg, refs, tier):
        rng = random.Random(H(seed, self.id, cfg, group))
        c = corpus.load(cfg) if self.corpus is True else None
        if c is not None:
            c.seek(group * self.systematic)
        pool = self.pool(rng, cfg, refs)
        for j in range(self.group_size):
            i = group * self.group_size + j
            self.j = j
            if c is not None and pool is None:
                c.seek(i * self.systematic)
            r = random.Random(H(seed, self.id, cfg, "run", i))
            sc = self.gen(r, pool, cfg, refs, tier)
            if sc is not None:
                sc["cfg"] = cfg
                sc["prop"] = self.id
                yield i, sc

    def pool(self, rng, cfg, refs):
        return None

    def fam(self, rng, pool):
        """a family of the pool: every one gets its turn"""
        return pool[self.j % len(pool)] if rng.random() < 0.7 else rng.choice(pool)

    def gen(self, rng, pool, cfg, refs, tier):
        raise NotImplementedError

    def ref_ops(self, sc):
        return []

    def execute(self, sc, refs):
        raise NotImplementedError

    # -- minimisation: candidate simpler scenarios, most aggressive first
    def shrink(self, sc):
        return generic_shrink(sc)

    def explicit(self, sc, res):
        """scenario with the recorded schedule made explicit"""
        if res.get("switches") is not None and "policy" in sc:
            s = copy.deepcopy(sc)
            s["policy"] = {"kind": "list", "sw": res["switches"]}
            return s
        return None

    def describe(self, sc):
        return sc


def usable(refs, op, allow_exc=True, max_steps=4000):
    r = refs.get(op)
    if r.get("skip"):
        return False
    o = r["out"]
    if isinstance(o, list) and o and o[0] in ("steplimit", "crash"):
        return False
    return r["steps"] <= max_steps


def pick_hot(rng, refs, tries=25):
    """an entry whose function touches state shared between calls, if one is found quickly"""
    for _ in range(tries):
        e = changed.steer(rng, catalog.WEIGHTED)
        if refs.hot(e.f):
            return e
    return None


def corpus_op(rng, cfg, refs, max_steps=1500, f=None):
    """an operation from the coverage-guided corpus, or None"""
    c = corpus.load(cfg)
    if c is None:
        return None
    for _ in range(4):
        o = c.pick(rng, max_steps, f)
        if o is not None and usable(refs, o, max_steps=max_steps):
            return o
    return None


def any_op(rng, cfg, refs, max_steps=1500, p=0.5, **kw):
    """a generated operation or one of the corpus"""
    if rng.random() < p and not kw:
        o = corpus_op(rng, cfg, refs, max_steps)
        if o is not None:
            return o
    return catalog.fix_area(catalog.gen_op(rng, cfg, **kw))


def family_pool(rng, cfg, refs, nfam=8, size=4, max_steps=1500, nhot=None, **kw):
    fams = []
    guard = 0
    if nhot is None:
        nhot = max(1, nfam // 3)
    c = corpus.load(cfg)
    nsys = 5 if c is not None and "entry" not in kw else 0
    while len(fams) < nfam and guard < nfam * 5:
        guard += 1
        kw2 = dict(kw)
        f = None
        if nsys < guard <= nsys + nhot and "entry" not in kw:
            e = pick_hot(rng, refs)
            if e is not None:
                kw2["entry"] = e
                f = e.f
        base = None
        most = max_steps
        if guard <= nsys:  # the covering sequence goes on from group to group
            base = c.next(corpus.LONG)
            if base is not None and not usable(refs, base, max_steps=corpus.LONG):
                base = None
            if base is not None:  # a long one is there for what only it reaches
                most = max(max_steps, refs.get(base)["steps"])
        elif rng.random() < 0.25 and "entry" not in kw:
            base = corpus_op(rng, cfg, refs, max_steps, f)
        f = [o for o in relatives(rng, base, cfg, size, **kw2) if usable(refs, o, max_steps=most)]
        if f:
            fams.append(f)
    return fams


def relatives(rng, base, cfg, size, **kw):
    """a family of operations: around base if given, else around a fresh one"""
    c = corpus.load(cfg)
    if c is None:
        return catalog.family(rng, cfg, size, **kw)
    fam = catalog.family(rng, cfg, max(1, size - 2), **kw) if base is None else [base]
    while len(fam) < size:
        x = rng.random()
        o = rng.choice(fam)
        if x < 0.5:
            fam.append(catalog.fix_area(catalog.sibling(rng, o, cfg)))
        elif x < 0.7:
            fam.append(corpus.diversify(rng, o, cfg))
        elif x < 0.85:
            fam.append(corpus.twin(rng, o, cfg) if x < 0.78 else corpus.retyped(rng, o, cfg))
        else:
            fam.append(c.pick(rng, 1500, o["f"]) or catalog.fix_area(catalog.sibling(rng, o, cfg)))
    if rng.random() < 0.35:  # equal values of another type beside the original
        fam.append((corpus.twin if rng.random() < 0.6 else corpus.retyped)(rng, fam[0], cfg))
    return fam


def one_of(rng, fam):
    """an operation of a family, the one it was built around preferred"""
    return fam[0] if rng.random() < 0.4 else rng.choice(fam)


def aim(rng, refs, op, cfg, mul=1):
    """a statement of op's execution: rarely executed library statements preferred"""
    r = refs.get(op)
    n = max(1, r.get("steps", 1))
    c = corpus.load(cfg)
    ln = r.get("ln")
    new = changed.current().lines
    if new and ln and rng.random() < 0.35:
        hit = [x for x in ln if x[0] in new]
        if hit:
            return at_line(rng, rng.choice(hit), n, mul)
    if c is None or not ln or rng.random() < 0.35:
        return rng.randint(1, n * mul)
    fo = c.focus.get(codec.key(op))
    fo = [x for x in ln if x[0] in fo] if fo else None
    if fo and rng.random() < 0.7:
        x = rng.choice(fo)
        if rng.random() < 0.35:  # in what that statement calls
            return max(1, min(n, x[1] + rng.randint(1, 25)) * mul)
    else:
        w = [c.rarity(k) for k, _, _ in ln]
        x = rng.choices(ln, w)[0]
    return at_line(rng, x, n, mul)


def at_line(rng, line, n, mul):
    _, a, b = line
    x = rng.random()
    at = a if x < 0.5 or a == b else (b if x < 0.7 else rng.randint(a, b))
    if mul > 1:
        return max(1, at * mul + rng.randint(-mul, mul))
    return max(1, at + rng.choice([0, 0, 0, 0, 1, 1, -1]))


def aim_in(rng, refs, ops, cfg, mul=1):
    """the same in a sequence of operations"""
    if not ops:
        return 1
    i = rng.randrange(len(ops))
    return sum(refs.get(o).get("steps", 1) * mul for o in ops[:i]) + aim(rng, refs, ops[i], cfg, mul)


def gen_policy(rng, steps, aims=None):
    """steps: expected traced steps of each thread; aims: fn(thread) -> step worth stopping that thread at"""
    if aims is None:
        def aims(t):
            return rng.randint(1, max(1, steps[t]))
    tot = max(2, sum(steps))
    x = rng.random()
    n = len(steps)
    if x < 0.25:
        return {"kind": "random", "seed": rng.getrandbits(32), "p": rng.choice([0.5, 0.2, 0.05, 0.02])}
    if x < 0.45:
        d = rng.choice([1, 2, 3, 5])
        return {"kind": "preempt", "seed": rng.getrandbits(32), "at": sorted(rng.randint(1, tot) for _ in range(d))}
    # sandwich: A runs k steps, B runs j steps or to completion, A resumes
    order = list(range(n))
    rng.shuffle(order)
    plan = [[order[0], aims(order[0])]]
    if rng.random() < 0.5:
        for b in order[1:]:
            plan.append([b, 10**9])
    else:
        for b in order[1:]:
            plan.append([b, aims(b)])
        plan.append([order[0], rng.choice([10**9, rng.randint(1, max(1, steps[order[0]]))])])
    return {"kind": "sandwich", "plan": plan}


def make_policy(p):
    if p["kind"] == "random":
        return sched.RandomPolicy(random.Random(p["seed"]), p["p"])
    if p["kind"] == "preempt":
        return sched.PreemptPolicy(random.Random(p["seed"]), p["at"])
    if p["kind"] == "sandwich":
        return sched.SandwichPolicy([tuple(x) for x in p["plan"]])
    return sched.ListPolicy(p["sw"])


def sig(*parts):
    return hashlib.sha1(json.dumps(parts, sort_keys=True).encode()).hexdigest()[:16]


def short(op):
    s = "%s(%s%s)" % (op["f"].split(":")[1], ", ".join(_sa(a) for a in op["a"]), "".join(", %s=%s" % (k, _sa(v)) for k, v in op.get("k", {}).items()))
    return s


def _sa(a):
    if isinstance(a, dict):
        t = a["t"]
        if t == "arr":
            return "array(%r%s%s)" % (a["v"], ",f4" if a.get("dt") == "f4" else "", "," + a["lay"] if "lay" in a else "")
        if t == "ell":
            return "<%s>" % a["n"]
        if t == "ellc":
            return "<a=%r b=%r %s>" % (a["a"], a["b"], a.get("name", ""))
        if t == "dt":
            return "%s[%s]%s" % (a["v"], a.get("tz"), "f1" if a.get("fold") else "")
        return str(a.get("v"))
    return repr(a)


def mismatch(op, got, want, where):
    return {"kind": "mismatch", "func": op["f"], "detail": "%s: %s gave %s, alone it gives %s" % (where, short(op), codec.key(got)[:300], codec.key(want)[:300])}


def generic_shrink(sc):
    """yield simpler scenarios (deep copies)"""
    for key in ("warm", "faults", "post", "hist", "steps"):
        L = sc.get(key)
        if isinstance(L, list) and L:
            n = len(L)
            ch = n
            while ch >= 1:
                for st in range(0, n, ch):
                    s = copy.deepcopy(sc)
                    s[key] = L[:st] + L[st + ch:]
                    yield s
                ch //= 2
    th = sc.get("threads")
    if th:
        if len(th) > 1:
            for i in range(len(th)):
                s = copy.deepcopy(sc)
                s["threads"][i] = []
                if th[i]:
                    yield s
        for i in range(len(th)):
            for j in range(len(th[i])):
                s = copy.deepcopy(sc)
                del s["threads"][i][j]
                yield s
    p = sc.get("policy")
    if p and p.get("kind") == "list":
        L = p["sw"]
        n = len(L)
        ch = max(1, n // 2)
        while ch >= 1:
            for st in range(0, n, ch):
                s = copy.deepcopy(sc)
                s["policy"]["sw"] = L[:st] + L[st + ch:]
                yield s
            if ch == 1:
                break
            ch //= 2


def run_threads(sc, bodies, on_point=None, step_limit=None, stop_at=None):
    """bodies: list of fn(task); returns Sim after the run"""
    sim = sched.Sim(make_policy(sc.get("policy", {"kind": "list", "sw": []})), opcodes=sc.get("opcodes", False), step_limit=step_limit or 200000)
    sim.on_point = on_point
    sim.stop_at = stop_at
    for b in bodies:
        sim.add(b)
    sim.run()
    return sim
