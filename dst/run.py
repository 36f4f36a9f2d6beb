"""Driver: runs a property's simulated runs on all cores, minimises and reports violations, writes evidence.

  python3 -m dst.run C01 [--tier quick|thorough] [--workers N] [--scale F] [--log FILE]
  python3 -m dst.run --replay FILE
"""
from __future__ import annotations

import argparse
import copy
import hashlib
import json
import os
import queue
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
PY_FULL = "/opt/venv/bin/python"
PY_STD = "/opt/venv-stdlib/bin/python"


def env_for(cfg, tmp, hashseed):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "DST_"))}
    e.update(
        PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=os.path.join(tmp, "pyc"), PYTHONNOUSERSITE="1",
        OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", TZ="UTC", LC_ALL="C.UTF-8", LANG="C.UTF-8",
        XDG_CONFIG_HOME=os.path.join(tmp, "xdgc"), XDG_CACHE_HOME=os.path.join(tmp, "xdga"), HOME=tmp,
        DST_SRC=os.path.join(REPO, "src"), DST_REPO=REPO, DST_TMP=tmp,
    )
    if os.path.isdir(os.path.join(tmp, "loc")):
        e["LOCPATH"] = os.path.join(tmp, "loc")
    if os.environ.get("DST_ERR"):
        e["DST_ERR"] = os.environ["DST_ERR"]
    return e


class HarnessError(Exception):
    pass


class Zygote:
    def __init__(self, cfg, tmp, hashseed=0):
        self.cfg = cfg
        r, w = os.pipe()
        env = env_for(cfg, tmp, hashseed)
        env["DST_OUT"] = str(w)
        shim = os.path.join(tmp, "clk.so")
        if os.path.exists(shim):
            env["LD_PRELOAD"] = shim
        py = PY_STD if cfg == "std" else PY_FULL
        self.p = subprocess.Popen([py, "-B", os.path.join(ROOT, "dst", "zygote.py"), cfg], stdin=subprocess.PIPE, env=env, pass_fds=(w,), cwd=tmp, text=True)
        os.close(w)
        self.out = os.fdopen(r, "r")
        first = self.read()
        if "setup_error" in first:
            raise HarnessError("worker setup failed:\n" + first["setup_error"])
        self.info = first

    def read(self):
        line = self.out.readline()
        if not line:
            raise HarnessError("worker %s died" % self.cfg)
        return json.loads(line)

    def send(self, rq):
        self.p.stdin.write(json.dumps(rq) + "\n")
        self.p.stdin.flush()

    def exec(self, prop, sc):
        self.send({"kind": "exec", "prop": prop, "sc": sc})
        return self.read()

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=5)
        except Exception:  # noqa: BLE001
            self.p.kill()
            self.p.wait()
        self.out.close()


class Campaign:
    def __init__(self, prop, seed, tier, workers, scale=1.0, hashseed=0, deadline=780.0, log=None, plan=None):
        from dst import props

        self.prop = props.get(prop)
        self.pid, self.seed, self.tier, self.workers = prop, seed, tier, workers
        self.hashseed = hashseed
        self.deadline = deadline
        self.tmp = tempfile.mkdtemp(prefix="dst.")
        astropy_cfg(self.tmp)
        build_shim(self.prop, self.tmp)
        self.changed = find_changed(self.tmp)
        self.results = []
        self.errors = []
        self.viols = []
        self.lock = threading.Lock()
        self.stop = False
        self.timed_out = False
        self.refs = 0
        self.log = log
        self.corpus_info = {}
        self.tasks = []
        for cfg, nq, nt in plan or self.prop.plan:
            n = nq if tier == "quick" else nt
            n = max(1, int(round(n * scale))) if n else 0
            self.tasks += [(cfg, g) for g in range(n)]
        # interleave configurations so early stops have seen all of them, keep per-worker cfg switches rare
        self.tasks.sort(key=lambda t: (t[0], t[1]))

    def run(self):
        t0 = time.monotonic()
        q = queue.Queue()
        # one queue per cfg; workers prefer the cfg of the zygote they have
        bycfg = {}
        for cfg, g in self.tasks:
            bycfg.setdefault(cfg, []).append(g)
        total = len(self.tasks)

        def take(cur):
            with self.lock:
                if self.stop:
                    return None
                if cur and bycfg.get(cur):
                    return cur, bycfg[cur].pop(0)
                rest = [(len(v) / (1 + active.get(c, 0)), c) for c, v in bycfg.items() if v]
                if not rest:
                    return None
                c = max(rest)[1]
                return c, bycfg[c].pop(0)

        active = {}
        chunks, made, barrier = self.corpus_tasks(bycfg)

        def switch(zy, cfg):
            if zy is None or zy.cfg != cfg:
                if zy:
                    zy.close()
                    with self.lock:
                        active[zy.cfg] -= 1
                with self.lock:
                    active[cfg] = active.get(cfg, 0) + 1
                zy = Zygote(cfg, self.tmp, self.hashseed)
            return zy

        def work():
            zy = None
            try:
                while chunks:
                    with self.lock:
                        if not chunks or self.stop:
                            break
                        mine = [c for c in chunks if zy and c[0] == zy.cfg] or chunks
                        cfg, n = mine[0]
                        chunks.remove(mine[0])
                    zy = switch(zy, cfg)
                    zy.send({"kind": "corpus", "seed": self.seed, "chunk": n})
                    made[cfg, n] = zy.read()
                if barrier.wait() == 0:
                    self.write_corpus(made)
                barrier.wait()
                while True:
                    t = take(zy.cfg if zy else None)
                    if t is None:
                        break
                    cfg, g = t
                    zy = switch(zy, cfg)
                    zy.send({"kind": "group", "prop": self.pid, "seed": self.seed, "group": g, "tier": self.tier})
                    while True:
                        r = zy.read()
                        if r.get("harness_error"):
                            with self.lock:
                                self.errors.append((cfg, g, r))
                                if len(self.errors) > 5:
                                    self.stop = True
                        if r.get("done"):
                            with self.lock:
                                self.refs += r.get("refs", 0)
                            break
                        r["cfg"], r["g"] = cfg, g
                        with self.lock:
                            self.results.append(r)
                            if r.get("viol"):
                                self.viols.append(r)
                                if len(self.viols) >= 12:
                                    self.stop = True
                    if time.monotonic() - t0 > self.deadline:
                        with self.lock:
                            if not self.stop:
                                self.timed_out = True
                            self.stop = True
            except (HarnessError, threading.BrokenBarrierError) as e:
                with self.lock:
                    self.errors.append(("?", -1, {"harness_error": str(e)}))
                    self.stop = True
                barrier.abort()
            finally:
                if zy:
                    zy.close()

        ths = [threading.Thread(target=work) for _ in range(barrier.parties)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        self.wall = time.monotonic() - t0

    def corpus_tasks(self, bycfg):
        """the corpus chunks to build first: [(cfg, chunk)], a dict for the results, a barrier for the workers"""
        from dst import corpus

        want = set()
        if self.prop.corpus is True:
            for cfg in bycfg:
                want.add(corpus.SRC_CFG.get(cfg, cfg))
        else:
            want.update(self.prop.corpus or ())
        chunks = [(c, n) for c in sorted(want) for n in range(corpus.CHUNKS[c])]
        return chunks, {}, threading.Barrier(max(1, min(self.workers, max(len(self.tasks), len(chunks)))))

    def write_corpus(self, made):
        from dst import corpus

        os.environ["DST_SRC"] = os.path.join(REPO, "src")
        self.corpus_info = {}
        self.errors += [(k[0], -1, r) for k, r in made.items() if r.get("harness_error")]
        for cfg in sorted({c for c, _ in made}):
            cs = [made[k] for k in sorted(made) if k[0] == cfg and "ops" in made[k]]
            m = corpus.merge(cs, self.seed)
            self.corpus_info[cfg] = {"operations": len(m["ops"]), "edges": len(m["edges"]), "statements_of_the_library_reached": len(m["lines"])}
            with open(os.path.join(self.tmp, "corpus-%s.json" % cfg), "w") as f:
                json.dump(m, f)
            if os.environ.get("DST_CORPUS"):
                shutil.copy(os.path.join(self.tmp, "corpus-%s.json" % cfg), os.environ["DST_CORPUS"] + "-" + cfg)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def find_changed(tmp):
    """what differs from the tree this framework was frozen for, for the workers to look at first"""
    from dst import changed

    d = {"lines": [], "numbers": [], "funcs": []}
    try:  # by the interpreter that runs the library: byte code is compared
        p = subprocess.run([PY_FULL, "-B", os.path.join(ROOT, "dst", "changed.py"), os.path.join(REPO, "src"), "-"], capture_output=True, timeout=120, text=True)
        d = json.loads(p.stdout)
    except (OSError, ValueError, subprocess.SubprocessError):
        pass
    with open(os.path.join(tmp, "changed.json"), "w") as f:
        json.dump(d, f)
    os.environ["DST_TMP"] = tmp
    changed._cur = None
    return d


def astropy_cfg(tmp):
    d = os.path.join(tmp, "xdgc", "astropy")
    os.makedirs(d, exist_ok=True)
    os.makedirs(os.path.join(tmp, "xdga", "astropy"), exist_ok=True)
    with open(os.path.join(d, "astropy.cfg"), "w") as f:
        f.write("[utils.iers.iers]\nauto_download = False\nauto_max_age = 36500.0\niers_degraded_accuracy = warn\n[utils.data]\nallow_internet = False\n")


def build_shim(prop, tmp):
    """the wall-clock seam (LD_PRELOAD) and a locale with a decimal comma; without a C compiler the clock is
    simply not varied, without localedef only the C locales are used"""
    if getattr(prop, "locale", False):
        d = os.path.join(tmp, "loc")
        os.makedirs(d, exist_ok=True)
        try:
            subprocess.run(["localedef", "-i", "fr_FR", "-f", "UTF-8", os.path.join(d, "fr_FR.UTF-8")], capture_output=True, timeout=60)
        except (OSError, subprocess.SubprocessError):
            pass
    if getattr(prop, "shim", False):
        try:
            subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", os.path.join(tmp, "clk.so"), os.path.join(ROOT, "dst", "clockshim.c"), "-ldl"], check=True, capture_output=True, timeout=60)
        except (OSError, subprocess.SubprocessError):
            pass


# ------------------------------------------------------------------ minimisation
def fails(zy, pid, sc, kind):
    try:
        r = zy.exec(pid, sc)
    except HarnessError:
        return None, None
    if r.get("harness_error") or r.get("skip"):
        return False, r
    v = r.get("viol")
    return bool(v) and (kind is None or v["kind"] == kind), r


def minimise(prop, sc, kind, tmp, budget=45.0):
    """returns (scenario, result, tried)"""
    zy = Zygote(sc["cfg"], tmp)
    t0 = time.monotonic()
    tried = 0
    try:
        ok, res = fails(zy, prop.id, sc, kind)
        tried += 1
        if not ok:
            ok, res = fails(zy, prop.id, sc, None)
            if not ok:
                return None, res, tried
            kind = res["viol"]["kind"]
        best, bres = sc, res
        for phase in (0, 1):
            if phase == 1:
                ex = prop.explicit(best, bres)
                if ex is not None:
                    ok, r = fails(zy, prop.id, ex, kind)
                    tried += 1
                    if ok:
                        best, bres = ex, r
            progress = True
            while progress and time.monotonic() - t0 < budget:
                progress = False
                for cand in prop.shrink(best):
                    if time.monotonic() - t0 > budget:
                        break
                    variants = [cand]
                    p = cand.get("policy")
                    if phase == 0 and p and p["kind"] != "list" and cand.get("threads") != best.get("threads"):
                        for s in range(3):
                            c2 = copy.deepcopy(cand)
                            c2["policy"] = {"kind": "random", "seed": s, "p": [0.5, 0.1, 0.03][s]}
                            variants.append(c2)
                    hit = False
                    for c in variants:
                        tried += 1
                        ok, r = fails(zy, prop.id, c, kind)
                        if ok is None:
                            zy.close()
                            zy = Zygote(sc["cfg"], tmp)
                        elif ok:
                            best, bres = c, r
                            hit = True
                            break
                    if hit:
                        progress = True
                        break
        return best, bres, tried
    finally:
        zy.close()


def load_known():
    out = []
    p = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and line.startswith("{"):
                out.append(json.loads(line))
    return out


def known_match(known, pid, v):
    for k in known:
        if k.get("status") == "finding" and k["property"] == pid and k["match"] in v.get("fp", v.get("detail", "")):
            return k
    return None


def replay(path):
    with open(path) as f:
        rp = json.load(f)
    from dst import props

    tmp = tempfile.mkdtemp(prefix="dst.")
    astropy_cfg(tmp)
    build_shim(props.get(rp["property"]), tmp)
    try:
        zy = Zygote(rp["scenario"]["cfg"], tmp, rp.get("hashseed", 0))
        r = zy.exec(rp["property"], rp["scenario"])
        zy.close()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if r.get("harness_error"):
        print("HARNESS ERROR", r["harness_error"])
        return 2
    v = r.get("viol")
    if v:
        print("VIOLATION property=%s replay=%s" % (rp["property"], path))
        print("  kind:", v["kind"])
        print("  " + v["detail"])
        print("  same as recorded:", v == rp["violation"])
        return 1
    print("no violation on replay")
    return 0


def main(argv=None):
    sys.path.insert(0, ROOT)
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--workers", type=int, default=int(os.environ.get("DST_WORKERS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--scale", type=float, default=float(os.environ.get("DST_SCALE", "1")))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--hashseed", type=int, default=0)
    ap.add_argument("--log")
    ap.add_argument("--no-min", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.replay)
    t0 = time.monotonic()
    deadline = 700.0 if a.tier == "quick" else 6 * 3600.0
    print("seed=%d property=%s tier=%s workers=%d" % (a.seed, a.prop, a.tier, a.workers), flush=True)
    c = Campaign(a.prop, a.seed, a.tier, a.workers, a.scale, a.hashseed, deadline)
    prop = c.prop
    try:
        c.run()
        c.results.sort(key=lambda r: (r["cfg"], r["i"]))
        if a.log:
            with open(a.log, "w") as f:
                for r in c.results:
                    f.write(json.dumps({k: r.get(k) for k in ("cfg", "i", "sig", "st", "viol", "skip", "switches")}, sort_keys=True) + "\n")
        known = load_known()
        hits, fresh = {}, []
        for r in c.viols:
            k = known_match(known, a.prop, r["viol"])
            if k:
                hits[k["id"]] = k
            else:
                fresh.append(r)
        for k in hits.values():
            print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
        reported = 0
        if fresh:
            fresh.sort(key=lambda r: (r["cfg"], r["i"]))
            byk = {}
            for r in fresh:
                byk.setdefault((r["viol"]["kind"], r["viol"].get("func")), r)
            todo = list(byk.values())
            todo += [r for r in fresh if not any(r is x for x in todo)]
            seen = set()
            for r in todo:
                if reported == 2 or (reported and (r["viol"]["kind"], r["viol"].get("func")) in seen):
                    break
                seen.add((r["viol"]["kind"], r["viol"].get("func")))
                kind = r["viol"]["kind"]
                if a.no_min:
                    sc, res, tried = r["sc"], r, 0
                else:
                    sc, res, tried = minimise(prop, r["sc"], kind, c.tmp)
                if sc is None:
                    c.errors.append((r["cfg"], r["g"], {"harness_error": "violation did not reproduce: %s" % json.dumps(r["viol"])[:800]}))
                    continue
                os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
                h = hashlib.sha1(json.dumps(sc, sort_keys=True).encode()).hexdigest()[:10]
                path = os.path.join(ROOT, "replays", "%s-%s.json" % (a.prop, h))
                with open(path, "w") as f:
                    json.dump({"property": a.prop, "seed": a.seed, "run": r["i"], "cfg": r["cfg"], "violation": res["viol"], "scenario": sc, "hashseed": a.hashseed}, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (a.prop, path))
                print("  kind: %s  (run %s/%d, %d candidates tried while minimising)" % (res["viol"]["kind"], r["cfg"], r["i"], tried))
                print("  " + res["viol"]["detail"])
                print("  replay: cd %s && python3 -m dst.run --replay %s" % (ROOT, path))
                reported += 1
        write_evidence(c, prop, a, time.monotonic() - t0, len(fresh))
        if reported:
            return 1
        if c.errors:
            for cfg, g, r in c.errors[:5]:
                print("HARNESS ERROR (cfg %s group %s):\n%s" % (cfg, g, r["harness_error"]))
            return 2
        if c.timed_out:
            print("out of time: %d runs done of about %d" % (len(c.results), len(c.tasks) * prop.group_size))
            if not c.results:
                return 2
        print("ok: %d simulated runs in %.1f s" % (len(c.results), c.wall))
        return 0
    finally:
        c.close()


def finite(v):
    """JSON has no NaN or infinity"""
    if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
        return repr(v)
    if isinstance(v, list):
        return [finite(x) for x in v]
    if isinstance(v, dict):
        return {k: finite(x) for k, x in v.items()}
    return v


def write_evidence(c, prop, a, wall, nviol):
    runs = [r for r in c.results if not r.get("skip")]
    st = {}
    for r in runs:
        for k, v in (r.get("st") or {}).items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                st[k] = st.get(k, 0) + v
            elif isinstance(v, dict):
                d = st.setdefault(k, {})
                for kk, vv in v.items():
                    d[kk] = d.get(kk, 0) + vv
    sigs = {(r["cfg"], r["sig"]) for r in runs if r.get("sig") and r.get("nontrivial")}
    percfg = {}
    for r in runs:
        percfg[r["cfg"]] = percfg.get(r["cfg"], 0) + 1
    samples = []
    for r in sorted((r for r in runs if r.get("sc")), key=lambda r: len(json.dumps(r["sc"])))[:3]:
        d = finite(prop.describe(r["sc"]))
        t = json.dumps(d)
        samples.append(d if len(t) < 3000 else {"cut": t[:3000]})
    cov = {
        "evaluations": len(runs),
        "distinct_nontrivial": len(sigs),
        "rule": prop.rule,
        "samples": samples or [{"note": "none"}],
        "totals": st,
        "runs_per_configuration": percfg,
        "reference_processes": c.refs,
        "seeds_per_hour": round(len(runs) / max(c.wall, 1e-9) * 3600),
        "skipped_runs": len(c.results) - len(runs),
        "real_components": "all of /repo/src/pymap3d, CPython, NumPy/astropy where present; real threads, real fork",
        "stubs": prop.stubs,
        "changed_code": {"functions_reaching_it": c.changed.get("funcs", []), "statements": len(c.changed.get("lines", [])), "new_numbers": c.changed.get("numbers", [])[:20]},
        "operation_corpus": getattr(c, "corpus_info", {}) or "not used",
        "fault_kinds": {k: st.get(k, 0) for k in prop.fault_kinds},
        "simulated_time": getattr(prop, "sim_time_note", "%d library statements executed under the scheduler (the library has no timers; statements are the time unit)" % st.get("steps", 0)),
    }
    ev = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": prop.level, "coverage": cov, "wall_s": round(wall, 2), "violations": nviol,
          "assumptions": prop.assumptions}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", ".%s.tmp" % a.prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", "%s.json" % a.prop))


if __name__ == "__main__":
    sys.exit(main())
