"""Worker process: holds the library imported but never called; forks one child per simulated run.

usage: zygote.py CFG   (requests: JSON lines on stdin; answers: JSON lines on fd given by DST_OUT)
cfg: np   NumPy, astropy blocked, all submodules imported
     npl  as np, only the top package imported (submodules load lazily inside runs)
     std  interpreter without NumPy/astropy, all submodules imported
     ap   NumPy and astropy
     raw  NumPy, astropy blocked, nothing of the library imported (import-fault runs)
     rawap  NumPy and astropy, nothing of the library imported
"""
from __future__ import annotations

import json
import os
import select
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))

CFG = None
SRC = None


class Blocker:
    """meta_path finder that makes packages unimportable"""

    def __init__(self, names):
        self.names = set(names)

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.names:
            raise ModuleNotFoundError("simulated: no module named %r" % name, name=name)
        return None


def setup(cfg):
    global CFG, SRC
    CFG = cfg
    SRC = os.environ["DST_SRC"]
    from dst import sched

    sched.set_lib(os.path.join(SRC, "pymap3d"))
    sys.path.insert(0, SRC)
    if cfg != "std":
        import numpy  # noqa: F401
    if cfg in ("np", "npl", "raw"):
        sys.meta_path.insert(0, Blocker({"astropy", "erfa"}))
        for m in list(sys.modules):
            assert not m.startswith("astropy"), m
    if cfg in ("ap", "rawap"):
        import astropy.coordinates  # noqa: F401
        import astropy.time  # noqa: F401
        import astropy.units  # noqa: F401
    sched.patch_locks()
    if cfg in ("raw", "rawap"):
        precompile()
    else:
        import pymap3d

        f = os.path.realpath(pymap3d.__file__)
        assert f == os.path.realpath(os.path.join(SRC, "pymap3d", "__init__.py")), f
        if cfg != "npl":
            import importlib
            import pkgutil

            for m in pkgutil.iter_modules(pymap3d.__path__):
                if m.name != "tests" and not m.name.startswith("_"):
                    importlib.import_module("pymap3d." + m.name)
    if cfg in ("ap", "rawap"):
        warm_astropy()
    import random  # noqa: F401
    import zoneinfo

    import dst.props.base  # noqa: F401

    for z in ("America/New_York", "Europe/Paris", "Asia/Kolkata", "Australia/Lord_Howe"):
        zoneinfo.ZoneInfo(z)


def precompile():
    """byte code of the library into the campaign's own scratch cache: every run imports it anew"""
    import glob
    import py_compile

    for f in glob.glob(os.path.join(SRC, "pymap3d", "*.py")):
        try:
            py_compile.compile(f, doraise=True)
        except Exception:  # noqa: BLE001  (the import will say)
            pass


def warm_astropy():
    """load astropy's own tables (third party, not under test) once, before any run"""
    import warnings
    from datetime import datetime

    import astropy.units as u
    from astropy.coordinates import AltAz, CartesianRepresentation, EarthLocation, GCRS, ICRS, ITRS, SkyCoord
    from astropy.time import Time

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        t = Time(datetime(2015, 1, 1))
        t.sidereal_time("apparent", longitude=0 * u.rad)
        ITRS(CartesianRepresentation(7e6 * u.m, 0 * u.m, 0 * u.m), obstime=t).transform_to(GCRS(obstime=t))
        loc = EarthLocation(lat=10 * u.deg, lon=20 * u.deg)
        SkyCoord(AltAz(location=loc, obstime=t, az=10 * u.deg, alt=20 * u.deg).transform_to(ICRS()))


# ------------------------------------------------------------------------ fork
class Hang(Exception):
    pass


def cpu_of(pid):
    """CPU seconds of a child"""
    try:
        with open("/proc/%d/stat" % pid, "rb") as f:
            w = f.read().rsplit(b")", 1)[1].split()
        return (int(w[11]) + int(w[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, ValueError, IndexError):
        return 0.0


def fork_eval(fn, *args, timeout=60.0):
    """run fn(*args) in a forked child; returns its JSON-able result.
    Raises Hang on wall timeout; returns {'crash': status} if the child died."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                os.setpgid(0, 0)
            except OSError:
                pass
            out = fn(*args)
            data = json.dumps(out).encode()
        except BaseException:  # noqa: BLE001
            data = json.dumps({"harness_error": traceback.format_exc()[-3000:]}).encode()
        try:
            sys.settrace(None)
            n = 0
            while n < len(data):
                n += os.write(w, data[n:])
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    end = time.monotonic() + timeout
    hung = False
    extra = 3
    while True:
        left = end - time.monotonic()
        if left > 0:
            rl, _, _ = select.select([r], [], [], left)
        if left <= 0 or not rl:
            if extra and cpu_of(pid) < 0.7 * timeout:  # a slow machine, perhaps: it has not had its time yet
                extra -= 1
                end += timeout / 2
                continue
            hung = True
            break
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    if hung:
        for k in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
            try:
                k()
            except OSError:
                pass
    _, st = os.waitpid(pid, 0)
    if hung:
        raise Hang()
    if not buf:
        return {"crash": st}
    return json.loads(buf)


# -------------------------------------------------------------------- references
REF_LIMIT = 300000


def _ref_child(op):
    from dst import codec, sched

    tr = sched.SoloTracer(limit=REF_LIMIT, lines=True)
    try:
        a, k = codec.op_args(op)
        f = codec.resolve(op["f"])
    except codec.SkipOp:
        return {"skip": True}
    except Exception:  # noqa: BLE001  (arguments that cannot be built)
        return {"skip": True}
    try:
        with tr:
            r = codec.outcome(f, a, k)
    except sched.StepLimit:
        return {"out": ["steplimit"], "steps": tr.steps}
    # where each statement of the library was executed first and last: faults can be aimed at rare ones
    ln = [["%s:%d" % (os.path.basename(f), n), v[0], v[1]] for (f, n), v in tr.lines.items()]
    return {"out": r, "steps": tr.steps, "ln": ln[:400]}


def _probe_child(op):
    """does the operation touch state shared between calls? (search heuristic only)"""
    from dst import codec, libstate, sched

    seen = set()
    n = [0]

    def hook(step, frame):
        n[0] += 1
        seen.add(libstate.host_quick())
        if n[0] < 100 and n[0] % 9 == 4:
            seen.add(libstate.library())

    try:
        from pymap3d.ellipsoid import Ellipsoid

        Ellipsoid.from_name("wgs84")
        a, k = codec.op_args(op)
        f = codec.resolve(op["f"])
        h0, l0 = libstate.host_quick(), libstate.library()
        with sched.SoloTracer(hook=hook, limit=5000):
            codec.outcome(f, a, k)
        seen |= {libstate.host_quick(), libstate.library()}
    except Exception:  # noqa: BLE001
        return {"hot": False}
    return {"hot": bool(seen - {h0, l0})}


_hot = {}


def hot(f):
    """does function f touch shared state?  A pure function of (code, cfg, f): probes are drawn from a
    generator seeded by f, so scenario generation stays independent of which worker asks"""
    v = _hot.get(f)
    if v is None:
        path = os.path.join(os.environ["DST_TMP"], "hot-%s-%s" % (CFG, f.replace(":", ".")))
        try:
            v = open(path).read() == "1"
        except OSError:
            import random

            from dst import catalog

            rng = random.Random("hot" + f)
            ops = [c for c in catalog.CANARIES_S + (catalog.CANARIES_V if CFG != "std" else []) if c["f"] == f][:4]
            ops += [catalog.fix_area(catalog.gen_op(rng, CFG, entry=catalog.BY_F[f])) for _ in range(2)]
            v = any(fork_eval(_probe_child, o).get("hot") for o in ops)
            with open(path + ".%d" % os.getpid(), "w") as fh:
                fh.write("1" if v else "0")
            os.replace(path + ".%d" % os.getpid(), path)
        _hot[f] = v
    return v


class Refs:
    """outcome of each operation alone in a pristine process"""

    def __init__(self):
        self.d = {}
        self.forks = 0

    def get(self, op):
        from dst import codec

        k = codec.key(op)
        v = self.d.get(k)
        if v is None:
            self.forks += 1
            v = fork_eval(_ref_child, op)
            if "harness_error" in v:
                raise RuntimeError(v["harness_error"] + "\nop: " + k)
            if "crash" in v:
                v = {"out": ["crash", v["crash"]], "steps": 0}
            self.d[k] = v
        return v

    def hot(self, f):
        return hot(f)

    def for_ops(self, ops):
        from dst import codec

        return {codec.key(o): self.get(o) for o in ops}


# ------------------------------------------------------------------------ serving
def run_scenario(prop, sc, refs):
    refd = refs.for_ops(prop.ref_ops(sc))
    if any(v.get("skip") for v in refd.values()):
        return {"skip": True}
    t = getattr(prop, "timeout", 60.0)
    try:
        out = fork_eval(prop.execute, sc, refd, timeout=t)
    except Hang:
        return {"viol": {"kind": "hang", "detail": "simulated run did not finish within %g s wall" % t}, "st": {}}
    if "crash" in out:
        return {"viol": {"kind": "crash", "detail": "process died, wait status %s" % out["crash"]}, "st": {}}
    return out


def main():
    cfg = sys.argv[1]
    outfd = int(os.environ["DST_OUT"])
    out = os.fdopen(outfd, "w", buffering=1)
    devnull = os.open(os.environ.get("DST_ERR", os.devnull), os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    try:
        setup(cfg)
    except BaseException:  # noqa: BLE001
        out.write(json.dumps({"setup_error": traceback.format_exc()[-4000:]}) + "\n")
        return
    from dst import props

    out.write(json.dumps({"ready": cfg, "numpy": "numpy" in sys.modules, "astropy": "astropy" in sys.modules}) + "\n")
    os.dup2(devnull, 2)
    os.dup2(devnull, 1)
    refs = Refs()
    import gc

    gc.collect()
    gc.freeze()
    for line in sys.stdin:
        rq = json.loads(line)
        try:
            prop = props.get(rq["prop"]) if "prop" in rq else None
            if rq["kind"] == "group":
                refs = Refs()
                for i, sc in prop.scenarios(rq["seed"], rq["group"], cfg, refs, rq["tier"]):
                    res = run_scenario(prop, sc, refs)
                    res["i"] = i
                    if res.get("viol") or res.get("harness_error") or i == 0:
                        res["sc"] = sc
                    out.write(json.dumps(res) + "\n")
                out.write(json.dumps({"done": True, "refs": refs.forks}) + "\n")
            elif rq["kind"] == "corpus":
                from dst import corpus

                try:
                    res = fork_eval(corpus.build_chunk, rq["seed"], CFG, rq["chunk"], timeout=90.0)
                except Hang:
                    res = {"crash": "hang"}
                out.write(json.dumps(res) + "\n")
            elif rq["kind"] == "exec":
                res = run_scenario(prop, rq["sc"], refs)
                out.write(json.dumps(res) + "\n")
            elif rq["kind"] == "gen":
                for i, sc in prop.scenarios(rq["seed"], rq["group"], cfg, refs, rq["tier"]):
                    out.write(json.dumps({"i": i, "sc": sc}) + "\n")
                out.write(json.dumps({"done": True}) + "\n")
        except BaseException:  # noqa: BLE001
            out.write(json.dumps({"harness_error": traceback.format_exc()[-4000:], "done": True}) + "\n")
            refs = Refs()


if __name__ == "__main__":
    main()
