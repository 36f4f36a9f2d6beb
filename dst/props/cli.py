"""C13: the command-line tool never pairs success with missing, truncated or wrong output."""
from __future__ import annotations

import copy
import errno
import inspect
import io
import json
import math
import os
import re
import sys
import tempfile
from decimal import Decimal

from .. import catalog, changed, codec, sched
from .base import Prop, sig


class HardExit(BaseException):
    def __init__(self, code):
        self.code = code


class SimRaw(io.RawIOBase):
    """standard output as the operating system sees it: takes bytes, or fails as the plan says"""

    FAIL = {"enospc": errno.ENOSPC, "epipe": errno.EPIPE, "eio": errno.EIO, "efbig": errno.EFBIG, "edquot": errno.EDQUOT}

    def __init__(self, plan, cap, st):
        self.plan = {int(n): (k, a) for n, k, a in plan}
        self.cap = cap  # bytes the device still holds
        self.n = 0
        self.data = bytearray()
        self.failed = []
        self.st = st

    def writable(self):
        return True

    def fileno(self):
        return 1

    def isatty(self):
        return False

    def _fail(self, kind):
        self.failed.append(kind)
        self.st[kind] += 1
        if kind == "eagain":
            return None
        if kind == "kbd":
            raise KeyboardInterrupt
        if kind == "mem":
            raise MemoryError
        raise OSError(self.FAIL[kind], os.strerror(self.FAIL[kind]))

    def write(self, b):
        b = bytes(b)
        self.n += 1
        f = self.plan.get(self.n)
        if f is not None:
            kind, arg = f
            if kind == "short":
                k = max(1, min(len(b), arg))
                if k < len(b):
                    self.st["short"] += 1
                b = b[:k]
            else:
                return self._fail(kind)
        if self.cap is not None:
            room = self.cap - len(self.data)
            if room <= 0 and b:
                return self._fail("enospc")
            if len(b) > room:
                self.st["short"] += 1
            b = b[:room]
        self.data += b
        return len(b)


class BrokenStderr(io.TextIOBase):
    def write(self, s):
        raise OSError(errno.EPIPE, "simulated")

    def flush(self):
        raise OSError(errno.EPIPE, "simulated")


NUM = re.compile(r"[-+]?(?:nan|inf(?:inity)?|(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)", re.I)


def num_text(rng, v):
    """one of the ways to write this number on a command line"""
    forms = [repr(v)]
    if v == v and abs(v) != math.inf:
        if v == int(v) and abs(v) < 1e6:
            forms.append(str(int(v)))
        forms += [" %r" % v, "%r " % v, "%.17e" % v]
        if v > 0:
            forms.append("+%r" % v)
    t = forms[0] if rng.random() < 0.7 else rng.choice(forms)
    if t.startswith("-") and not re.match(r"^-\d+$|^-\d*\.\d+$", t):
        t = format(Decimal(v), "f") if v == v and abs(v) != math.inf else " " + t
        if not re.match(r"^-\d+$|^-\d*\.\d+$", t):
            t = " " + t
    return t


TIMES = ["2013-01-15T12:00:05", "2000-06-01 00:00:00", "1999-12-31T23:59:59.999999", "2024-02-29", "2013-01-15T12:00:05+00:00", "2013-01-15T12:00:05+05:30",
         "2015-06-30 23:59:59-08:00", "1969-07-20T20:17:40Z"]
JUNK = ["abc", "", "12x", "0x10", "1..2", "1e", "four", "1,abc", "1,,2", "nan?", "1/2", "١x"]
BADTIME = ["2013-13-01T00:00:00", "yesterday", "", "12:00", "2013-02-30", "1e5", "2013-01-01T25:00:00"]


def time_arg(t):
    """text -> argument of the library call"""
    from datetime import datetime

    d = datetime.fromisoformat(t)
    o = d.utcoffset()
    r = {"t": "dt", "v": d.replace(tzinfo=None).isoformat()}
    if o is not None:
        r["tz"] = o.total_seconds() / 60 if o.total_seconds() else "utc"
    return r


def gen_env(rng):
    """what the shell may have set: a locale with a decimal comma, another zone, odd widths"""
    if rng.random() > 0.12:
        return None
    return rng.choice([{"LC_ALL": "fr_FR.UTF-8", "LANG": "fr_FR.UTF-8"}, {"LC_NUMERIC": "fr_FR.UTF-8", "LC_ALL": ""}, {"COLUMNS": "10"}, {"TZ": "America/New_York"}, {"PYTHONOPTIMIZE": "2"}, {"LC_ALL": "C"}, {"TERM": "dumb", "NO_COLOR": "1"}])


class C13(Prop):
    id = "C13"
    locale = True
    corpus = False
    group_size = 24
    plan = [("np", 98, 1500), ("std", 36, 600), ("ap", 6, 60)]
    timeout = 120.0
    fault_kinds = ("short", "enospc", "epipe", "eio", "efbig", "edquot", "eagain", "kbd", "mem", "nostdout", "closed", "stderr", "badarg", "realfull", "realpipe", "realclosed", "reallimit", "realslow", "env")
    rule = "a run is nontrivial if a fault was really delivered or the arguments were malformed; distinct = distinct (argument vector, fault plan)"
    stubs = "in the simulated runs the byte sink under sys.stdout (a raw stream with a fault plan) and the interpreter's exit sequence (final flush, status) are simulated; the real-process runs stub nothing"
    assumptions = ["a run in a real process (/dev/full, closed pipe, closed descriptor, file-size limit, slow reader) is repeatable because its faults do not depend on timing",
                   "standard output is buffered, as Python's is by default; python -u (where CPython itself loses the rest of a short write) is left out"]

    # ------------------------------------------------------------------ scenarios
    def commands(self):
        import pymap3d as pm

        have = {}
        for e in catalog.ENTRIES:
            m, f = e.f.split(":")
            if "." not in f:
                have.setdefault(f, e)
        for name in ("azel2radec", "radec2azel"):
            have[name] = catalog.BY_F["azelradec:" + name]
        out = []
        for n in sorted(pm.__all__):
            if n != "Ellipsoid" and n in have:
                out.append((n, have[n]))
        return out

    def pool(self, rng, cfg, refs):
        return self.commands()

    def gen(self, rng, pool, cfg, refs, tier):
        name, e = rng.choice(pool)
        mine = [x for x in pool if changed.current().reaches(x[1].f)]
        if mine and rng.random() < 0.4:
            name, e = rng.choice(mine)
        op = catalog.gen_op(rng, cfg, entry=e, arrays=False)
        args, argv, opts = [], [], []
        params = list(inspect.signature(codec.resolve(e.f)).parameters.values())
        aslist = e.has("V") and rng.random() < 0.25
        n = rng.choice([2, 2, 3, 5])
        if aslist and rng.random() < 0.15:
            n = rng.choice([60, 400])
        some = aslist and rng.random() < 0.3

        def numlist(L):
            t = ",".join(("%r" if rng.random() < 0.8 else " %r ") % x for x in L)
            return " " + t if t.startswith("-") else t

        def put(i, text):
            if params[i].default is inspect.Parameter.empty:
                argv.append(text)
            else:
                opts.append(["--%s=%s" % (params[i].name.replace("_", "-"), text)])

        for i, (a, kind) in enumerate(zip(op["a"], self.slots(e, len(op["a"])))):
            if kind in ("time", "timestr"):
                t = rng.choice(TIMES)
                args.append(time_arg(t))
                put(i, t)
                continue
            if isinstance(a, dict) and a["t"] == "np":
                a = a["v"]
            if isinstance(a, dict) and a["t"] == "arr":
                a = [float(x) for x in a["v"]]
            if isinstance(a, list):
                a = [float(x) for x in a if not isinstance(x, dict)]
                if len(a) < 2:
                    a = a[0] if a else 1.0
            if isinstance(a, (int, float)) and aslist and not (some and rng.random() < 0.5):
                step = rng.choice([0.0, 0.25, 1e-3])
                a = [float(a) + step * j for j in range(n)]
            if isinstance(a, list):
                args.append(a)
                put(i, numlist(a))
            else:
                args.append(float(a))
                put(i, num_text(rng, float(a)))
        k = {}
        glob = []
        for kk, v in op["k"].items():
            if kk == "ell":
                continue
            flag = "--" + kk.replace("_", "-")
            if isinstance(v, bool):
                k[kk] = v
                opts.append([flag if v else "--no-" + kk.replace("_", "-")])
            elif isinstance(v, (int, float)):
                k[kk] = float(v)
                opts.append(["%s=%r" % (flag, float(v))])
            else:
                k[kk] = v
                opts.append([flag, v] if rng.random() < 0.5 else ["%s=%s" % (flag, v)])
        if e.has("D") and "deg" not in k and rng.random() < 0.2:
            opts.append(["--deg"])
        if rng.random() < 0.5:
            el = rng.choice(self.ells())
            glob.append(["--ellipsoid", el])
            if e.has("E"):
                k["ell"] = {"t": "ell", "n": el}
        out = "text"
        if rng.random() < 0.45:
            out = rng.choice(["json", "json", "text"])
            glob.append(["--output", out])
        prec = None
        if rng.random() < 0.4:
            prec = rng.choice([0, 1, 2, 3, 6, 12, 17, 30])
            glob.append(["--precision", str(prec)])
        rng.shuffle(glob)
        sc = {"op": {"f": e.f, "a": args, "k": k}, "out": out, "prec": prec}
        pos = [name] if rng.random() < 2 else []
        bad = None
        x = rng.random()
        if x < 0.22:
            bad = rng.choice(["missing", "extra", "junk", "junk", "junk", "cmd", "nocmd", "ell", "output", "precision", "option", "badopt", "badtime"])
            if bad == "missing" and argv:
                argv = argv[:-1]
            elif bad == "extra":
                argv = argv + [rng.choice(["1.0", "abc"])]
            elif bad == "junk" and any(isinstance(a, (float, list)) for a in args[:len(argv)]):
                i = rng.choice([i for i, a in enumerate(args) if isinstance(a, (float, list)) and i < len(argv)])
                argv[i] = rng.choice(JUNK)
            elif bad == "badtime" and any(isinstance(a, dict) for a in args):
                i = rng.choice([i for i, a in enumerate(args) if isinstance(a, dict)])
                argv[i] = rng.choice(BADTIME)
            elif bad == "cmd":
                pos = [rng.choice(["geodetic2ecf", name + "x", "Ellipsoid", "tests", "vdist2", ""])]
            elif bad == "nocmd":
                pos, argv, opts = [], [], []
            elif bad == "ell":
                glob = [g for g in glob if g[0] != "--ellipsoid"] + [["--ellipsoid", rng.choice(["wgs85", "", "earth", "default"])]]
            elif bad == "output":
                glob = [g for g in glob if g[0] != "--output"] + [["--output", rng.choice(["xml", "", "csv"])]]
            elif bad == "precision":
                glob = [g for g in glob if g[0] != "--precision"] + [["--precision", rng.choice(["x", "1.5", "", "two"])]]
            elif bad == "option":
                opts.append([rng.choice(["--frob", "--frob=1", "--ell=wgs84"])])
            elif bad == "badopt" and (e.has("Q") or e.has("B")):
                opts = [o for o in opts if not o[0].startswith(("--sequence", "--frame"))]
                opts.append(["--sequence=%s" % rng.choice(["abc", "zz", "", "123"])] if e.has("Q") else ["--frame=%s" % rng.choice(["abc", "xyz", ""])])
            else:
                bad = "extra"
                argv = argv + ["1.0"]
        rng.shuffle(opts)
        body = [y for o in opts for y in o] + argv if rng.random() < 0.5 else argv + [y for o in opts for y in o]
        sc["argv"] = [y for g in glob for y in g] + pos + body
        sc["bad"] = bad
        sc["io"] = self.gen_io(rng, bad)
        return sc

    def slots(self, e, nargs):
        out = []
        for kind in e.kinds:
            n = 3 if kind == "nvs" else 1 if kind in ("time", "jd", "timestr", "ellname", "latl", "lonl", "lata", "lona") else catalog.nvals(kind)
            out += [kind] * n
        return out + ["?"] * (nargs - len(out))

    def ells(self):
        from pymap3d.ellipsoid import Ellipsoid

        return [n for n in catalog.ELLS + ["maupertuis", "plessis", "everest1830", "australian_national", "iers1989", "grs67", "gsk2011", "venus", "pluto", "airy1849", "sgs90", "ign"] if n in Ellipsoid.models]

    def gen_io(self, rng, bad):
        x = rng.random()
        if x < 0.04:
            kind = rng.choice(["ok", "full", "pipe", "closed", "limit", "slow"])
            return {"real": kind, "n": rng.choice([0, 1, 5, 20, 40, 60, 100, 200, 1000]), "env": gen_env(rng)}
        io_ = {"enc": rng.choice(["utf-8", "utf-8", "ascii", "latin-1", "utf-16", "cp037"]), "buf": rng.choice([8192, 8192, 1, 7, 64]), "line": rng.random() < 0.4,
               "nl": rng.choice(["\n", "\n", "\r\n"]), "plan": []}
        if x < 0.30:
            e = gen_env(rng)
            if e:
                io_["env"] = e
            return io_  # no fault
        if x < 0.40:
            io_["plan"] = [[i, "short", rng.choice([1, 1, 2, 5, 17, 100])] for i in range(1, rng.choice([3, 30, 200]))]
            return io_
        if x < 0.65:
            if rng.random() < 0.5:
                io_["cap"] = rng.choice([0, 1, 2, 5, 10, 16, 17, 18, 19, 20, 35, 36, 37, 38, 50, 54, 55, 56, 57, 80, 120, 1000, 4096, 8191, 8192, 8193])
            for _ in range(rng.choice([1, 1, 2, 3])):
                k = rng.choice(["enospc", "epipe", "eio", "efbig", "edquot", "eagain", "kbd", "mem"])
                io_["plan"].append([rng.choice([1, 1, 1, 2, 2, 3, 5]), k, 0])
            if rng.random() < 0.3:
                io_["plan"] += [[i, k, 0] for i in range(4, 60)]
            if rng.random() < 0.3:
                io_["plan"].append([rng.choice([1, 2]), "short", rng.choice([1, 3, 10])])
            return io_
        if x < 0.72:
            io_["stdout"] = rng.choice(["none", "none", "closed"])
            return io_
        if x < 0.78:
            io_["stderr"] = rng.choice(["none", "broken", "closed"])
        e = gen_env(rng)
        if e:
            io_["env"] = e
            return io_
        if x < 0.90:
            io_["at"] = rng.randint(1, rng.choice([20, 60, 400, 4000]))
            io_["what"] = rng.choice(["kbd", "mem", "mem"])
            return io_
        return io_

    def ref_ops(self, sc):
        return [sc["op"]]

    # ------------------------------------------------------------------ execution
    def execute(self, sc, refs):
        st = {k: 0 for k in self.fault_kinds}
        st["calls"] = 1
        want = refs[codec.key(sc["op"])]["out"]
        res = {"viol": None, "st": st, "sig": sig(sc["argv"], sc["io"])}
        if "real" in sc["io"]:
            code, data, enc, faulted, note = self.real(sc, st)
        else:
            code, data, enc, faulted, note = self.sim(sc, st)
        if sc["bad"]:
            st["badarg"] += 1
        res["nontrivial"] = bool(faulted or sc["bad"])
        res["viol"] = self.judge(sc, want, code, data, enc, faulted, note)
        return res

    def judge(self, sc, want, code, data, enc, faulted, note):
        cmd = "pymap3d " + " ".join(repr(a) if not a or " " in a else a for a in sc["argv"])[:300]
        isexc = isinstance(want, list) and want and want[0] in ("exc", "steplimit", "crash")
        if code != 0:
            if not faulted and not sc["bad"] and not isexc:
                return {"kind": "spurious-failure", "func": sc["op"]["f"], "detail": "%s exits %s although nothing failed and the library call returns %s; %s" % (cmd, code, codec.key(want)[:200], note)}
            return None
        if sc["bad"]:
            return {"kind": "bad-accepted", "func": sc["op"]["f"] if sc["bad"] == "junk" else None, "detail": "%s exits 0 although an argument is bad (%s)" % (cmd, sc["bad"])}
        if isexc:
            return {"kind": "error-as-success", "func": sc["op"]["f"], "detail": "%s exits 0 although the library call raises %s" % (cmd, want[1])}
        try:
            text = bytes(data).decode(enc)
            why = compare(want, text, sc["out"], sc["prec"])
        except UnicodeError as e:
            text, why = repr(bytes(data))[:100], "not decodable: %s" % e
        if why:
            return {"kind": "wrong-output", "func": sc["op"]["f"],
                    "detail": "%s exits 0 (%s) but standard output holds %r: %s; the library call returns %s" % (cmd, note or "no fault", text[:200], why, codec.key(want)[:200])}
        return None

    def sim(self, sc, st):
        import importlib

        m = importlib.import_module("pymap3d.__main__")
        p = sc["io"]
        raw = SimRaw(p["plan"], p.get("cap"), st)
        buf = io.BufferedWriter(raw, p["buf"])
        out = io.TextIOWrapper(buf, encoding=p["enc"], newline=p["nl"], line_buffering=p["line"])
        faulted = []
        os_write, os_exit, os_fsync = os.write, os._exit, os.fsync

        def sim_write(fd, b):
            if fd == 1:
                n = raw.write(b)
                if n is None:
                    raise BlockingIOError(errno.EAGAIN, "simulated")
                return n
            return os_write(fd, b)

        def sim_exit(code):
            raise HardExit(code)

        if p.get("env"):  # this process is a fork that ends with the run
            os.environ.update(p["env"])
            st["env"] += 1
        old = sys.argv, sys.stdout, sys.stderr, sys.__stdout__
        sys.argv = ["pymap3d"] + list(sc["argv"])
        sys.stderr = io.StringIO()
        if p.get("stderr") == "none":
            sys.stderr = None
        elif p.get("stderr") == "broken":
            sys.stderr = BrokenStderr()
        elif p.get("stderr") == "closed":
            sys.stderr = io.StringIO()
            sys.stderr.close()
        if p.get("stderr"):
            st["stderr"] += 1
            faulted.append("stderr " + p["stderr"])
        mine = out
        if p.get("stdout") == "none":
            mine = None
            st["nostdout"] += 1
            faulted.append("stdout None")
        elif p.get("stdout") == "closed":
            out.close()
            st["closed"] += 1
            faulted.append("stdout closed")
        sys.stdout = sys.__stdout__ = mine

        def hook(step, frame):
            if step == p.get("at"):
                faulted.append("%s at statement %d" % (p["what"], step))
                st[p["what"]] += 1
                raise KeyboardInterrupt if p["what"] == "kbd" else MemoryError

        tr = sched.SoloTracer(hook=hook if "at" in p else None, limit=400000)
        os.write, os._exit = sim_write, sim_exit
        try:
            hard = False
            try:
                if "at" in p:
                    with tr:
                        m.main()
                else:
                    m.main()
                code = 0
            except SystemExit as e:
                code = 0 if e.code is None else e.code & 0xFF if isinstance(e.code, int) else 1  # the system keeps 8 bits
            except HardExit as e:
                code, hard = e.code & 0xFF, True
            except KeyboardInterrupt:
                code = 130
            except BaseException as e:  # noqa: BLE001
                code = 1
                st.setdefault("raised", {}).setdefault(type(e).__name__, 0)
                st["raised"][type(e).__name__] += 1
            if not hard:
                # what the interpreter does on its way out
                try:
                    if sys.stdout is not None and not sys.stdout.closed:
                        sys.stdout.flush()
                except BaseException:  # noqa: BLE001
                    code = 120
                if sys.stdout is not out:
                    try:
                        out.flush()
                    except BaseException:  # noqa: BLE001
                        pass
        finally:
            os.write, os._exit = os_write, os_exit
            sys.argv, sys.stdout, sys.stderr, sys.__stdout__ = old
        faulted += raw.failed
        # keep the garbage collector from flushing into the void later
        st["bytes"] = len(raw.data)
        data = bytes(raw.data)
        raw.plan, raw.cap = {}, None
        return code, data, p["enc"], faulted, ", ".join(map(str, faulted))

    def real(self, sc, st):
        import resource
        import subprocess
        import threading  # noqa: F401

        kind, n = sc["io"]["real"], sc["io"]["n"]
        block = "import sys; sys.modules['astropy']=None; sys.modules['erfa']=None; " if sc["cfg"] in ("np", "npl") else "import sys; "
        # -S would hide the packages; the module is run as `python -m pymap3d` runs it
        code = block + "sys.argv[0]='pymap3d'; import runpy; runpy.run_module('pymap3d', run_name='__main__', alter_sys=True)"
        cmd = [sys.executable, "-B", "-c", code] + list(sc["argv"])
        if sc["cfg"] in ("std", "ap"):
            cmd = [sys.executable, "-B", "-m", "pymap3d"] + list(sc["argv"])
        env = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}
        env["PYTHONPATH"] = os.environ["DST_SRC"]
        env.update(sc["io"].get("env") or {})
        st["env"] += bool(sc["io"].get("env"))
        data = b""
        faulted = []
        d = tempfile.mkdtemp(dir=os.environ["DST_TMP"])
        path = os.path.join(d, "out")
        if kind == "full":
            st["realfull"] += 1
            faulted.append("device full")
            with open("/dev/full", "wb") as f:
                rc = subprocess.run(cmd, stdout=f, stderr=subprocess.DEVNULL, env=env, cwd=d).returncode
        elif kind == "pipe":
            st["realpipe"] += 1
            faulted.append("reader gone")
            r, w = os.pipe()
            os.close(r)
            rc = subprocess.run(cmd, stdout=w, stderr=subprocess.DEVNULL, env=env, cwd=d).returncode
            os.close(w)
        elif kind == "closed":
            st["realclosed"] += 1
            faulted.append("descriptor 1 closed")
            rc = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=d, preexec_fn=lambda: os.close(1)).returncode
        else:
            pre = None
            if kind == "limit":
                st["reallimit"] += 1

                def pre():
                    resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
            if kind == "slow":
                # a pipe nobody reads until the process has ended, in non-blocking mode
                st["realslow"] += 1
                r, w = os.pipe()
                os.set_blocking(w, False)
                rc = subprocess.run(cmd, stdout=w, stderr=subprocess.DEVNULL, env=env, cwd=d).returncode
                os.close(w)
                while True:
                    b = os.read(r, 1 << 16)
                    if not b:
                        break
                    data += b
                os.close(r)
                if len(data) >= 60000:
                    faulted.append("pipe full")
            else:
                with open(path, "wb") as f:
                    rc = subprocess.run(cmd, stdout=f, stderr=subprocess.DEVNULL, env=env, cwd=d, preexec_fn=pre).returncode
                data = open(path, "rb").read()
                if kind == "limit" and len(data) >= n:
                    faulted.append("file size limit %d" % n)
        return rc, data, "utf-8", faulted, "real process, " + ", ".join(faulted or [kind])

    def explicit(self, sc, res):
        return None

    def shrink(self, sc):
        p = sc["io"]
        if p.get("real"):
            s = copy.deepcopy(sc)
            s["io"] = {"enc": "utf-8", "buf": 8192, "line": False, "nl": "\n", "plan": []}
            yield s
            return
        for k in ("cap", "stdout", "stderr", "at"):
            if k in p:
                s = copy.deepcopy(sc)
                del s["io"][k]
                yield s
        L = p["plan"]
        ch = len(L)
        while ch >= 1:
            for i in range(0, len(L), ch):
                s = copy.deepcopy(sc)
                s["io"]["plan"] = L[:i] + L[i + ch:]
                yield s
            ch //= 2
        for k, v in (("enc", "utf-8"), ("buf", 8192), ("line", False), ("nl", "\n")):
            if p[k] != v:
                s = copy.deepcopy(sc)
                s["io"][k] = v
                yield s


def leaves(c):
    """canonical outcome -> nested lists of numbers / ('dt', iso, offset) / strings"""
    if isinstance(c, list) and c and isinstance(c[0], str):
        if c[0] in ("T", "L"):
            return [leaves(x) for x in c[1:]]
        if c[0] == "nd":
            vals = [x if isinstance(x, (int, float)) else codec._tof(x) for x in c[3]]
            return reshape(vals, c[2])
        if c[0] == "np":
            return codec._tof(c[2]) if not isinstance(c[2], str) or c[2] in ("nan", "inf", "-inf") else float(c[2])
        if c[0] == "i":
            return int(c[1])
        if c[0] == "dt":
            return ("dt", c[1], c[3])
        return ("?", codec.key(c))
    if c in ("nan", "inf", "-inf"):
        return codec._tof(c)
    return c


def reshape(vals, shape):
    if not shape:
        return vals[0]
    if len(shape) == 1:
        return list(vals)
    k = len(vals) // shape[0] if shape[0] else 0
    return [reshape(vals[i * k:(i + 1) * k], shape[1:]) for i in range(shape[0])]


def flat(x):
    if isinstance(x, list):
        return [z for y in x for z in flat(y)]
    return [x]


def compare(want, text, out, prec):
    """None, or what is wrong with the output"""
    w = leaves(want)
    if out == "json":
        def const(c):
            raise ValueError("%s is not JSON" % c)
        try:
            got = json.loads(text, parse_constant=const)
        except ValueError as e:
            return "invalid JSON (%s)" % e
        return cmp_json(w, got)
    if not text.endswith(("\n",)):
        return "no end of line"
    fl = flat(w)
    if len(fl) == 1 and isinstance(fl[0], tuple):
        from datetime import datetime

        try:
            d = datetime.fromisoformat(text.strip())
        except ValueError as e:
            return str(e)
        o = d.utcoffset()
        if d.replace(tzinfo=None) != datetime.fromisoformat(fl[0][1]) or (None if o is None else o.total_seconds()) != fl[0][2]:
            return "a different time"
        return None
    toks = NUM.findall(text)
    rest = NUM.sub("", text)
    if rest.strip(" \r\n[](),;\t") and re.sub(r"[\s\[\](),;]", "", rest):
        return "more than numbers: %r" % rest[:80]
    if len(toks) != len(fl):
        return "%d numbers instead of %d" % (len(toks), len(fl))
    for t, v in zip(toks, fl):
        if not isinstance(v, (int, float)) or isinstance(v, bool):
            return "unexpected kind of result %r" % (v,)
        if prec is not None and isinstance(v, float):
            if t != "%.*f" % (prec, v):
                return "%s instead of %.*f" % (t, prec, v)
        else:
            f = float(t)
            if not (f == v or (f != f and v != v)):
                return "%s instead of %r" % (t, v)
    return None


def cmp_json(w, g):
    if isinstance(w, list):
        if not isinstance(g, list) or len(g) != len(w):
            return "%s where a list of %d is due" % (json.dumps(g)[:80], len(w))
        for x, y in zip(w, g):
            r = cmp_json(x, y)
            if r:
                return r
        return None
    if isinstance(w, tuple):
        from datetime import datetime

        try:
            d = datetime.fromisoformat(g)
        except (ValueError, TypeError) as e:
            return str(e)
        o = d.utcoffset()
        return None if d.replace(tzinfo=None) == datetime.fromisoformat(w[1]) and (None if o is None else o.total_seconds()) == w[2] else "a different time"
    if isinstance(w, float) and not math.isfinite(w):
        return None if g is None or isinstance(g, str) else "%r instead of %r" % (g, w)
    if isinstance(g, bool) or not isinstance(g, (int, float)) or float(g) != float(w):
        return "%r instead of %r" % (g, w)
    return None
