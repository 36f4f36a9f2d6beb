"""Full snapshot of everything that belongs to the host program (compared before/after library calls)."""
from __future__ import annotations

import builtins
import decimal
import gc
import hashlib
import locale
import logging
import math
import os
import random
import signal
import sys
import threading
import time
import types
import warnings


def _h(b):
    return hashlib.sha1(repr(b).encode()).hexdigest()[:12]


PATCHABLE = ["math", "cmath", "random", "time", "datetime", "warnings", "logging", "threading", "functools", "os", "json", "locale", "decimal", "builtins",
             "numpy", "numpy.random", "numpy.linalg", "zoneinfo", "argparse", "collections", "weakref", "copy", "pickle"]


def _ns(name):
    m = sys.modules.get(name)
    if m is None:
        return None
    out = []
    for k, v in sorted(vars(m).items()):
        if k.startswith("__") or isinstance(v, types.ModuleType) or k in ("_", "_filters_version", "onceregistry", "_type_cache"):
            continue
        if callable(v):
            out.append((k, id(v)))
        elif isinstance(v, (int, float, str, bool, type(None))):
            out.append((k, repr(v)))
    return tuple(out)


def _fds():
    out = {}
    try:
        for n in os.listdir("/proc/self/fd"):
            try:
                out[int(n)] = os.readlink("/proc/self/fd/" + n)
            except OSError:
                pass
    except OSError:
        return None
    # descriptors of the listing itself vanish
    return sorted((k, v) for k, v in out.items() if not v.startswith("/proc/"))


def _pos(fd):
    try:
        return os.lseek(fd, 0, os.SEEK_CUR)
    except OSError:
        return None


def _loggers():
    out = []
    for n, lg in sorted(logging.root.manager.loggerDict.items()):
        if isinstance(lg, logging.Logger) and not n.startswith("pymap3d"):
            out.append((n, lg.level, lg.disabled, lg.propagate, len(lg.handlers), len(lg.filters)))
    return out


def snapshot(streams=True):
    np = sys.modules.get("numpy")
    if np is not None and not hasattr(np, "geterr"):
        np = None
    s = {}
    s["warnings.filters"] = [(f[0], str(f[1]), f[2].__name__, str(f[3]), f[4]) for f in warnings.filters]
    s["warnings hooks"] = (id(warnings.showwarning), id(warnings.formatwarning), id(warnings.warn), id(getattr(warnings, "_showwarnmsg_impl", None)), id(warnings.filters), getattr(warnings, "defaultaction", None))
    r = logging.root
    s["logging root"] = (r.level, [id(h) for h in r.handlers], [h.level for h in r.handlers], [id(f) for f in r.filters], r.disabled, r.manager.disable, logging.raiseExceptions, id(logging.lastResort),
                         id(logging.getLoggerClass()), id(logging.getLogRecordFactory()), logging.lastResort.level if logging.lastResort else None)
    s["loggers"] = _loggers()
    s["logging levels"] = tuple(sorted(logging._levelToName.items()))
    if np is not None:
        s["numpy errstate"] = (tuple(sorted(np.geterr().items())), id(np.geterrcall()), np.getbufsize())
        s["numpy printoptions"] = repr(sorted(np.get_printoptions().items(), key=lambda t: t[0]))
        st = np.random.get_state()
        s["numpy random"] = (st[0], _h(st[1].tobytes()), st[2:])
    s["random"] = _h(random.getstate())
    s["environ"] = dict(os.environ)
    s["timezone"] = (time.tzname, time.timezone, time.altzone, time.daylight)
    s["locale"] = locale.setlocale(locale.LC_ALL)
    c = decimal.getcontext()
    s["decimal"] = (repr(c), id(c), repr(decimal.DefaultContext))
    s["recursionlimit"] = sys.getrecursionlimit()
    s["int digits"] = sys.get_int_max_str_digits()
    s["signals"] = [(int(x), repr(signal.getsignal(x))) for x in sorted(signal.valid_signals())]
    s["timers"] = [signal.getitimer(t)[1] for t in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)] + [signal.getitimer(signal.ITIMER_REAL)[0] > 0]
    s["sigmask"] = sorted(int(x) for x in signal.pthread_sigmask(signal.SIG_BLOCK, []))
    s["cwd"] = os.getcwd()
    um = os.umask(0o22)
    os.umask(um)
    s["umask"] = um
    s["streams"] = (id(sys.stdin), id(sys.stdout), id(sys.stderr), id(sys.__stdout__), id(sys.__stderr__), id(sys.displayhook), id(sys.excepthook), id(threading.excepthook), id(sys.unraisablehook))
    s["gc"] = (gc.isenabled(), gc.get_threshold(), gc.get_debug(), [id(x) for x in gc.callbacks])
    s["threads"] = (sorted(t.name for t in threading.enumerate() if not isinstance(t, threading._DummyThread)), threading.stack_size())
    s["switchinterval"] = sys.getswitchinterval()
    s["sys.path"] = list(sys.path)
    s["import hooks"] = ([id(x) for x in sys.meta_path], [id(x) for x in sys.path_hooks])
    s["builtins"] = _ns("builtins")
    s["atexit"] = __import__("atexit")._ncallbacks()
    s["fds"] = _fds()
    if streams and not os.environ.get("DST_ERR"):
        s["output written"] = (_pos(1), _pos(2))
    s["astropy"] = astropy_settings()
    import resource

    s["rlimits"] = [resource.getrlimit(x) for x in (resource.RLIMIT_STACK, resource.RLIMIT_AS, resource.RLIMIT_NOFILE, resource.RLIMIT_CPU)]
    s["mathctx"] = math.pi
    for m in PATCHABLE:
        n = _ns(m)
        if n is not None:
            s["module " + m] = n
    return s


def diff(a, b):
    out = []
    for k in a:
        if k.startswith("module ") and b.get(k) is not None:
            da, db = dict(a[k]), dict(b[k])
            ch = [n for n in da if n in db and da[n] != db[n] and n not in ("_filters_version",)] + [n for n in da if n not in db]
            if ch:
                out.append("%s: changed %s" % (k, ", ".join(ch[:4])))
        elif k in b and a[k] != b[k]:
            out.append("%s: %s -> %s" % (k, str(a[k])[:160], str(b[k])[:160]))
    return out


def shared_quick():
    """settings shared by all threads, cheap enough to look at on every statement"""
    r = logging.root
    return (
        id(warnings.filters), tuple(map(id, warnings.filters)), id(warnings.showwarning), id(getattr(warnings, "_showwarnmsg_impl", None)), id(warnings.warn),
        r.level, len(r.handlers), r.manager.disable, r.disabled,
        sys.getrecursionlimit(), sys.getswitchinterval(), gc.isenabled(), id(sys.stdout), id(sys.stderr), id(sys.stdin), time.timezone, time.tzname[0],
        len(os.environ), os.environ.get("TZ"), len(sys.path), len(sys.meta_path), signal.getsignal(signal.SIGINT), id(sys.excepthook), id(sys.displayhook),
    )


QUICK_NAMES = ["warnings.filters", "warnings.filters content", "warnings.showwarning", "warnings message hook", "warnings.warn", "logging root level", "logging root handlers", "logging.disable", "root logger disabled",
               "recursion limit", "switch interval", "gc enabled", "sys.stdout", "sys.stderr", "sys.stdin", "time zone", "time zone name", "environment", "TZ", "sys.path", "sys.meta_path", "SIGINT handler", "excepthook", "displayhook"]


def astropy_settings():
    """the configuration astropy shares with every user of it in the process"""
    out = []
    m = sys.modules.get("astropy.utils.iers.iers")
    if m is not None and hasattr(m, "conf"):
        c = m.conf
        out += [c.auto_download, c.auto_max_age, c.iers_degraded_accuracy, c.remote_timeout, c.iers_auto_url, m.earth_orientation_table._value if isinstance(getattr(m.earth_orientation_table, "_value", None), str) else None]
    m = sys.modules.get("astropy.coordinates.solar_system")
    if m is not None and hasattr(m, "solar_system_ephemeris"):
        out.append(m.solar_system_ephemeris._value)
    m = sys.modules.get("astropy.utils.data")
    if m is not None and hasattr(m, "conf"):
        out += [m.conf.allow_internet, m.conf.remote_timeout]
    lg = logging.root.manager.loggerDict.get("astropy")
    if isinstance(lg, logging.Logger):
        out += [lg.level, lg.disabled, lg.propagate]
    return out


def random_quick():
    """random generators, decimal default context, locale, astropy's configuration: slower, sampled"""
    np = sys.modules.get("numpy")
    st = None
    if np is not None and hasattr(np, "random"):
        s = np.random.get_state(legacy=False)
        st = (s["state"]["pos"], int(s["state"]["key"][0]))
    return hash(random.getstate()), st, locale.setlocale(locale.LC_ALL), os.getcwd(), astropy_settings()
