from __future__ import annotations

import importlib

_MODS = {
    "C01": "threads", "C02": "history", "C03": "ambient", "C04": "ambient", "C05": "interrupt", "C06": "argsafe",
    "C07": "names", "C08": "geocache", "C09": "instants", "C10": "imports", "C11": "progress", "C12": "batch",
    "C13": "cli", "C14": "reentrant", "C15": "survive",
}
_cache = {}


def get(pid):
    if pid not in _cache:
        m = importlib.import_module("dst.props." + _MODS[pid])
        _cache[pid] = getattr(m, pid)()
    return _cache[pid]


def ids():
    return sorted(_MODS)
