"""Which parts of the library differ from the tree this framework was frozen for (dst/baseline.json).

Change-directed search: generation prefers operations, statements and constants of code that is new or was
changed.  It only steers where seeded search looks; no verdict depends on it, and on the frozen tree, or on one
that differs in most places, it does nothing."""
from __future__ import annotations

import hashlib
import json
import math
import os
import sys
import types

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(HERE, "baseline.json")


def walk(co, qual, out):
    name = co.co_name if not qual else qual + "." + co.co_name
    k = name
    i = 1
    while k in out:
        i += 1
        k = "%s#%d" % (name, i)
    out[k] = co
    for c in co.co_consts:
        if isinstance(c, types.CodeType):
            walk(c, "" if co.co_name == "<module>" else k, out)


def const(c):
    return "<code>" if isinstance(c, types.CodeType) else repr(sorted(map(repr, c))) if isinstance(c, frozenset) else repr(c)


def digest(co):
    h = hashlib.sha1()
    for x in (co.co_code, repr(co.co_names), repr(co.co_varnames), repr(co.co_freevars), repr([const(c) for c in co.co_consts]), getattr(co, "co_exceptiontable", b"")):
        h.update(x if isinstance(x, bytes) else x.encode())
    return h.hexdigest()[:12]


def codes(src):
    """{file: {qualified name: code object}}"""
    lib = os.path.join(src, "pymap3d")
    res = {}
    for f in sorted(os.listdir(lib)):
        if f.endswith(".py"):
            try:
                with open(os.path.join(lib, f), encoding="utf-8") as fh:
                    d = {}
                    walk(compile(fh.read(), f, "exec"), "", d)
                    res[f] = d
            except (OSError, SyntaxError, ValueError):
                pass
    return res


def numbers(co, out):
    def one(c):
        if isinstance(c, (tuple, frozenset)):
            for x in c:
                one(x)
        elif isinstance(c, (int, float)) and not isinstance(c, bool) and math.isfinite(c):
            out.add(c)

    for c in co.co_consts:
        one(c)


def strings(co, out):
    def one(c):
        if isinstance(c, (tuple, frozenset)):
            for x in c:
                one(x)
        elif isinstance(c, str) and 0 < len(c) <= 40 and "\n" not in c:
            out.add(c)

    for c in co.co_consts:
        one(c)


def freeze(src):
    code = {}
    nums, strs = set(), set()
    for f, d in codes(src).items():
        for q, co in d.items():
            code[f + ":" + q] = digest(co)
            numbers(co, nums)
            strings(co, strs)
    return {"python": list(sys.version_info[:2]), "code": code, "numbers": sorted(nums), "strings": sorted(strs)}


def compare(src):
    """{"lines": ["file:line"...], "numbers": [...]} of what is new or changed"""
    none = {"lines": [], "numbers": [], "strings": [], "funcs": []}
    try:
        with open(BASE, encoding="utf-8") as f:
            base = json.load(f)
    except (OSError, ValueError):
        return none
    if base["python"] != list(sys.version_info[:2]):
        return none
    old = base["code"]
    lines, nums, strs, n, total = set(), set(), set(), 0, 0
    for f, d in codes(src).items():
        for q, co in d.items():
            total += 1
            if old.get(f + ":" + q) == digest(co):
                continue
            n += 1
            numbers(co, nums)
            strings(co, strs)
            if q == "<module>":
                continue
            for _, _, ln in co.co_lines():
                if ln and ln != co.co_firstlineno:
                    lines.add("%s:%d" % (f, ln))
    if n * 2 > total:
        return none
    return {"lines": sorted(lines), "numbers": sorted(nums - set(base["numbers"])), "strings": sorted(strs - set(base["strings"])), "funcs": sorted(reaching(src, lines))}


def reaching(src, lines):
    """names of functions that contain changed code or (by the names they use) call functions that do"""
    uses, hit = {}, set()

    def names(co, out):
        out.update(co.co_names)
        for c in co.co_consts:
            if isinstance(c, types.CodeType):
                names(c, out)

    for f, d in codes(src).items():
        for q, co in d.items():
            if q == "<module>":
                continue
            parts = q.split("#")[0].split(".")
            last = parts[-1]
            names(co, uses.setdefault(last, set()))
            own = {"%s:%d" % (f, ln) for _, _, ln in co.co_lines() if ln and ln != co.co_firstlineno}
            if own & lines:
                hit.add(last)
                if last in ("__init__", "__new__", "__post_init__") and len(parts) > 1:
                    hit.add(parts[-2])
    while True:
        more = {n for n, u in uses.items() if n not in hit and u & hit}
        if not more:
            return hit
        hit |= more


_cur = None


class Diff:
    def __init__(self, d):
        self.lines = set(d.get("lines") or ())
        self.numbers = [c for c in d.get("numbers") or () if abs(c) < 1e18]
        self.sizes = [int(c) for c in self.numbers if c == int(c) and 2 <= c <= 20000]
        self.strings = list(d.get("strings") or ())
        self.funcs = set(d.get("funcs") or ())
        self.on = bool(self.lines or self.numbers)

    def reaches(self, f):
        return f.split(":")[1].split(".")[-1] in self.funcs


def current():
    global _cur
    if _cur is None:
        try:
            with open(os.path.join(os.environ["DST_TMP"], "changed.json"), encoding="utf-8") as f:
                _cur = Diff(json.load(f))
        except (OSError, ValueError, KeyError):
            _cur = Diff({})
    return _cur


def steer(rng, entries, p=0.4):
    """one of the entries (objects with .f), those that reach changed code preferred"""
    d = current()
    if d.funcs and rng.random() < p:
        mine = _mine(entries, d)
        if mine:
            return rng.choice(mine)
    return rng.choice(entries)


_lists = {}


def _mine(entries, d):
    k = id(entries)
    if k not in _lists:
        _lists[k] = entries, [e for e in entries if d.reaches(e.f)]
    return _lists[k][1]


if __name__ == "__main__":  # python3 dst/changed.py SRC: freeze the tree as it is; SRC -: print what changed
    if sys.argv[2:] == ["-"]:
        print(json.dumps(compare(sys.argv[1])))
    else:
        with open(BASE, "w", encoding="utf-8") as f:
            json.dump(freeze(sys.argv[1]), f, indent=0, sort_keys=True)
            f.write("\n")
