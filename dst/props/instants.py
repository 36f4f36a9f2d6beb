"""C09: time arguments denote instants, independent of the host's time zone and clock."""
from __future__ import annotations

import copy
import os
import time
from datetime import datetime, timedelta, timezone
from zoneinfo import ZoneInfo

from .. import catalog, changed, codec, sched
from .base import Prop, mismatch, short, sig, usable
from .ambient import clock

ZONES = ["America/New_York", "Europe/Paris", "Asia/Kolkata", "Australia/Lord_Howe", "America/St_Johns", "Pacific/Apia", "Africa/Casablanca", "Asia/Kathmandu", "Europe/London", "America/Sao_Paulo",
         "Africa/Cairo", "Asia/Tehran", "Antarctica/Troll", "Pacific/Kiritimati", "America/Caracas", "Europe/Dublin"]
# zones whose clocks jump at (or just after) midnight
MIDNIGHT = ["America/Sao_Paulo", "Africa/Cairo", "Asia/Beirut", "America/Havana", "America/Asuncion", "America/Santiago", "Asia/Amman", "Atlantic/Azores", "America/Scoresbysund"]
# instants (UTC) at or next to offset changes and leap seconds
EDGE = ["2024-11-03T05:30:00", "2024-11-03T06:00:00", "2024-11-03T06:30:00", "2024-11-03T05:59:59.999999", "2024-03-10T06:59:59.500000", "2024-03-10T07:00:00", "2024-03-10T07:00:00.400000",
        "2024-10-27T00:30:00", "2024-10-27T01:00:00", "2024-10-27T00:59:59.750000", "2024-03-31T01:00:00", "2024-03-31T00:59:59.999999", "2024-04-06T14:59:59.900000", "2024-04-06T15:00:00",
        "2016-12-31T23:59:59.999999", "2017-01-01T00:00:00", "2012-06-30T23:59:59.500000", "2012-07-01T00:00:00", "1972-01-01T00:00:00", "1971-12-31T23:59:59", "1999-01-01T00:00:00", "2000-01-01T12:00:00",
        "2011-12-30T09:59:59.600000", "2011-12-30T10:00:00", "1970-01-01T00:00:00", "1969-12-31T23:59:59", "2000-02-29T00:00:00", "2100-02-28T23:59:59", "2000-03-01T00:00:00", "2038-01-19T03:14:08"]
GAPS = [("America/New_York", "2024-03-10T02:30:00"), ("America/New_York", "2024-03-10T02:00:00"), ("Europe/Paris", "2024-03-31T02:15:00"), ("Australia/Lord_Howe", "2024-10-06T02:10:00"), ("Pacific/Apia", "2011-12-30T12:00:00")]
STR_OK = {"azelradec:azel2radec", "azelradec:radec2azel", "vallado:azel2radec", "vallado:radec2azel", "sidereal:datetime2sidereal", "sidereal:datetime2sidereal_vallado"}
LIST_OK = {"sidereal:datetime2sidereal", "sidereal:juliandate"}
HOSTTZ = ["America/New_York", "Asia/Kolkata", "Europe/Paris", "XYZ-5:17", "Australia/Lord_Howe", "EST5EDT", "UTC", "Pacific/Apia"]
TENT = [e for e in catalog.ENTRIES if e.has("T")]


def set_tz(z):
    os.environ["TZ"] = z
    time.tzset()


def transition(rng, z, year=None):
    """an instant (naive UTC) at which zone z changes its offset, near the given year"""
    zi = ZoneInfo(z)

    def off(t):
        return t.replace(tzinfo=timezone.utc).astimezone(zi).utcoffset()

    y = year if year is not None and 1971 < year < 2037 else rng.randint(1972, 2037)
    for _ in range(4):
        ts = [datetime(y, 1, 1) + timedelta(days=14 * i) for i in range(27)]
        os_ = [off(t) for t in ts]
        ch = [i for i in range(26) if os_[i] != os_[i + 1]]
        if ch:
            i = rng.choice(ch)
            lo, hi, o0 = ts[i], ts[i + 1], os_[i]
            while hi - lo > timedelta(seconds=1):
                mid = lo + timedelta(seconds=int((hi - lo).total_seconds()) // 2)
                if off(mid) == o0:
                    lo = mid
                else:
                    hi = mid
            return hi
        y = rng.randint(1972, 2037)
    return datetime(y, 7, 1)


def host_edge(rng):
    """a zone for the host, and a time that its clocks skip or repeat"""
    z = rng.choice(MIDNIGHT if rng.random() < 0.5 else ZONES)
    t = transition(rng, z)
    t0 = t - timedelta(seconds=1)
    zi = ZoneInfo(z)
    before = t + t0.replace(tzinfo=timezone.utc).astimezone(zi).utcoffset()  # what local clocks would show without the change
    after = t + t.replace(tzinfo=timezone.utc).astimezone(zi).utcoffset()
    lo, hi = min(before, after), max(before, after)
    if rng.random() < 0.4:
        return z, lo
    return z, lo + timedelta(seconds=rng.randint(0, max(1, int((hi - lo).total_seconds()))))


def pick_base(rng):
    x = rng.random()
    if x < 0.35:
        return datetime.fromisoformat(rng.choice(EDGE)) + timedelta(microseconds=rng.choice([0, 0, 0, 250000, -250000, 499999, 1]))
    if x < 0.55:  # next to a change of some zone's offset
        d = rng.choice([0, 0, -1, 1, -0.5, 0.25, -30, -60, 60, 1800, -1800, 3599, -3600, 7200, -36000, 36000])
        return transition(rng, rng.choice(ZONES)) + timedelta(seconds=d)
    if x < 0.65:  # a midnight, a full hour or minute: short forms exist
        return datetime(rng.randint(1972, 2037), rng.randint(1, 12), rng.randint(1, 28), *rng.choice([(0, 0, 0), (0, 0, 0), (rng.randint(0, 23), 0, 0), (rng.randint(0, 23), rng.randint(0, 59), 0)]))
    b = datetime(rng.randint(1972, 2037), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.choice([0, 0, 500000, rng.randint(0, 999999)]))
    if rng.random() < 0.1:
        b = b.replace(year=rng.choice([1850, 1905, 1950, 2090, 2300]))
    return b


def zoned(base, z, wrap=False):
    loc = base.replace(tzinfo=timezone.utc).astimezone(ZoneInfo(z))
    r = {"t": "dt", "v": loc.replace(tzinfo=None, fold=0).isoformat(), "tz": "w:" + z if wrap else z}
    if loc.fold:
        r["fold"] = 1
    return r


def iso_forms(rng, b):
    s = b.isoformat()
    out = [s, s + "Z", (b + timedelta(minutes=330)).isoformat() + "+05:30", b.isoformat(" "), s + "+00:00", (b - timedelta(minutes=480)).isoformat() + "-08:00", (b + timedelta(seconds=3601)).isoformat() + "+01:00:01"]
    if b.microsecond:
        out += [s.replace(".", ","), b.strftime("%Y%m%dT%H%M%S.") + "%06d" % b.microsecond]
    else:
        out += [b.strftime("%Y%m%dT%H%M%S"), s + ".000", s + ".000000Z"]
        if b.second == 0:
            out += [s[:16], s[:16] + "Z", b.strftime("%Y%m%dT%H%MZ")]
            if b.minute == 0:
                out += [s[:13], s[:13] + "+00"]
                if b.hour == 0:
                    y, w, d = b.isocalendar()
                    out += [s[:10], s[:10], s[:10], b.strftime("%Y%m%d"), "%04d-W%02d-%d" % (y, w, d)]
    return rng.choice(out)


def rep(rng, base, cfg, str_ok):
    """some representation of an instant"""
    k = rng.random()
    if k < 0.33:
        return zoned(base, rng.choice(ZONES), rng.random() < 0.15)
    if k < 0.46:
        m = rng.choice([330, -300, 0, 845, -719, 5.5, 0.25, 1439, -1439])
        return {"t": "dt", "v": (base + timedelta(minutes=m)).isoformat(), "tz": m}
    if k < 0.54:
        return {"t": "dt", "v": base.isoformat(), "tz": "utc"}
    if k < 0.61 and cfg != "ap":
        return {"t": "dt", "v": base.isoformat(), "tz": "none", "fold": rng.choice([0, 1])}
    if k < 0.66:
        return {"t": "dt", "v": base.isoformat(), "fold": 1}
    if k < 0.7:
        r = zoned(base, rng.choice(ZONES)) if rng.random() < 0.5 else {"t": "dt", "v": base.isoformat()}
        return dict(r, cls="sub")
    if k < 0.84 and str_ok:
        return iso_forms(rng, base)
    if k < 0.94 and str_ok and cfg != "std":
        units = ["us", "us"] + (["ns"] if 1700 < base.year < 2200 else [])
        if base.microsecond % 1000 == 0:
            units.append("ms")
        if base.microsecond == 0:
            units.append("s")
            if base.second == 0:
                units.append("m")
                if base.minute == 0:
                    units.append("h")
                    if base.hour == 0:
                        units += ["D", "D"]
        return {"t": "dt64", "v": base.isoformat(), "u": rng.choice(units)}
    return {"t": "dt", "v": base.isoformat()}


def unfold(c):
    """the fold of a datetime in a fixed-offset zone means nothing"""
    if isinstance(c, list):
        if len(c) == 4 and c[0] == "dt":
            return c[:2] + [0] + c[3:]
        return [unfold(x) for x in c]
    return c


class C09(Prop):
    id = "C09"
    corpus = False
    shim = True
    plan = [("np", 540, 2400), ("npl", 18, 60), ("std", 240, 1000), ("ap", 48, 150)]
    fault_kinds = ("host_zone_set", "host_zone_flip_during_call", "clock_jump", "representation")
    stubs = "the host's wall clock (an LD_PRELOAD shim offsets it when gcc is there) and its zone (TZ/tzset); nothing of the library"
    rule = "a run is nontrivial if at least one representation other than a naive datetime was used; distinct = distinct (call, representations, zone and clock faults)"
    assumptions = ["zone rules are those of the installed tz database", "with astropy answering, results are compared to 1e-9 relative, otherwise exactly"]
    sim_time_note = "host clock jumped over -50..+30 years, host zones flipped at statement granularity; the library itself has no timers"

    def gen(self, rng, pool, cfg, refs, tier):
        e = changed.steer(rng, TENT)
        o = catalog.gen_op(rng, cfg, entry=e, simple_time=True)
        for i, kk in enumerate(o["a"]):
            if isinstance(kk, list):
                o["a"][i] = {"t": "dt", "v": "2000-01-01T00:00:00"}
        ti = next(i for i, a in enumerate(o["a"]) if isinstance(a, dict) and a["t"] == "dt")
        reps, want = [], []
        edge = False
        tz0 = rng.choice([None] + HOSTTZ)
        x = rng.random()
        if x < 0.1:  # a skipped local time
            z, loc = rng.choice(GAPS)
            fold = rng.choice([0, 1])
            d = datetime.fromisoformat(loc).replace(tzinfo=ZoneInfo(z), fold=fold)
            base = (d.replace(tzinfo=None) - d.utcoffset())
            reps.append({"t": "dt", "v": loc, "tz": z, "fold": fold})
            want.append(base.isoformat())
        elif x < 0.25:  # the naive time is one that the host's zone skips or repeats
            tz0, base = host_edge(rng)
            edge = True
        else:
            base = pick_base(rng)
        fna = o["k"].get("force_non_astropy")
        nat = cfg != "ap" or fna or not e.has("F")
        str_ok = o["f"] in STR_OK and nat
        list_ok = o["f"] in LIST_OK and nat
        for _ in range(rng.choice([1, 2, 3, 4])):
            if list_ok and rng.random() < 0.4:
                # several instants, in one zone or in several representations, or one instant repeated
                n = rng.choice([1, 2, 2, 3, 4, 6])
                bs = [base]
                y = rng.random()
                z = rng.choice(ZONES) if y < 0.5 else None
                while len(bs) < n:
                    w = rng.random()
                    if w < 0.2:
                        bs.append(base)
                    elif w < 0.5:
                        bs.append(bs[-1] + timedelta(seconds=rng.choice([1, 1800, 3600, 5400, 86400, 86400 * 182, -86400 * 91])))
                    elif w < 0.75 and z:
                        bs.append(transition(rng, z, base.year) + timedelta(seconds=rng.choice([-1, 0, -3600, 1800, -86400, 86400 * 30])))
                    else:
                        bs.append(pick_base(rng))
                bs = [b if 1 < b.year < 9000 else base for b in bs]
                if z:
                    r = [zoned(b, z) for b in bs]
                else:
                    r = [rep(rng, b, cfg, o["f"] in STR_OK) for b in bs]
                if rng.random() < 0.3:
                    r = {"t": "tuple", "v": r}
                reps.append(r)
                want.append([b.isoformat() for b in bs])
            else:
                reps.append(iso_forms(rng, base) if edge and str_ok and rng.random() < 0.6 else rep(rng, base, cfg, str_ok))
                want.append(base.isoformat())
        naive = copy.deepcopy(o)
        naive["a"][ti] = {"t": "dt", "v": base.isoformat()}
        sc = {"op": naive, "ti": ti, "reps": reps, "want": want, "tz0": tz0, "faults": []}
        if not all(usable(refs, q, max_steps=8000) for q in self.ref_ops(sc)):
            return None
        n = max(1, refs.get(naive)["steps"])
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            f = [rng.randrange(len(reps)), rng.randint(1, n)]
            f.append(rng.choice([{"tz": rng.choice(HOSTTZ)}, {"tz": rng.choice(HOSTTZ)}, {"clock": rng.choice([-1500000000, 900000000, 3600, -3600, -1, 86400 * 200])}]))
            sc["faults"].append(f)
        if rng.random() < 0.2:
            sc["clock0"] = rng.choice([-1500000000, 900000000, -1, 3600])
        return sc

    def at(self, sc, iso):
        op = dict(sc["op"], a=list(sc["op"]["a"]))
        op["a"][sc["ti"]] = {"t": "dt", "v": iso}
        return op

    def ref_ops(self, sc):
        seen = []
        for w in sc["want"]:
            for x in w if isinstance(w, list) else [w]:
                if x not in seen:
                    seen.append(x)
        return [self.at(sc, x) for x in seen]

    def shrink(self, sc):
        for i in range(len(sc["reps"])):
            if len(sc["reps"]) > 1:
                s = copy.deepcopy(sc)
                del s["reps"][i]
                del s["want"][i]
                s["faults"] = [[f[0] - (f[0] > i), f[1], f[2]] for f in s["faults"] if f[0] != i]
                yield s
        for i in range(len(sc["faults"])):
            s = copy.deepcopy(sc)
            del s["faults"][i]
            yield s
        for i, w in enumerate(sc["want"]):
            if isinstance(w, list) and len(w) > 1:
                for j in range(len(w)):
                    s = copy.deepcopy(sc)
                    r = s["reps"][i]
                    del (r["v"] if isinstance(r, dict) else r)[j]
                    del s["want"][i][j]
                    yield s
        for k in ("tz0", "clock0"):
            if sc.get(k) is not None:
                s = copy.deepcopy(sc)
                s[k] = None
                yield s

    def execute(self, sc, refs):
        st = {k: 0 for k in self.fault_kinds}
        st.update(steps=0, calls=0)
        res = {"viol": None, "st": st, "sig": sig(sc), "nontrivial": len(sc["reps"]) > 0}
        f = codec.resolve(sc["op"]["f"])
        c = clock()
        if sc["tz0"]:
            set_tz(sc["tz0"])
            st["host_zone_set"] += 1
        if sc.get("clock0") and c:
            c["sim_offset_ns"].value = sc["clock0"] * 10**9
            st["clock_jump"] += 1
        for i, r in enumerate(sc["reps"]):
            op = dict(sc["op"], a=list(sc["op"]["a"]))
            op["a"][sc["ti"]] = r
            a, k = codec.op_args(op)
            todo = {x[1]: x[2] for x in sc["faults"] if x[0] == i}

            def hook(step, frame):
                q = todo.pop(step, None)
                if q is not None:
                    if "tz" in q:
                        set_tz(q["tz"])
                        st["host_zone_flip_during_call"] += 1
                    elif c:
                        c["sim_offset_ns"].value = q["clock"] * 10**9
                        st["clock_jump"] += 1

            tr = sched.SoloTracer(hook=hook, limit=400000)
            with tr:
                got = codec.outcome(f, a, k)
            st["steps"] += tr.steps
            st["calls"] += 1
            st["representation"] += 1
            w = sc["want"][i]
            if isinstance(w, list):
                w = [refs[codec.key(self.at(sc, y))]["out"] for y in w]
                bad = [y for y in w if isinstance(y, list) and y[:1] == ["exc"]]
                w = bad[0] if bad else ["L"] + w  # one of the instants is rejected: the list is
            else:
                w = refs[codec.key(self.at(sc, w))]["out"]
            got, w = unfold(got), unfold(w)
            ok = codec.close(got, w, 1e-9, 1e-6) if sc["cfg"] == "ap" else codec.same(got, w)
            if not ok:
                res["viol"] = {"kind": "mismatch", "func": op["f"], "detail": "%s gave %s, the same instant(s) as naive UTC (%s) gives %s; host TZ %s, clock offset %s, faults %s" % (
                    short(op), codec.key(got)[:250], sc["want"][i], codec.key(w)[:250], os.environ.get("TZ"), sc.get("clock0"), [x for x in sc["faults"] if x[0] == i])}
                return res
        return res
