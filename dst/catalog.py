"""The public API as generators of operations.

Each entry: "module:function | arg kinds | flags".  flags: D deg flag, E ellipsoid kw, N needs numpy for
arrays only, V array-capable (elementwise), S scalar only, T takes time, U delta_ut1, P polar motion,
F force_non_astropy flag, R(args rng)...
Nothing here imports the library.
"""
from __future__ import annotations

import copy
import math
import random

from . import changed

# kinds: lat lon alt az el rng m pos3 vel3 nv3 hdg ang ypr seq frame time jd lonr frac dist npts
TABLE = """
aer:ecef2aer|pos3 lat lon alt|V D E
aer:aer2ecef|az el rng lat lon alt|V D E
aer:geodetic2aer|lat lon alt lat lon alt|V D E
aer:aer2geodetic|az el rng lat lon alt|V D E
aer:eci2aer|pos3 lat lon alt time|T D U P t7
aer:aer2eci|az el rng lat lon alt time|T D E U P
azelradec:azel2radec|az el lat lon time|T F U
azelradec:radec2azel|az el lat lon time|T F U
vallado:azel2radec|az el lat lon time|T U
vallado:radec2azel|az el lat lon time|T U
body:body_matrix|yaw pitch roll|D Q
body:ned2body_matrix|yaw pitch roll|D Q
body:body2ned_matrix|yaw pitch roll|D Q
body:enu2body_matrix|yaw pitch roll|D Q
body:body2enu_matrix|yaw pitch roll|D Q
body:sez2body_matrix|yaw pitch roll|D Q
body:body2sez_matrix|yaw pitch roll|D Q
body:nwu2body_matrix|yaw pitch roll|D Q
body:body2nwu_matrix|yaw pitch roll|D Q
body:ned2body|m m m yaw pitch roll|V D Q
body:body2ned|m m m yaw pitch roll|V D Q
body:enu2body|m m m yaw pitch roll|V D Q
body:body2enu|m m m yaw pitch roll|V D Q
body:sez2body|m m m yaw pitch roll|V D Q
body:body2sez|m m m yaw pitch roll|V D Q
body:nwu2body|m m m yaw pitch roll|V D Q
body:body2nwu|m m m yaw pitch roll|V D Q
body:ecef2body|pos3 lat lon alt yaw pitch roll|V D E Q B
body:body2ecef|m m m lat lon alt yaw pitch roll|V D E Q B
body:ecef2bodyv|vel3 lat lon yaw pitch roll|V D Q B
body:body2ecefv|vel3 lat lon yaw pitch roll|V D Q B
body:geodetic2body|lat lon alt lat lon alt yaw pitch roll|V D E Q B
body:body2geodetic|m m m lat lon alt yaw pitch roll|V D E Q B
dca:enu2dca|m m m hdg|V D
dca:dca2enu|m m m hdg|V D
dca:ned2dca|m m m hdg|V D
dca:dca2ned|m m m hdg|V D
dca:ecef2dca|pos3 lat lon alt hdg|V D E
dca:dca2ecef|m m m lat lon alt hdg|V D E
dca:geodetic2dca|lat lon alt lat lon alt hdg|V D E
dca:dca2geodetic|m m m lat lon alt hdg|V D E
dca:aer2dca|az el rng hdg|V D
dca:dca2aer|m m m hdg|V D
earth_orientation:juliandate|time|T
earth_orientation:leap_seconds|time|T
earth_orientation:utc_to_tt|time|T
earth_orientation:ensure_utc|time|T
earth_orientation:eci_to_ecef_matrix|time|T U P
earth_orientation:eci_to_ecef_matrix_rate|time|T U P
earth_orientation:greenwich_mean_sidereal_time|jd|
earth_orientation:greenwich_apparent_sidereal_time|jd jd|
earth_orientation:earth_rotation_angle|jd|
earth_orientation:nutation_short|frac|
earth_orientation:precession_matrix|frac|
earth_orientation:nutation_matrix|frac|
earth_orientation:polar_motion_matrix|frac frac|
ecef:geodetic2ecef|lat lon alt|V D E W3
ecef:ecef2geodetic|pos3|V D E W3
ecef:ecef2enu|pos3 lat lon alt|V D E
ecef:enu2ecef|m m m lat lon alt|V D E
ecef:ecef2enuv|vel3 lat lon|V D
ecef:enu2uvw|m m m lat lon|V D
ecef:uvw2enu|m m m lat lon|V D
ecef:eci2geodetic|pos3 time|T D E U P
ecef:geodetic2eci|lat lon alt time|T D E U P
eci:eci2ecef|pos3 time|T U P F A
eci:ecef2eci|pos3 time|T U P F A
eci:eci2ecef_state|pos3 vel3 time|T U P F A
eci:ecef2eci_state|pos3 vel3 time|T U P F A
ellipsoid:Ellipsoid.from_name|ellname|
ellipsoid:Ellipsoid|ella ellb|
enu:enu2aer|m m m|V D W2
enu:aer2enu|az el rng|V D
enu:enu2geodetic|m m m lat lon alt|V D E
enu:geodetic2enu|lat lon alt lat lon alt|V D E
enu:enu2ecefv|vel3 lat lon|V D
enu:ecef2enu_matrix|lat lon|D
enu:enu2ecef_matrix|lat lon|D
ned:aer2ned|az el rng|V D
ned:ned2aer|m m m|V D
ned:ned2geodetic|m m m lat lon alt|V D E
ned:ned2ecef|m m m lat lon alt|V D E
ned:ecef2ned|pos3 lat lon alt|V D E
ned:geodetic2ned|lat lon alt lat lon alt|V D E
ned:ecef2nedv|vel3 lat lon|V D
ned:ecef2ned_matrix|lat lon|D
ned:ned2ecef_matrix|lat lon|D
nwu:aer2nwu|az el rng|V D
nwu:nwu2aer|m m m|V D
nwu:nwu2geodetic|m m m lat lon alt|V D E
nwu:nwu2ecef|m m m lat lon alt|V D E
nwu:nwu2ecefv|vel3 lat lon|V D
nwu:ecef2nwu|pos3 lat lon alt|V D E
nwu:ecef2nwuv|vel3 lat lon|V D
nwu:geodetic2nwu|lat lon alt lat lon alt|V D E
nwu:ecef2nwu_matrix|lat lon|D
nwu:nwu2ecef_matrix|lat lon|D
sez:aer2sez|az el rng|V D
sez:sez2aer|m m m|V D
sez:sez2geodetic|m m m lat lon alt|V D E
sez:sez2ecef|m m m lat lon alt|V D E
sez:sez2ecefv|vel3 lat lon|V D
sez:ecef2sez|pos3 lat lon alt|V D E
sez:ecef2sezv|vel3 lat lon|V D
sez:geodetic2sez|lat lon alt lat lon alt|V D E
sez:ecef2sez_matrix|lat lon|D
sez:sez2ecef_matrix|lat lon|D
haversine:anglesep|lon lat lon lat|V D F
haversine:anglesep_meeus|lon lat lon lat|V D
haversine:haversine|ang|V
karney:geodesic_inverse|lat lon lat lon|D E W3 G
karney:geodesic_direct|lat lon az dist|D E W3 G
karney:geodesic_line|lat lon lat lon|D E W2 G K
karney:geodesic_area|latl lonl|D E W3 G
latitude:geodetic2isometric|lat|V D E W2
latitude:isometric2geodetic|isolat|V D E
latitude:geodetic2rectifying|lat|V D E
latitude:rectifying2geodetic|lat|V D E
latitude:geodetic2conformal|lat|V D E W3
latitude:conformal2geodetic|lat|V D E
latitude:geodetic2parametric|lat|V D E
latitude:parametric2geodetic|lat|V D E
latitude:geodetic2geocentric|lat alt|V D E
latitude:geocentric2geodetic|lat alt|V D E
latitude:geodetic2authalic|lat|V D E W2
latitude:authalic2geodetic|lat|V D E
latitude:geod2geoc|lat alt|V D E
latitude:geoc2geod|lat radius|V D E
los:lookAtSpheroid|lat lon alt az tilt|V D E W2
lox:loxodrome_inverse|lat lon lat lon|V D E W2
lox:loxodrome_direct|lat lon dist az|V D E W2
lox:meridian_arc|lat lat|V D E
lox:meridian_dist|lat|V D E
lox:departure|lon lon lat|V D E
lox:meanm|lata lona|D E M
nvector:geodetic2nvector|lat lon|V D
nvector:nvector2geodetic|nv3|V D
nvector:ecef2nvector|pos3|V D E
nvector:nvector2ecef|nv3 alt|V D E
nvector:nvector_distance|nv3 nv3|V C W2
nvector:nvector_interpolate|nv3 nv3 frac01|
nvector:nvector_mean|nvs|
nvector:nvector_cross_track_distance|nv3 nv3 nv3|V C W2
nvector:nvector_intersection|nv3 nv3 nv3 nv3|
rcurve:parallel|lat|V D E
rcurve:meridian|lat|V D E
rcurve:transverse|lat|V D E
rcurve:geocentric_radius|lat|V D E
rsphere:authalic||E
rsphere:biaxial||E m1
rsphere:curve|lat|V D E m1
rsphere:eqavol||E
rsphere:euler|lat lon lat lon|V D E
rsphere:rectifying||E
rsphere:triaxial||E m1
sidereal:datetime2sidereal|time lonr|T F U L
sidereal:datetime2sidereal_vallado|time lonr|T U
sidereal:juliandate|time|T L
sidereal:greenwichsrt|jd|L
spherical:geodetic2spherical|lat lon alt|V D E
spherical:spherical2geodetic|lat lon radius|V D E
timeconv:str2dt|timestr|
utils:cart2pol|m m|V
utils:pol2cart|ang rng|V
utils:cart2sph|m m m|V
utils:sph2cart|ang ang rng|V
vincenty:vdist|lat lon lat lon|V D E W3 I
vincenty:vreckon|lat lon dist az|V D E W3 I
vincenty:track2|lat lon lat lon|D E W2 K I
mathfun:cube_root|m|V
mathfun:sign|m|V
"""

ELLS = ["wgs84", "grs80", "wgs72", "clarke1866", "bessel", "wgs84_mean", "mars", "jupiter", "moon", "krassovsky1940", "hayford", "international1924"]


class Entry:
    def __init__(self, line):
        f, kinds, flags = line.split("|")
        self.f = f
        self.kinds = kinds.split()
        self.flags = set(flags.split())
        self.w = 1
        for x in list(self.flags):
            if x[0] == "W" and x[1:].isdigit():
                self.w = int(x[1:])
                self.flags.discard(x)

    def has(self, x):
        return x in self.flags


ENTRIES = [Entry(x) for x in TABLE.strip().splitlines()]
BY_F = {e.f: e for e in ENTRIES}
WEIGHTED = [e for e in ENTRIES for _ in range(e.w)]

LAT_E = [0.0, -0.0, 90.0, -90.0, 45.0, -45.0, 89.99999999, -89.99999999, 1e-9, -1e-9, 89.9, 42.0, 1e-300, 30, -30]
LON_E = [0.0, -0.0, 180.0, -180.0, 179.99999999, 90.0, -90.0, 360.0, -360.0, 359.9, 540.0, -82.0, 10]
ALT_E = [0.0, -0.0, 100.0, 1000.0, -400.0, 4.0e5, 3.6e7, 200]
AZ_E = [0.0, 90.0, 180.0, 270.0, 360.0, -90.0, 33.0, 89.99999999, 90.00000001, 45]
EL_E = [0.0, 90.0, -90.0, 45.0, -30.0, 89.9999999, 77]
RNG_E = [0.0, 1e-3, 1.0, 1000.0, 1.0e6, 5.0e7, 1]
DIST_E = [0.0, 1.0, 1e3, 1e5, 1.0e6, 5.0e6, 1.0e7, 1.9e7, 1e-3]
M_E = [0.0, -0.0, 1e-4, -1e-4, 1e-3, 1.0, -1.0, 186.277521, 1e3, -2e5, 5]
ANG_E = [0.0, 30.0, -30.0, 90.0, 180.0, -180.0, 12.5, 359.0]
ANGLE_KINDS = {"lat", "lon", "az", "el", "hdg", "ang", "yaw", "pitch", "roll", "tilt", "isolat", "latl", "lonl", "lata", "lona"}
TIMES = ["2013-01-15T12:00:05", "2016-12-31T23:59:59.500000", "2017-01-01T00:00:00", "2000-01-01T12:00:00", "1999-12-31T23:59:59.999999",
         "2020-02-29T06:30:15.250000", "2024-11-03T05:30:00", "2024-03-10T07:00:00", "1970-01-01T00:00:00", "2012-06-30T23:59:59", "2012-07-01T00:00:00",
         "1980-01-06T00:00:00", "2035-08-17T03:04:05.678901"]


def r6(rng, a, b):
    return round(rng.uniform(a, b), 6)


def g(rng, edges, lo, hi, pe=0.45):
    return rng.choice(edges) if rng.random() < pe else r6(rng, lo, hi)


def gen_kind(rng, kind):
    """list of scalar values (1 for simple kinds, 3 for triples), degrees for angles"""
    if kind == "lat":
        return [g(rng, LAT_E, -89, 89)]
    if kind == "lon":
        return [g(rng, LON_E, -180, 180)]
    if kind == "alt":
        return [g(rng, ALT_E, -500, 50000)]
    if kind in ("az", "hdg"):
        return [g(rng, AZ_E, 0, 360)]
    if kind == "el":
        return [g(rng, EL_E, -89, 89)]
    if kind == "tilt":
        return [g(rng, [0.0, 90.0, 45.0, 30.0, 89.0, 100.0, 180.0], 0, 80)]
    if kind == "rng":
        return [g(rng, RNG_E, 1, 1e6)]
    if kind == "dist":
        return [g(rng, DIST_E, 1, 1.5e7)]
    if kind == "radius":
        return [g(rng, [6378137.0, 6356752.0, 6.4e6, 7e6], 6.3e6, 8e6)]
    if kind == "m":
        return [g(rng, M_E, -5e5, 5e5)]
    if kind == "vel3":
        return [r6(rng, -8e3, 8e3) for _ in range(3)]
    if kind == "pos3":
        x = rng.random()
        if x < 0.6:
            la, lo = math.radians(g(rng, LAT_E, -89, 89, 0.3)), math.radians(g(rng, LON_E, -180, 180, 0.3))
            r = 6371000.0 + rng.choice([0.0, 8e3, 1e3, -3e3, 4e5, 3.6e7])
            return [round(r * math.cos(la) * math.cos(lo), 3), round(r * math.cos(la) * math.sin(lo), 3), round(r * math.sin(la), 3)]
        if x < 0.68:  # near the centre and on the axis
            return [rng.choice([0.0, 1.0, 1e-9, 1000.0, -0.0]), rng.choice([0.0, 0.0, 1.0]), rng.choice([0.0, 0.0, -0.0, 1e-300, 1.0, 6356752.5, -6e6])]
        if x < 0.85:
            return [rng.choice([0.0, 6378137.0, -6378137.0, 6356752.314, 1.0, 1e6, -0.0, 3e6]) for _ in range(3)]
        return [r6(rng, -7e6, 7e6) for _ in range(3)]
    if kind == "nv3":
        la, lo = math.radians(g(rng, LAT_E, -89, 89, 0.3)), math.radians(g(rng, LON_E, -180, 180, 0.3))
        return [math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)]
    if kind in ("ang", "yaw", "pitch", "roll"):
        return [g(rng, ANG_E, -180, 180)]
    if kind == "isolat":
        return [g(rng, [0.0, 10.0, -60.0, 180.0, 500.0], -200, 200)]
    if kind in ("ella", "ellb"):
        return [g(rng, [6378137.0, 6356752.31424518, 6378137.5, 1.0, 6.0e6, 6378137, 3396190.0], 6.3e6, 6.5e6)]
    if kind == "frac":
        return [g(rng, [0.0, 1.0, 0.1, -0.2], -1, 1)]
    if kind == "frac01":
        return [g(rng, [0.0, 1.0, 0.5], 0, 1)]
    if kind == "jd":
        return [g(rng, [2451545.0, 2457754.5, 2451544.5], 2440000, 2470000)]
    if kind == "lonr":
        return [g(rng, [0.0, 1.0, -3.0, 3.14159], -3.14, 3.14)]
    raise ValueError(kind)


def nvals(kind):
    return 3 if kind in ("pos3", "vel3", "nv3") else 1


def gen_time(rng, simple=False):
    base = rng.choice(TIMES) if rng.random() < 0.7 else "%04d-%02d-%02dT%02d:%02d:%02d.%06d" % (
        rng.randint(1975, 2045), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.randint(0, 999999))
    tz = None if simple or rng.random() < 0.5 else rng.choice(["utc", 330, -300, "America/New_York", "Europe/Paris", "Asia/Kolkata", "Australia/Lord_Howe"])
    d = {"t": "dt", "v": base}
    if tz is not None:
        d["tz"] = tz
        if rng.random() < 0.3:
            d["fold"] = 1
    return d


def gen_ell(rng, rich=True):
    x = rng.random()
    if x < 0.4:
        return None
    if x < 0.75 or not rich:
        return {"t": "ell", "n": rng.choice(ELLS)}
    a = rng.choice([6378137.0, 6378388.0, 6.0e6, 1.0, 3396900.0, 6378137.5])
    fl = rng.choice([0.0, 1 / 298.257223563, 1 / 150.0, 0.0648744, 1 / 298.25])
    nm = rng.choice(["", "wgs84", "WGS-84 (1984)", "custom"])
    d = {"t": "ellc", "a": a, "b": a * (1 - fl)}
    if nm:
        d["name"] = nm
        d["model"] = rng.choice(["", "wgs84", nm])
    return d


def gen_op(rng, cfg="np", entry=None, arrays=None, simple_time=False, maxn=5):
    e = entry or changed.steer(rng, WEIGHTED)
    deg = True
    if e.has("D"):
        deg = rng.random() < 0.75
    np_ok = cfg != "std"
    vec = False
    if e.has("V") and np_ok:
        vec = arrays if arrays is not None else rng.random() < 0.4
    args = []
    rowsn = rng.choice([1, 2, 3, 3, maxn]) if vec else 0
    shape2 = vec and rowsn == 4
    nk = len(e.kinds)
    mixed = vec and nk >= 4 and rng.random() < 0.5  # observer scalar, target arrays
    done3 = ring = j = 0
    for idx, kind in enumerate(e.kinds):
        if kind == "time":
            if e.has("L") and rng.random() < 0.25:
                args.append([gen_time(rng, simple_time) for _ in range(rng.choice([1, 2, 3]))])
            else:
                args.append(gen_time(rng, simple_time))
            continue
        if kind == "jd" and e.has("L") and rng.random() < 0.4:
            args.append([gen_kind(rng, "jd")[0] for _ in range(rng.choice([1, 2, 4]))])
            continue
        if kind == "timestr":
            x = rng.random()
            if np_ok and x < 0.3:
                args.append({"t": "dt64", "v": [rng.choice(TIMES) for _ in range(rng.choice([1, 2, 3]))]})
            else:
                args.append(rng.choice([rng.choice(TIMES), gen_time(rng)]))
            continue
        if kind == "ellname":
            args.append(rng.choice(ELLS))
            continue
        if kind in ("latl", "lonl", "lata", "lona"):
            n = 4
            if kind == "latl":
                n = rng.choice([3, 4, 5])
                e_n = n
            vals = [gen_kind(rng, "lat" if kind[:3] == "lat" else "lon")[0] for _ in range(args_len(args) or n)]
            if not deg:
                vals = [math.radians(v) for v in vals]
            if kind[-1] == "l":
                if kind == "latl":  # a ring given closed, or with a vertex given twice
                    ring = rng.choice([0, 0, 0, 0, 0, 1, 1, 2])
                j = rng.randrange(len(vals)) if ring == 2 and kind == "latl" else j if ring == 2 else 0
                if ring == 1:
                    vals[-1] = vals[0]
                elif ring == 2:
                    vals[j] = vals[j - 1]
            args.append({"t": "arr", "v": [float(v) for v in vals]} if kind[-1] == "a" else vals)
            continue
        if kind == "nvs":
            k = rng.choice([2, 3, 4])
            cols = list(zip(*[gen_kind(rng, "nv3") for _ in range(k)]))
            args += [list(c) for c in cols]
            continue
        nv = nvals(kind)
        use_arr = vec and not (mixed and done3 >= 3)
        if e.has("A") and np_ok and rng.random() < 0.3:
            use_arr = True
            rowsn = rowsn or rng.choice([1, 2, 3])
        if use_arr:
            rows = [gen_kind(rng, kind) for _ in range(rowsn)]
            cols = [[r[c] for r in rows] for c in range(nv)]
            for c in cols:
                c = [conv(kind, x, deg) for x in c]
                args.append({"t": "arr", "v": [float(x) for x in c]})
        else:
            for x in gen_kind(rng, kind):
                args.append(conv(kind, x, deg))
        done3 += nv
    if e.has("A"):  # all or nothing arrays
        n = next((len(a["v"]) for a in args if isinstance(a, dict) and a["t"] == "arr"), None)
        if n is not None:
            args = [a if isinstance(a, dict) else {"t": "arr", "v": [float(a)] * n} for a in args]
    degenerate_pairs(rng, e, args, deg)
    k = {}
    if e.has("D") and not deg:
        k["deg"] = False
    if e.has("E"):
        el = gen_ell(rng)
        if el is not None:
            k["ell"] = el
    if e.has("Q") and rng.random() < 0.12:
        k["sequence"] = rng.choice(["zyx", "xyz", "zxy", "yxz"])
    if e.has("B") and rng.random() < 0.5:
        k["frame"] = rng.choice(["ned", "enu", "nwu", "sez"])
    if e.has("K"):
        k["npts"] = rng.choice([2, 3, 4, 5])
    if e.has("U") and rng.random() < 0.4:
        k["delta_ut1"] = rng.choice([0.0, 0.334, -0.5, 0.9])
    if e.has("P") and rng.random() < 0.3:
        k["xp"], k["yp"] = rng.choice([(0.1, 0.2), (0.0, 0.3), (-0.4, 0.1)])
    if e.has("F") and rng.random() < 0.4:
        k["force_non_astropy"] = True
    if e.has("m1") and rng.random() < 0.5:
        k["method"] = rng.choice(["mean", "norm"])
    if e.has("C") and rng.random() < 0.4:
        k["radius"] = rng.choice([6371000.0, 1.0, 3396190.0])
    if vec and rng.random() < 0.25 and np_ok:
        lay = rng.choice(["F", "strided", "neg", "ro", "f4", "2d"])
        for a in args:
            if isinstance(a, dict) and a["t"] == "arr":
                if lay == "f4":
                    a["dt"] = "f4"
                elif lay == "2d":
                    if len(a["v"]) % 2 == 0:
                        h = len(a["v"]) // 2
                        a["v"] = [a["v"][:h], a["v"][h:]]
                else:
                    a["lay"] = lay
    if not vec and np_ok and rng.random() < 0.1:
        args = [{"t": "np", "v": a} if isinstance(a, float) else a for a in args]
    return {"f": e.f, "a": args, "k": k}


def degenerate_pairs(rng, e, args, deg):
    """two-point functions: make some point pairs coincident, antipodal, same-meridian, equatorial, polar"""
    pats = {("lat", "lon", "lat", "lon"): (0, 1, 2, 3), ("lon", "lat", "lon", "lat"): (1, 0, 3, 2)}
    ix = pats.get(tuple(e.kinds[:4]))
    if ix is None or rng.random() > 0.4:
        return
    la1, lo1, la2, lo2 = ix
    half = 180.0 if deg else math.pi

    def one(get, put):
        x = rng.random()
        lat, lon = get(la1), get(lo1)
        if x < 0.3:
            put(la2, lat), put(lo2, lon)
        elif x < 0.5:
            put(la2, -lat), put(lo2, lon + half if lon <= 0 else lon - half)
        elif x < 0.65:
            put(la2, -lat + half / 180 * rng.choice([0.1, 0.01, 0.5, -0.2])), put(lo2, lon + half * rng.choice([0.999, 0.9995, -0.9990]))
        elif x < 0.75:
            put(lo2, lon)
        elif x < 0.88:
            put(la1, 0.0), put(la2, 0.0)
        else:
            put(la2, half / 2)

    a = [args[i] for i in ix]
    if all(isinstance(v, (int, float)) for v in a):
        def put(i, v):
            args[i] = v
        one(lambda i: args[i], put)
    elif all(isinstance(v, dict) and v["t"] == "arr" and not isinstance(v["v"][0], list) for v in a):
        for j in range(len(a[0]["v"])):
            if rng.random() < 0.6:
                def put(i, v, j=j):
                    args[i]["v"][j] = v
                one(lambda i, j=j: args[i]["v"][j], put)


def args_len(args):
    for a in args:
        if isinstance(a, dict) and a.get("t") == "arr":
            return len(a["v"])
        if isinstance(a, list):
            return len(a)
    return None


def conv(kind, x, deg):
    if not deg and kind in ANGLE_KINDS:
        return math.radians(x)
    return x


# -------------------------------------------------------------------- siblings
def is_flat(a):
    """an array argument whose values are a plain list of numbers"""
    return isinstance(a, dict) and a["t"] == "arr" and bool(a["v"]) and not isinstance(a["v"][0], list)


def _num_slots(op):
    out = []
    for i, a in enumerate(op["a"]):
        if isinstance(a, (int, float)) and not isinstance(a, bool):
            out.append(("a", i, None))
        elif isinstance(a, dict) and a["t"] == "np":
            out.append(("a", i, "v"))
        elif is_flat(a):
            for j in range(len(a["v"])):
                out.append(("arr", i, j))
        elif isinstance(a, list):
            for j in range(len(a)):
                if isinstance(a[j], (int, float)):
                    out.append(("list", i, j))
    return out


def _get(op, s):
    w, i, j = s
    a = op["a"][i]
    if w == "a":
        return a if j is None else a["v"]
    return a["v"][j] if w == "arr" else a[j]


def _set(op, s, v):
    w, i, j = s
    if w == "a":
        if j is None:
            op["a"][i] = v
        else:
            op["a"][i]["v"] = v
    elif w == "arr":
        op["a"][i]["v"][j] = v
    else:
        op["a"][i][j] = v


ODD = (TypeError, ValueError, OverflowError, KeyError, IndexError, AttributeError)


def sibling(rng, op, cfg="np"):
    """an operation that differs from op in one small way"""
    try:
        return _sibling(rng, op, cfg)
    except ODD:  # an operation with arguments of unexpected types
        return copy.deepcopy(op)


def spread(rng, op, n):
    """n operations like op, at n different places: what fills a bounded store"""
    res = []
    for i in range(1, n + 1):
        o = copy.deepcopy(op)
        for s in _num_slots(o):
            v = _get(o, s)
            if isinstance(v, float) and math.isfinite(v) and rng.random() < 0.9:
                _set(o, s, v * (1 - 0.001 * i) if v and rng.random() < 0.5 else v + rng.choice([-1, 1]) * 0.25 * i * (abs(v) + 0.5) / 64)
        res.append(fix_area(o))
    return res


def _sibling(rng, op, cfg):
    o = copy.deepcopy(op)
    e = BY_F[o["f"]]
    slots = _num_slots(o)
    for _ in range(6):
        m = rng.randrange(13)
        if m <= 3 and slots:
            s = rng.choice(slots)
            v = _get(o, s)
            nv = rng.choice([v + 1e-9, v + 1e-7, v * (1 + 1e-12), v + 1e-4, v + 0.5, -v, v + 360.0, v - 360.0, v + 1.0, v / 2.0])
            _set(o, s, nv)
        elif m == 4 and e.has("D"):
            if o["k"].get("deg", True):
                o["k"]["deg"] = False
            else:
                o["k"].pop("deg", None)
        elif m in (5, 6) and e.has("E"):
            el = gen_ell(rng)
            if el is None:
                o["k"].pop("ell", None)
            else:
                o["k"]["ell"] = el
        elif m == 7 and len(slots) >= 2:
            s1, s2 = rng.sample(slots, 2)
            v1, v2 = _get(o, s1), _get(o, s2)
            _set(o, s1, v2)
            _set(o, s2, v1)
        elif m == 8 and slots:
            s = rng.choice(slots)
            v = _get(o, s)
            if isinstance(v, (int, float)) and math.isfinite(v) and v == int(v) and abs(v) < 1e9 and s[0] != "arr":
                _set(o, s, int(v) if isinstance(v, float) else float(v))
            elif s[0] == "a" and s[2] is None and cfg != "std":
                o["a"][s[1]] = {"t": "np", "v": float(v)}
            else:
                continue
        elif m == 9:
            alts = [x for x in ENTRIES if x.kinds == e.kinds and x.f != e.f and x.has("V") == e.has("V")]
            if not alts:
                continue
            x = rng.choice(alts)
            o["f"] = x.f
            o["k"] = {kk: vv for kk, vv in o["k"].items() if (kk == "deg" and x.has("D")) or (kk == "ell" and x.has("E")) or (kk == "npts" and x.has("K"))
                      or (kk == "sequence" and x.has("Q")) or (kk == "frame" and x.has("B")) or (kk == "delta_ut1" and x.has("U")) or (kk in ("xp", "yp") and x.has("P"))
                      or (kk == "force_non_astropy" and x.has("F")) or (kk == "method" and x.has("m1")) or (kk == "radius" and x.has("C"))}
            if x.has("K"):
                o["k"].setdefault("npts", 3)
        elif m == 10 and e.has("T"):
            for a in o["a"]:
                if isinstance(a, dict) and a["t"] == "dt":
                    a.update(gen_time(rng) if rng.random() < 0.5 else {})
                    if rng.random() < 0.5:
                        a["tz"] = rng.choice([330, -300, "utc", "America/New_York"])
                    else:
                        a.pop("tz", None)
        elif m == 11 and (e.has("U") or e.has("P") or e.has("F")):
            if e.has("U"):
                o["k"]["delta_ut1"] = rng.choice([0.0, 0.1, -0.3])
            if e.has("F") and rng.random() < 0.5:
                o["k"]["force_non_astropy"] = not o["k"].get("force_non_astropy", False)
        elif m == 12 and any(isinstance(a, dict) and a["t"] == "arr" for a in o["a"]):
            arrs = [a for a in o["a"] if isinstance(a, dict) and a["t"] == "arr"]
            n = len(arrs[0]["v"])
            how = rng.choice(["dup", "drop", "rev", "dt"])
            for a in arrs:
                if how != "rev" and how != "dt":
                    a.pop("shape", None)
                    a.pop("tile", None)
                if how == "dup":
                    a["v"] = a["v"] + a["v"]
                elif how == "drop" and n > 1:
                    a["v"] = a["v"][:-1]
                elif how == "rev":
                    a["v"] = a["v"][::-1]
                else:
                    a["dt"] = "f4" if a.get("dt", "f8") == "f8" else "f8"
        else:
            continue
        return o
    return o


def fix_area(op):
    if op["f"] == "karney:geodesic_area" and all(isinstance(a, list) for a in op["a"]):
        n = min(len(op["a"][0]), len(op["a"][1]))
        op["a"] = [op["a"][0][:n], op["a"][1][:n]]
    return op


def family(rng, cfg="np", size=3, **kw):
    base = fix_area(gen_op(rng, cfg, **kw))
    fam = [base]
    cand = [c for c in CANARIES_S + (CANARIES_V if cfg != "std" else []) if c["f"] == base["f"]]
    if cand and rng.random() < 0.6:
        fam += [copy.deepcopy(c) for c in rng.sample(cand, min(len(cand), rng.choice([1, 2])))]
    for _ in range(size - len(fam)):
        fam.append(fix_area(sibling(rng, rng.choice(fam), cfg)))
    return fam


def A(*v):
    return {"t": "arr", "v": [float(x) for x in v]}


CLEAR = {"f": "ellipsoid:clear_ellipsoid_caches", "a": [], "k": {}}

CANARIES_S = [
    {"f": "vincenty:vdist", "a": [10.0, 20.0, 10.0, 20.0], "k": {}},
    {"f": "vincenty:vdist", "a": [0.0, 0.0, 0.0, 180.0], "k": {}},
    {"f": "vincenty:vdist", "a": [10.0, 20.0, 30.0, 40.0], "k": {}},
    {"f": "ecef:ecef2geodetic", "a": [0.0, 0.0, 6356752.5], "k": {}},
    {"f": "ecef:ecef2geodetic", "a": [0.0, 0.0, -6000000.0], "k": {}},
    {"f": "ecef:ecef2geodetic", "a": [1.0, 0.0, 0.0], "k": {}},
    {"f": "ecef:ecef2geodetic", "a": [0.0, 0.0, 0.0], "k": {}},
    {"f": "ecef:ecef2geodetic", "a": [6378137.0, 0.0, 0.0], "k": {"ell": {"t": "ell", "n": "wgs84_mean"}}},
    {"f": "latitude:geodetic2conformal", "a": [90.0], "k": {}},
    {"f": "latitude:geodetic2conformal", "a": [45.0], "k": {}},
    {"f": "karney:geodesic_inverse", "a": [0.0, 0.0, 0.5, 179.7], "k": {}},
    {"f": "karney:geodesic_inverse", "a": [10.0, 20.0, 30.0, 40.0], "k": {"ell": {"t": "ell", "n": "mars"}}},
    {"f": "karney:geodesic_direct", "a": [40.0, -75.0, 53.0, 5.5e6], "k": {}},
    {"f": "aer:geodetic2aer", "a": [42.0, -82.0, 1000.0, 42.1, -82.2, 200.0], "k": {}},
    {"f": "sidereal:datetime2sidereal", "a": [{"t": "dt", "v": "2017-01-01T00:00:00"}, 0.5], "k": {"force_non_astropy": True}},
    {"f": "eci:eci2ecef_state", "a": [7e6, 1e6, 2e6, 1e3, 7e3, 5e2, {"t": "dt", "v": "2013-01-15T12:00:05"}], "k": {"force_non_astropy": True}},
    {"f": "ellipsoid:Ellipsoid.from_name", "a": ["wgs84"], "k": {}},
    {"f": "nvector:nvector_distance", "a": [1.0, 0.0, 0.0, 0.0, 1.0, 0.0], "k": {}},
    {"f": "lox:loxodrome_inverse", "a": [10.0, 20.0, 10.0, 40.0], "k": {}},
    {"f": "los:lookAtSpheroid", "a": [42.0, -82.0, 100.0, 0.0, 100.0], "k": {}},
    {"f": "vincenty:vreckon", "a": [90.0, 10.0, 1e6, 30.0], "k": {}},
]
CANARIES_V = [
    {"f": "vincenty:vdist", "a": [A(10, 0, 45, 1), A(20, 0, 7, 1), A(10, 0, -3, 2), A(20, 90, 9, 2)], "k": {}},
    {"f": "vincenty:vdist", "a": [A(10, 20, 45), A(20, 30, 7), A(11, 40, -3), A(22, 90, 9)], "k": {}},
    {"f": "latitude:geodetic2isometric", "a": [A(90, 0, -90, 45)], "k": {}},
    {"f": "latitude:geodetic2conformal", "a": [A(90, 0, -90, 45)], "k": {}},
    {"f": "ecef:ecef2geodetic", "a": [A(1, 6378137, 3, 1e6), A(0, 0, 0, 1e6), A(0, 0, 1, 5e6)], "k": {}},
    {"f": "ecef:ecef2geodetic", "a": [A(0, 6378137, 0, 1e6), A(0, 0, 0, 1e6), A(6356752.5, 0, -6e6, 5e6)], "k": {}},
    {"f": "enu:enu2aer", "a": [A(0, 1e-4, 5), A(0, 3, 0), A(1, 1e-5, 0)], "k": {}},
    {"f": "lox:loxodrome_direct", "a": [A(10, 20), A(1, 2), A(1e5, 2e6), A(90, 33)], "k": {}},
    {"f": "los:lookAtSpheroid", "a": [A(42, 42), A(-82, -82), A(100, 100), A(0, 0), A(0, 120)], "k": {}},
]


def canaries(rng, n, cfg):
    """operations exercising every cache and every error-trapping path"""
    pool = CANARIES_S + (CANARIES_V if cfg != "std" else [])
    return [copy.deepcopy(rng.choice(pool)) for _ in range(n)]
