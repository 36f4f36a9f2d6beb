From b33ca65921930e83f0a467937cb5be2289b2ae3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 01/27] fix: do not switch the process-wide warning filters in
 ecef2geodetic, geodetic2conformal, vdist

warnings.catch_warnings() is not thread safe: concurrent calls could leave the
error filter installed or see it removed half way. NumPy's errstate is per thread.
vdist and geodetic2conformal now also treat every array element on its own:
a coincident, antipodal or polar element no longer changes its batch-mates,
caller arrays are not written to, and the root logger is left unconfigured.
---
 src/pymap3d/ecef.py     |  10 +-
 src/pymap3d/latitude.py |   8 +-
 src/pymap3d/mathfun.py  |  11 ++
 src/pymap3d/vincenty.py | 216 ++++++++++++++++++++++------------------
 4 files changed, 135 insertions(+), 110 deletions(-)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index 587f0df..1554c17 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -4,8 +4,6 @@ as well as related ENU (east, north, up) and ECI (earth-centered inertial) frame
 
 from __future__ import annotations
 
-import warnings
-
 try:
     from numpy import empty_like, finfo, where
 except ImportError:
@@ -17,7 +15,7 @@ from math import pi
 from ._typing import FloatArray, FloatLike, NDArray
 from .eci import ecef2eci, eci2ecef
 from .ellipsoid import Ellipsoid, resolve_ellipsoid
-from .mathfun import atan, atan2, cos, degrees, hypot, isclose, radians, sin, sqrt, tan
+from .mathfun import atan, atan2, cos, degrees, errstate, hypot, isclose, radians, sin, sqrt, tan
 
 __all__ = [
     "geodetic2ecef",
@@ -210,15 +208,15 @@ def ecef2geodetic(
     def _beta_scalar(x: float, y: float, z: float) -> tuple:
         """using scalar math"""
         try:
-            with warnings.catch_warnings(record=True):
-                warnings.simplefilter("error")
+            # thread-local, unlike warnings.catch_warnings()
+            with errstate(divide="raise", over="raise", under="ignore", invalid="raise"):
                 Beta = atan(huE / u * z / hxy)
                 # eqn. 13
                 Beta += (
                     (ell.semiminor_axis * u - ell.semimajor_axis * huE + E**2)
                     * sin(Beta)
                 ) / (ell.semimajor_axis * huE * 1 / cos(Beta) - E**2 * cos(Beta))
-        except (ArithmeticError, RuntimeWarning):
+        except ArithmeticError:
             if isclose(z, 0):
                 Beta = 0
             elif z > 0:
diff --git a/src/pymap3d/latitude.py b/src/pymap3d/latitude.py
index 4a56c08..5594e0d 100644
--- a/src/pymap3d/latitude.py
+++ b/src/pymap3d/latitude.py
@@ -4,8 +4,6 @@ from __future__ import annotations
 
 from ._typing import FloatArray, FloatLike
 
-import warnings
-
 from math import pi
 
 from . import rcurve
@@ -16,6 +14,7 @@ from .mathfun import (
     atanh,
     cos,
     degrees,
+    errstate,
     exp,
     inf,
     radians,
@@ -366,10 +365,9 @@ def geodetic2conformal(geodetic_lat: FloatLike, ell: Ellipsoid | None = None, de
 
     #  compute conformal latitudes with correction for points at +90
     try:
-        with warnings.catch_warnings(record=True):
-            warnings.simplefilter("error")
+        with errstate(all="ignore"):
             conformal_lat = 2 * atan(sqrt((f4 / f3) * ((f1 / f2) ** e))) - (pi / 2)
-    except (ArithmeticError, RuntimeWarning):
+    except ArithmeticError:
         conformal_lat = pi / 2
 
     return degrees(conformal_lat) if deg else conformal_lat
diff --git a/src/pymap3d/mathfun.py b/src/pymap3d/mathfun.py
index f8df0ed..c6186e6 100644
--- a/src/pymap3d/mathfun.py
+++ b/src/pymap3d/mathfun.py
@@ -4,6 +4,8 @@ import from Numpy, and if not available fallback to math stdlib
 
 from __future__ import annotations
 
+from contextlib import nullcontext
+
 try:
     from numpy import arccos as acos
     from numpy import arcsin as asin
@@ -16,11 +18,13 @@ try:
         copysign,
         cos,
         degrees,
+        errstate,
         exp,
         fmod,
         hypot,
         inf,
         isclose,
+        isfinite,
         isnan,
         linspace,
         log,
@@ -48,6 +52,7 @@ except ImportError:
         hypot,
         inf,
         isclose,
+        isfinite,
         isnan,
         log,
         radians,
@@ -56,6 +61,10 @@ except ImportError:
         tan,
     )
 
+    def errstate(**kwargs):  # type: ignore
+        """the math module has no error state: it always raises"""
+        return nullcontext()
+
     def minimum(x, y):  # type: ignore
         return min(x, y)
 
@@ -93,11 +102,13 @@ __all__ = [
     "copysign",
     "cos",
     "degrees",
+    "errstate",
     "exp",
     "fmod",
     "hypot",
     "inf",
     "isclose",
+    "isfinite",
     "isnan",
     "log",
     "minimum",
diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index d975633..9ab7e33 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -4,24 +4,127 @@ Vincenty's methods for computing ground distance and reckoning
 
 from __future__ import annotations
 
-import warnings
-
 import logging
-from copy import copy
 
 from .ellipsoid import Ellipsoid, resolve_ellipsoid
-from .mathfun import isnan, linspace, degrees, radians, sign, sqrt, atan2, cos, sin, tan, asin, atan
+from .mathfun import (
+    asin,
+    atan,
+    atan2,
+    cos,
+    degrees,
+    errstate,
+    isfinite,
+    linspace,
+    minimum,
+    radians,
+    sign,
+    sin,
+    sqrt,
+    tan,
+)
 from math import pi, tau, nan
 
 try:
-    from numpy import asarray
+    from numpy import asarray, broadcast_arrays, empty_like, ones_like, where
 except ImportError:
     pass
 
 
+_log = logging.getLogger(__name__)
+
 __all__ = ["vdist", "vreckon", "track2"]
 
 
+def _off_pole(lat):
+    """correct for errors at exact poles by adjusting 0.6 millimeters; never modifies its argument"""
+    polar = abs(pi / 2 - abs(lat)) < 1e-10
+    moved = sign(lat) * (pi / 2 - 1e-10)
+    if getattr(lat, "ndim", 0):
+        return where(polar, moved, lat)
+    return moved if polar else lat
+
+
+def _inverse_step(U1, U2, L, lamb, f) -> tuple:
+    """one iteration of the inverse problem"""
+
+    sinsigma = sqrt(
+        (cos(U2) * sin(lamb)) ** 2 + (cos(U1) * sin(U2) - sin(U1) * cos(U2) * cos(lamb)) ** 2
+    )
+
+    cossigma = sin(U1) * sin(U2) + cos(U1) * cos(U2) * cos(lamb)
+    # eliminate rare imaginary portions at limit of numerical precision:
+    sinsigma = sinsigma.real
+    cossigma = cossigma.real
+
+    sigma = atan2(sinsigma, cossigma)
+
+    try:
+        with errstate(all="ignore"):
+            sinAlpha = cos(U1) * cos(U2) * sin(lamb) / sin(sigma)
+    except ArithmeticError:
+        sinAlpha = 0.0
+
+    # coincident points
+    if getattr(sinAlpha, "ndim", 0):
+        sinAlpha = where(isfinite(sinAlpha), sinAlpha, 0)
+    elif not isfinite(sinAlpha):
+        sinAlpha = 0.0
+
+    alpha = asin(minimum(sinAlpha, 1))
+
+    cos2sigmam = cos(sigma) - 2 * sin(U1) * sin(U2) / cos(alpha) ** 2
+
+    C = f / 16 * cos(alpha) ** 2 * (4 + f * (4 - 3 * cos(alpha) ** 2))
+
+    lamb = L + (1 - C) * f * sin(alpha) * (
+        sigma + C * sin(sigma) * (cos2sigmam + C * cos(sigma) * (-1 + 2.0 * cos2sigmam**2))
+    )
+
+    return sigma, alpha, cos2sigmam, lamb
+
+
+def _inverse_scalar(U1, U2, L, f) -> tuple:
+    """iterate the inverse problem for one pair of points"""
+
+    lamb = L
+    for _ in range(50):
+        lambdaold = lamb
+        sigma, alpha, cos2sigmam, lamb = _inverse_step(U1, U2, L, lamb, f)
+        # correct for convergence failure for essentially antipodal points
+        if lamb > pi:
+            return sigma, alpha, cos2sigmam, pi, True
+        if not abs(lamb - lambdaold) > 1e-12:
+            return sigma, alpha, cos2sigmam, lamb, False
+
+    return sigma, alpha, cos2sigmam, pi, True
+
+
+def _inverse_array(U1, U2, L, f) -> tuple:
+    """iterate the inverse problem, each pair of points on its own"""
+
+    U1, U2, L = broadcast_arrays(U1, U2, L)
+    lamb = L.copy()
+    sigma, alpha, cos2sigmam = empty_like(lamb), empty_like(lamb), empty_like(lamb)
+    reduced = False
+    todo = ones_like(lamb, dtype=bool)
+    for _ in range(50):
+        lambdaold = lamb[todo]
+        sigma[todo], alpha[todo], cos2sigmam[todo], new = _inverse_step(
+            U1[todo], U2[todo], L[todo], lambdaold, f
+        )
+        # correct for convergence failure for essentially antipodal points
+        antipodal = new > pi
+        reduced = reduced or bool(antipodal.any())
+        lamb[todo] = where(antipodal, pi, new)
+        todo[todo] = ~antipodal & (abs(new - lambdaold) > 1e-12)
+        if not todo.any():
+            return sigma, alpha, cos2sigmam, lamb, reduced
+
+    lamb[todo] = pi
+    return sigma, alpha, cos2sigmam, lamb, True
+
+
 def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True) -> tuple:
     """
     Using the reference ellipsoid, compute the distance between two points
@@ -113,19 +216,8 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
         if abs(lat1) > pi / 2 or abs(lat2) > pi / 2:
             raise ValueError("Input latitudes must be in [-90, 90] degrees.")
     # %% correct for errors at exact poles by adjusting 0.6 millimeters:
-    try:
-        i = abs(pi / 2 - abs(lat1)) < 1e-10
-        lat1[i] = sign(lat1[i]) * (pi / 2 - 1e-10)
-    except TypeError:
-        if abs(pi / 2 - abs(lat1)) < 1e-10:
-            lat1 = sign(lat1) * (pi / 2 - 1e-10)
-
-    try:
-        i = abs(pi / 2 - abs(lat2)) < 1e-10
-        lat2[i] = sign(lat2[i]) * (pi / 2 - 1e-10)
-    except TypeError:
-        if abs(pi / 2 - abs(lat2)) < 1e-10:
-            lat2 = sign(lat2) * (pi / 2 - 1e-10)
+    lat1 = _off_pole(lat1)
+    lat2 = _off_pole(lat2)
 
     U1 = atan((1 - f) * tan(lat1))
     U2 = atan((1 - f) * tan(lat2))
@@ -139,82 +231,13 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
         if L > pi:
             L = 2 * pi - L
 
-    lamb = copy(L)  # NOTE: program will fail without copy!
-    itercount = 0
-    warninggiven = False
-    notdone = True
-    while notdone:  # force at least one execution
-        itercount += 1
-        if itercount > 50:
-            if not warninggiven:
-                logging.warning("Essentially antipodal points--precision may be reduced slightly.")
-
-            lamb = pi
-            break
-
-        lambdaold = copy(lamb)
-
-        sinsigma = sqrt(
-            (cos(U2) * sin(lamb)) ** 2 + (cos(U1) * sin(U2) - sin(U1) * cos(U2) * cos(lamb)) ** 2
-        )
-
-        cossigma = sin(U1) * sin(U2) + cos(U1) * cos(U2) * cos(lamb)
-        # eliminate rare imaginary portions at limit of numerical precision:
-        sinsigma = sinsigma.real
-        cossigma = cossigma.real
-
-        sigma = atan2(sinsigma, cossigma)
+    if getattr(U1 + U2 + L, "ndim", 0):
+        sigma, alpha, cos2sigmam, lamb, reduced = _inverse_array(U1, U2, L, f)
+    else:
+        sigma, alpha, cos2sigmam, lamb, reduced = _inverse_scalar(U1, U2, L, f)
 
-        try:
-            with warnings.catch_warnings(record=True):
-                warnings.simplefilter("error")
-                sinAlpha = cos(U1) * cos(U2) * sin(lamb) / sin(sigma)
-
-                alpha = asin(sinAlpha)
-            alpha[isnan(sinAlpha)] = 0
-            alpha[(sinAlpha > 1) | (abs(sinAlpha - 1) < 1e-16)] = pi / 2
-
-        except (ArithmeticError, RuntimeWarning, TypeError, ValueError):
-            try:
-                with warnings.catch_warnings(record=True):
-                    warnings.simplefilter("error")
-                    sinAlpha = cos(U1) * cos(U2) * sin(lamb) / sin(sigma)
-            except (ArithmeticError, RuntimeWarning):
-                sinAlpha = 0.0
-
-            if isnan(sinAlpha):
-                alpha = 0.0
-            elif sinAlpha > 1 or abs(sinAlpha - 1) < 1e-16:
-                alpha = pi / 2
-            else:
-                alpha = asin(sinAlpha)
-
-        cos2sigmam = cos(sigma) - 2 * sin(U1) * sin(U2) / cos(alpha) ** 2
-
-        C = f / 16 * cos(alpha) ** 2 * (4 + f * (4 - 3 * cos(alpha) ** 2))
-
-        lamb = L + (1 - C) * f * sin(alpha) * (
-            sigma + C * sin(sigma) * (cos2sigmam + C * cos(sigma) * (-1 + 2.0 * cos2sigmam**2))
-        )
-        # print(f'then, lambda(21752) = {lamb[21752],20})
-        # correct for convergence failure for essentially antipodal points
-        try:
-            i = (lamb > pi).any()
-        except AttributeError:
-            i = lamb > pi
-
-        if i:
-            logging.warning(
-                "Essentially antipodal points encountered. Precision may be reduced slightly."
-            )
-            warninggiven = True
-            lambdaold = pi
-            lamb = pi
-
-        try:
-            notdone = (abs(lamb - lambdaold) > 1e-12).any()
-        except AttributeError:
-            notdone = abs(lamb - lambdaold) > 1e-12
+    if reduced:
+        _log.warning("Essentially antipodal points encountered. Precision may be reduced slightly.")
 
     u2 = cos(alpha) ** 2 * (a**2 - b**2) / b**2
     A = 1 + u2 / 16384 * (4096 + u2 * (-768 + u2 * (320 - 175 * u2)))
@@ -350,12 +373,7 @@ def vreckon(
             raise ValueError("Input lat. must be between -90 and 90 deg., inclusive.")
 
     # correct for errors at exact poles by adjusting 0.6 millimeters:
-    try:
-        i = abs(pi / 2 - abs(lat1)) < 1e-10
-        lat1[i] = sign(lat1[i]) * (pi / 2 - (1e-10))
-    except TypeError:
-        if abs(pi / 2 - abs(lat1)) < 1e-10:
-            lat1 = sign(lat1) * (pi / 2 - (1e-10))
+    lat1 = _off_pole(lat1)
 
     alpha1 = azim  # inital azimuth in radians
     sinAlpha1 = sin(alpha1)
-- 
2.43.0


From 4df400e1e89ec400c92cadcf9015fded3557eab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 02/27] fix: bound vreckon's iteration

For ranges of many revolutions the stopping tolerance is below the spacing of
floats and the loop could run for ever.
---
 src/pymap3d/vincenty.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index 9ab7e33..f7fcb8e 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -401,7 +401,10 @@ def vreckon(
     except AttributeError:
         i = abs(sigma - sigmaP) > 1e-12
 
-    while i:
+    itercount = 0
+    # huge ranges may cycle between neighbouring floats
+    while i and itercount < 100:
+        itercount += 1
         cos2SigmaM = cos(2 * sigma1 + sigma)
         sinSigma = sin(sigma)
         cosSigma = cos(sigma)
-- 
2.43.0


From 8ac4fd75ede500733b0ac05cfa703748165880d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 03/27] fix: concurrent first lookups of a named ellipsoid
 return the same object

functools.lru_cache calls the function once per racing thread, so two threads could
each get their own object for one name.
---
 src/pymap3d/ellipsoid.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/pymap3d/ellipsoid.py b/src/pymap3d/ellipsoid.py
index 3a1f6a1..31b6c33 100644
--- a/src/pymap3d/ellipsoid.py
+++ b/src/pymap3d/ellipsoid.py
@@ -3,7 +3,6 @@
 from __future__ import annotations
 from math import sqrt
 from dataclasses import dataclass, field
-from functools import lru_cache
 from typing import TYPE_CHECKING, Any, TypedDict, cast
 
 if TYPE_CHECKING:
@@ -204,10 +203,18 @@ class Ellipsoid:
         )
 
 
-@lru_cache(maxsize=None)
+_named_ellipsoids: dict[str, Ellipsoid] = {}
+
+
 def _from_name_cached(name: str) -> Ellipsoid:
-    model = Ellipsoid.models[name]
-    return Ellipsoid(model["a"], model["b"], name=model["name"], model=name)
+    ell = _named_ellipsoids.get(name)
+    if ell is None:
+        model = Ellipsoid.models[name]
+        # setdefault is atomic: threads that race here all get the same object
+        ell = _named_ellipsoids.setdefault(
+            name, Ellipsoid(model["a"], model["b"], name=model["name"], model=name)
+        )
+    return ell
 
 
 def resolve_ellipsoid(ell: Ellipsoid | None) -> Ellipsoid:
@@ -243,5 +250,5 @@ def clear_ellipsoid_caches() -> None:
     This is useful for deterministic tests and for freeing cache memory
     in long-running processes.
     """
-    _from_name_cached.cache_clear()
+    _named_ellipsoids.clear()
     _geodesic_cache.clear()
-- 
2.43.0


From 5c6db03dfca309db8155dccba26f634fa1e9b6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 04/27] fix: cache a geodesic under the parameters it was built
 from

An ellipsoid object changed between taking the key and building the geodesic left
a wrong entry in the cache for every later user of the old parameters.
---
 src/pymap3d/ellipsoid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/ellipsoid.py b/src/pymap3d/ellipsoid.py
index 31b6c33..1593f94 100644
--- a/src/pymap3d/ellipsoid.py
+++ b/src/pymap3d/ellipsoid.py
@@ -239,7 +239,8 @@ def get_cached_geodesic(ell: Ellipsoid | None) -> _Geodesic:
         from .karney import _Geodesic
 
         geodesic = _Geodesic(resolve_ellipsoid(ell))
-        _geodesic_cache[key] = geodesic
+        # the ellipsoid may have been changed since key was taken
+        _geodesic_cache[geodesic.a, geodesic.f] = geodesic
 
     return cast("_Geodesic", geodesic)
 
-- 
2.43.0


From 4afe3725571748adf4a5cffe6e1c4ebd8150b2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 05/27] fix: enu2aer no longer writes to the caller's arrays

---
 src/pymap3d/enu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/enu.py b/src/pymap3d/enu.py
index ef78eaa..765dc50 100644
--- a/src/pymap3d/enu.py
+++ b/src/pymap3d/enu.py
@@ -52,6 +52,8 @@ def enu2aer(e: FloatLike, n: FloatLike, u: FloatLike, deg: bool = True) -> tuple
     # 1 millimeter precision for singularity stability
 
     def _zero_trim_numpy(x, y, z) -> tuple:
+        # the arrays belong to the caller
+        x, y, z = x.copy(), y.copy(), z.copy()
         x[abs(x) < 1e-3] = 0.0
         y[abs(y) < 1e-3] = 0.0
         z[abs(z) < 1e-3] = 0.0
@@ -63,7 +65,7 @@ def enu2aer(e: FloatLike, n: FloatLike, u: FloatLike, deg: bool = True) -> tuple
 
     try:
         e, n, u = _zero_trim_numpy(e, n, u)
-    except TypeError:
+    except (AttributeError, TypeError):
         e, n, u = _zero_trim_scalar(float(e), float(n), float(u))
 
     r = hypot(e, n)
-- 
2.43.0


From 43b1f35ddf771d616cacb371a9ed1397d27a1e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 06/27] fix: state transforms of more than one element

The loop overwrote the input arrays whose shape the results are given.
---
 src/pymap3d/eci.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymap3d/eci.py b/src/pymap3d/eci.py
index 0eedb0b..a4e089f 100644
--- a/src/pymap3d/eci.py
+++ b/src/pymap3d/eci.py
@@ -451,15 +451,15 @@ def _apply_state_rotation(
     vel_out = numpy.empty((x.size, 3))
 
     for i in range(pos_in.shape[0]):
-        x, y, z, vx, vy, vz = _apply_state_rotation_scalar(
+        state = _apply_state_rotation_scalar(
             rotation,
             rotation_rate,
             *tuple(pos_in[i, :]),
             *tuple(vel_in[i, :]),
             inverse=inverse,
         )
-        pos_out[i, :] = (x, y, z)
-        vel_out[i, :] = (vx, vy, vz)
+        pos_out[i, :] = state[:3]
+        vel_out[i, :] = state[3:]
 
     return (
         pos_out[:, 0].reshape(x.shape),
-- 
2.43.0


From 0475e202446d27b255a61f4994ba43c8b3699c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 07/27] fix: rotation rate around daylight-saving changes

Adding half a second to a zoned datetime is wall-clock arithmetic and drops fold,
so the central difference could span an hour.
---
 src/pymap3d/earth_orientation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymap3d/earth_orientation.py b/src/pymap3d/earth_orientation.py
index e649409..8cf36a8 100644
--- a/src/pymap3d/earth_orientation.py
+++ b/src/pymap3d/earth_orientation.py
@@ -328,6 +328,8 @@ def eci_to_ecef_matrix_rate(
     ``eci_to_ecef_matrix()``.
     """
 
+    # arithmetic on a zoned datetime is wall-clock arithmetic
+    time = ensure_utc(time)
     dt = timedelta(seconds=dt_seconds)
     c_plus = eci_to_ecef_matrix(time + dt, delta_ut1=delta_ut1, xp=xp, yp=yp)
     c_minus = eci_to_ecef_matrix(time - dt, delta_ut1=delta_ut1, xp=xp, yp=yp)
-- 
2.43.0


From 1b24534ace8e884d578e35c3f8c4db316a121888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 08/27] fix: geodetic2eci honours delta_ut1, xp and yp

---
 src/pymap3d/ecef.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index 1554c17..d79503b 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -547,7 +547,7 @@ def geodetic2eci(
 
     x, y, z = geodetic2ecef(lat, lon, alt, ell, deg)
 
-    return ecef2eci(x, y, z, t)
+    return ecef2eci(x, y, z, t, delta_ut1=delta_ut1, xp=xp, yp=yp)
 
 
 def enu2ecef(
-- 
2.43.0


From 4b8bbf282b8c95519f50603f8bce6d81d801fd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 09/27] fix: the non-astropy azel/radec transforms do not use
 astropy

They computed sidereal time with astropy whenever it happened to be loaded, and
then ignored delta_ut1.
---
 src/pymap3d/vallado.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/vallado.py b/src/pymap3d/vallado.py
index b397ac0..7cfd4b5 100644
--- a/src/pymap3d/vallado.py
+++ b/src/pymap3d/vallado.py
@@ -72,7 +72,7 @@ def azel2radec(
         (sin(el) - sin(lat) * sin(dec)) / (cos(dec) * cos(lat)),
     )
 
-    lst = datetime2sidereal(time, lon, delta_ut1=delta_ut1)  # lon, ra in RADIANS
+    lst = datetime2sidereal(time, lon, force_non_astropy=True, delta_ut1=delta_ut1)  # lon, ra in RADIANS
 
     """ by definition right ascension [0, 360) degrees """
     return degrees(lst - lha) % 360, degrees(dec)
@@ -124,7 +124,7 @@ def radec2azel(
     lat = radians(lat_deg)
     lon = radians(lon_deg)
 
-    lst = datetime2sidereal(time, lon, delta_ut1=delta_ut1)  # RADIANS
+    lst = datetime2sidereal(time, lon, force_non_astropy=True, delta_ut1=delta_ut1)  # RADIANS
     # %% Eq. 4-11 p. 267 LOCAL HOUR ANGLE
     lha = lst - ra
     # %% #Eq. 4-12 p. 267
-- 
2.43.0


From 5ebc9cc2faa56b833773cb85ec9901890d2029ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 10/27] fix: lookAtSpheroid uses the given ellipsoid throughout

---
 src/pymap3d/los.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/los.py b/src/pymap3d/los.py
index f03abee..7eeeb54 100644
--- a/src/pymap3d/los.py
+++ b/src/pymap3d/los.py
@@ -76,7 +76,7 @@ def lookAtSpheroid(
     # fixed 1 km slant range
 
     u, v, w = enu2uvw(e, n, u, lat0, lon0, deg=deg)
-    x, y, z = geodetic2ecef(lat0, lon0, h0, deg=deg)
+    x, y, z = geodetic2ecef(lat0, lon0, h0, ell, deg=deg)
 
     value = -(a**2) * b**2 * w * z - a**2 * c**2 * v * y - b**2 * c**2 * u * x
     radical = (
@@ -112,6 +112,6 @@ def lookAtSpheroid(
             d = nan
 
     # %% cartesian to ellipsodal
-    lat, lon, _ = ecef2geodetic(x + d * u, y + d * v, z + d * w, deg=deg)
+    lat, lon, _ = ecef2geodetic(x + d * u, y + d * v, z + d * w, ell, deg=deg)
 
     return lat, lon, d
-- 
2.43.0


From 926292abd2f53a02fc32683af58aea14f3a50a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 11/27] fix: decide by what was imported, not by sys.modules,
 whether NumPy and astropy are there

A package that was imported by other code only after (or imported only in part by)
this library appeared in sys.modules while the names needed were never bound: NameError.
---
 src/pymap3d/azelradec.py |  9 +++++----
 src/pymap3d/eci.py       | 24 +++++++++++++++---------
 src/pymap3d/haversine.py |  8 ++++----
 src/pymap3d/sidereal.py  |  7 ++++---
 4 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/pymap3d/azelradec.py b/src/pymap3d/azelradec.py
index 09d4ca2..5733922 100644
--- a/src/pymap3d/azelradec.py
+++ b/src/pymap3d/azelradec.py
@@ -5,7 +5,6 @@ Azimuth / elevation <==> Right ascension, declination
 from __future__ import annotations
 
 from datetime import datetime
-import sys
 
 from .vallado import azel2radec as vazel2radec
 from .vallado import radec2azel as vradec2azel
@@ -15,8 +14,10 @@ try:
     from astropy import units as u
     from astropy.coordinates import ICRS, AltAz, Angle, EarthLocation, SkyCoord
     from astropy.time import Time
+
+    _have_astropy = True
 except ImportError:
-    pass
+    _have_astropy = False
 
 __all__ = ["radec2azel", "azel2radec"]
 
@@ -57,7 +58,7 @@ def azel2radec(
          ecliptic declination (degrees)
     """
 
-    if force_non_astropy or "astropy" not in sys.modules:
+    if force_non_astropy or not _have_astropy:
         return vazel2radec(
             az_deg, el_deg, lat_deg, lon_deg, time, delta_ut1=delta_ut1
         )
@@ -118,7 +119,7 @@ def radec2azel(
              elevation [degrees above horizon (neglecting aberration)]
     """
 
-    if force_non_astropy or "astropy" not in sys.modules:
+    if force_non_astropy or not _have_astropy:
         return vradec2azel(
             ra_deg, dec_deg, lat_deg, lon_deg, time, delta_ut1=delta_ut1
         )
diff --git a/src/pymap3d/eci.py b/src/pymap3d/eci.py
index a4e089f..34f324e 100644
--- a/src/pymap3d/eci.py
+++ b/src/pymap3d/eci.py
@@ -4,10 +4,14 @@ from __future__ import annotations
 
 from datetime import datetime
 
-import sys
-
 try:
     import numpy
+
+    _have_numpy = True
+except ImportError:
+    _have_numpy = False
+
+try:
     import astropy.units as u
     from astropy.coordinates import (
         GCRS,
@@ -16,8 +20,10 @@ try:
         CartesianRepresentation,
         EarthLocation,
     )
+
+    _have_astropy = True
 except ImportError:
-    pass
+    _have_astropy = False
 
 from .earth_orientation import eci_to_ecef_matrix, eci_to_ecef_matrix_rate, matvec3, transpose3
 
@@ -71,7 +77,7 @@ def eci2ecef(
         z ECEF coordinate
     """
 
-    if "astropy" in sys.modules and not force_non_astropy:
+    if _have_astropy and not force_non_astropy:
         xe, ye, ze = eci2ecef_astropy(x, y, z, time)
     else:
         xe, ye, ze = eci2ecef_numpy(x, y, z, time, delta_ut1=delta_ut1, xp=xp, yp=yp)
@@ -162,7 +168,7 @@ def ecef2eci(
         z ECI coordinate
     """
 
-    if "astropy" in sys.modules and not force_non_astropy:
+    if _have_astropy and not force_non_astropy:
         xe, ye, ze = ecef2eci_astropy(x, y, z, time)
     else:
         xe, ye, ze = ecef2eci_numpy(x, y, z, time, delta_ut1=delta_ut1, xp=xp, yp=yp)
@@ -220,7 +226,7 @@ def eci2ecef_state(
     with the Earth.
     """
 
-    if "astropy" in sys.modules and not force_non_astropy:
+    if _have_astropy and not force_non_astropy:
         x, y, z, vx, vy, vz = eci2ecef_state_astropy(x, y, z, vx, vy, vz, time)
     else:
         x, y, z, vx, vy, vz = eci2ecef_state_numpy(
@@ -316,7 +322,7 @@ def ecef2eci_state(
     with the Earth.
     """
 
-    if "astropy" in sys.modules and not force_non_astropy:
+    if _have_astropy and not force_non_astropy:
         x, y, z, vx, vy, vz = ecef2eci_state_astropy(x, y, z, vx, vy, vz, time)
     else:
         x, y, z, vx, vy, vz = ecef2eci_state_numpy(
@@ -394,7 +400,7 @@ def ecef2eci_state_numpy(
 def _apply_rotation(rotation, x, y, z):
     """Apply a 3x3 rotation to scalar or NumPy coordinate inputs."""
 
-    if "numpy" not in sys.modules:
+    if not _have_numpy:
         return matvec3(rotation, (x, y, z))
 
     x = numpy.atleast_1d(x)
@@ -430,7 +436,7 @@ def _apply_state_rotation(
 ):
     """Apply a position/velocity frame transform."""
 
-    if "numpy" not in sys.modules:
+    if not _have_numpy:
         return _apply_state_rotation_scalar(
             rotation, rotation_rate, x, y, z, vx, vy, vz, inverse=inverse
         )
diff --git a/src/pymap3d/haversine.py b/src/pymap3d/haversine.py
index 48a5ca6..afb08e0 100644
--- a/src/pymap3d/haversine.py
+++ b/src/pymap3d/haversine.py
@@ -9,14 +9,14 @@ and gives virtually identical result
 within double precision arithmetic limitations
 """
 
-import sys
-
 from ._typing import FloatLike
 
 try:
     from astropy.coordinates import angular_separation
+
+    _have_astropy = True
 except ImportError:
-    pass
+    _have_astropy = False
 
 from .mathfun import asin, cos, degrees, radians, sqrt
 
@@ -113,7 +113,7 @@ def anglesep(
         lon1 = radians(lon1)
         lat1 = radians(lat1)
 
-    if "astropy" in sys.modules and not force_non_astropy:
+    if _have_astropy and not force_non_astropy:
         sep_rad = angular_separation(lon0, lat0, lon1, lat1)
     else:
         sep_rad = anglesep_meeus(lon0, lat0, lon1, lat1, deg=False)
diff --git a/src/pymap3d/sidereal.py b/src/pymap3d/sidereal.py
index ed9dced..62c57d7 100644
--- a/src/pymap3d/sidereal.py
+++ b/src/pymap3d/sidereal.py
@@ -4,7 +4,6 @@ from __future__ import annotations
 
 from datetime import datetime
 from math import tau
-import sys
 import logging
 
 from ._typing import FloatLike, DatetimeLike
@@ -21,8 +20,10 @@ try:
     import astropy.units as u
     from astropy.coordinates import Longitude
     from astropy.time import Time
+
+    _have_astropy = True
 except ImportError:
-    pass
+    _have_astropy = False
 
 
 __all__ = ["datetime2sidereal", "juliandate", "greenwichsrt"]
@@ -68,7 +69,7 @@ def datetime2sidereal(
             for t in time
         ]
 
-    if "astropy" in sys.modules and not force_non_astropy:
+    if _have_astropy and not force_non_astropy:
         return datetime2sidereal_astropy(time, lon_radians)
     else:
         return datetime2sidereal_vallado(time, lon_radians, delta_ut1=delta_ut1)
-- 
2.43.0


From d8680d65ee83bf6d13af476b7341ea9b58c97734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 12/27] fix: track2 without NumPy raises ImportError

---
 src/pymap3d/vincenty.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index f7fcb8e..cb0730e 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -526,9 +526,12 @@ def track2(
         )
 
     distance, azimuth = vdist(lat1, lon1, lat2, lon2, ell, deg=False)
-    dists = linspace(0, distance, npts)
+    try:
+        dists = asarray(linspace(0, distance, npts))
+    except NameError as exc:
+        raise ImportError("Numpy required for track2") from exc
 
-    lats, lons = vreckon(lat1, lon1, asarray(dists), azimuth, ell, deg=False)
+    lats, lons = vreckon(lat1, lon1, dists, azimuth, ell, deg=False)
 
     if deg:
         lats = degrees(lats)
-- 
2.43.0


From f688baaf07c9b4bef800fb668a9bb539e8d7dbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 13/27] fix: argument checks do not depend on assertions being
 enabled

---
 src/pymap3d/eci.py       | 10 ++++------
 src/pymap3d/ellipsoid.py |  3 ++-
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/pymap3d/eci.py b/src/pymap3d/eci.py
index 34f324e..9ac9493 100644
--- a/src/pymap3d/eci.py
+++ b/src/pymap3d/eci.py
@@ -406,9 +406,8 @@ def _apply_rotation(rotation, x, y, z):
     x = numpy.atleast_1d(x)
     y = numpy.atleast_1d(y)
     z = numpy.atleast_1d(z)
-    assert x.shape == y.shape == z.shape, (
-        f"shape mismatch: x: {x.shape}  y: {y.shape}  z: {z.shape}"
-    )
+    if not x.shape == y.shape == z.shape:
+        raise ValueError(f"shape mismatch: x: {x.shape}  y: {y.shape}  z: {z.shape}")
 
     vin = numpy.column_stack((x.ravel(), y.ravel(), z.ravel()))
     vout = numpy.empty((x.size, 3))
@@ -447,9 +446,8 @@ def _apply_state_rotation(
     vx = numpy.atleast_1d(vx)
     vy = numpy.atleast_1d(vy)
     vz = numpy.atleast_1d(vz)
-    assert x.shape == y.shape == z.shape == vx.shape == vy.shape == vz.shape, (
-        "shape mismatch between position and velocity inputs"
-    )
+    if not x.shape == y.shape == z.shape == vx.shape == vy.shape == vz.shape:
+        raise ValueError("shape mismatch between position and velocity inputs")
 
     pos_in = numpy.column_stack((x.ravel(), y.ravel(), z.ravel()))
     vel_in = numpy.column_stack((vx.ravel(), vy.ravel(), vz.ravel()))
diff --git a/src/pymap3d/ellipsoid.py b/src/pymap3d/ellipsoid.py
index 1593f94..85aa389 100644
--- a/src/pymap3d/ellipsoid.py
+++ b/src/pymap3d/ellipsoid.py
@@ -96,7 +96,8 @@ class Ellipsoid:
             else (semimajor_axis - semiminor_axis) / semimajor_axis
         )
 
-        assert self.flattening >= 0, "flattening must be >= 0"
+        if not self.flattening >= 0:
+            raise ValueError("flattening must be >= 0")
 
         self.thirdflattening = (
             thirdflattening
-- 
2.43.0


From 877a05535b399c1981cc59b6f4bee5d46e55879d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 14/27] fix: a datetime whose tzinfo has no offset is naive,
 that is UTC

---
 src/pymap3d/earth_orientation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/earth_orientation.py b/src/pymap3d/earth_orientation.py
index 8cf36a8..503d63b 100644
--- a/src/pymap3d/earth_orientation.py
+++ b/src/pymap3d/earth_orientation.py
@@ -44,7 +44,8 @@ _LEAP_SECONDS = (
 def ensure_utc(time: datetime) -> datetime:
     """Normalize datetimes to UTC while preserving naive UTC behavior."""
 
-    if time.tzinfo is None:
+    # a datetime is also naive if its tzinfo gives no offset
+    if time.utcoffset() is None:
         return time.replace(tzinfo=timezone.utc)
 
     return time.astimezone(timezone.utc)
-- 
2.43.0


From 9675d91fac7195ccc996becd7db2b3e07b6f73b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 15/27] fix: str2dt of datetime64 in days or nanoseconds

---
 src/pymap3d/timeconv.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymap3d/timeconv.py b/src/pymap3d/timeconv.py
index 4f5e710..564a214 100644
--- a/src/pymap3d/timeconv.py
+++ b/src/pymap3d/timeconv.py
@@ -29,4 +29,7 @@ def str2dt(time: DatetimeLike):
     elif isinstance(time, str):
         return datetime.fromisoformat(time)
     else:
+        if time.dtype.kind == "M":
+            # days and nanoseconds do not convert to datetime
+            time = time.astype("datetime64[us]")
         return time.astype(datetime)
-- 
2.43.0


From c9b2d231b3e6685512f40d214f26db92804ad599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 16/27] fix: all modules use NumPy or none does, also if it is
 broken or arrives late

---
 src/pymap3d/_numpy.py   | 79 +++++++++++++++++++++++++++++++++++++++++
 src/pymap3d/ecef.py     |  2 +-
 src/pymap3d/eci.py      | 32 ++++++++---------
 src/pymap3d/lox.py      |  2 +-
 src/pymap3d/mathfun.py  | 34 +++---------------
 src/pymap3d/vincenty.py |  2 +-
 6 files changed, 103 insertions(+), 48 deletions(-)
 create mode 100644 src/pymap3d/_numpy.py

diff --git a/src/pymap3d/_numpy.py b/src/pymap3d/_numpy.py
new file mode 100644
index 0000000..8c4b94f
--- /dev/null
+++ b/src/pymap3d/_numpy.py
@@ -0,0 +1,79 @@
+"""what pymap3d uses of Numpy, for mathfun"""
+
+from numpy import arccos as acos
+from numpy import arcsin as asin
+from numpy import arcsinh as asinh
+from numpy import arctan as atan
+from numpy import arctan2 as atan2
+from numpy import arctanh as atanh
+from numpy import (
+    asarray,
+    atleast_1d,
+    broadcast_arrays,
+    cbrt,
+    column_stack,
+    copysign,
+    cos,
+    degrees,
+    empty,
+    empty_like,
+    errstate,
+    exp,
+    finfo,
+    fmod,
+    hypot,
+    inf,
+    isclose,
+    isfinite,
+    isnan,
+    linspace,
+    log,
+    minimum,
+    ones_like,
+    power,
+    radians,
+    sign,
+    sin,
+    sqrt,
+    tan,
+    where,
+)
+
+__all__ = [
+    "acos",
+    "asarray",
+    "asin",
+    "asinh",
+    "atan",
+    "atan2",
+    "atanh",
+    "atleast_1d",
+    "broadcast_arrays",
+    "cbrt",
+    "column_stack",
+    "copysign",
+    "cos",
+    "degrees",
+    "empty",
+    "empty_like",
+    "errstate",
+    "exp",
+    "finfo",
+    "fmod",
+    "hypot",
+    "inf",
+    "isclose",
+    "isfinite",
+    "isnan",
+    "linspace",
+    "log",
+    "minimum",
+    "ones_like",
+    "power",
+    "radians",
+    "sign",
+    "sin",
+    "sqrt",
+    "tan",
+    "where",
+]
diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index d79503b..d4d862d 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -5,7 +5,7 @@ as well as related ENU (east, north, up) and ECI (earth-centered inertial) frame
 from __future__ import annotations
 
 try:
-    from numpy import empty_like, finfo, where
+    from .mathfun import empty_like, finfo, where
 except ImportError:
     pass
 
diff --git a/src/pymap3d/eci.py b/src/pymap3d/eci.py
index 9ac9493..32e8bd2 100644
--- a/src/pymap3d/eci.py
+++ b/src/pymap3d/eci.py
@@ -5,7 +5,7 @@ from __future__ import annotations
 from datetime import datetime
 
 try:
-    import numpy
+    from .mathfun import atleast_1d, column_stack, empty
 
     _have_numpy = True
 except ImportError:
@@ -403,14 +403,14 @@ def _apply_rotation(rotation, x, y, z):
     if not _have_numpy:
         return matvec3(rotation, (x, y, z))
 
-    x = numpy.atleast_1d(x)
-    y = numpy.atleast_1d(y)
-    z = numpy.atleast_1d(z)
+    x = atleast_1d(x)
+    y = atleast_1d(y)
+    z = atleast_1d(z)
     if not x.shape == y.shape == z.shape:
         raise ValueError(f"shape mismatch: x: {x.shape}  y: {y.shape}  z: {z.shape}")
 
-    vin = numpy.column_stack((x.ravel(), y.ravel(), z.ravel()))
-    vout = numpy.empty((x.size, 3))
+    vin = column_stack((x.ravel(), y.ravel(), z.ravel()))
+    vout = empty((x.size, 3))
     for i in range(vin.shape[0]):
         vout[i, :] = matvec3(rotation, tuple(vin[i, :]))
 
@@ -440,19 +440,19 @@ def _apply_state_rotation(
             rotation, rotation_rate, x, y, z, vx, vy, vz, inverse=inverse
         )
 
-    x = numpy.atleast_1d(x)
-    y = numpy.atleast_1d(y)
-    z = numpy.atleast_1d(z)
-    vx = numpy.atleast_1d(vx)
-    vy = numpy.atleast_1d(vy)
-    vz = numpy.atleast_1d(vz)
+    x = atleast_1d(x)
+    y = atleast_1d(y)
+    z = atleast_1d(z)
+    vx = atleast_1d(vx)
+    vy = atleast_1d(vy)
+    vz = atleast_1d(vz)
     if not x.shape == y.shape == z.shape == vx.shape == vy.shape == vz.shape:
         raise ValueError("shape mismatch between position and velocity inputs")
 
-    pos_in = numpy.column_stack((x.ravel(), y.ravel(), z.ravel()))
-    vel_in = numpy.column_stack((vx.ravel(), vy.ravel(), vz.ravel()))
-    pos_out = numpy.empty((x.size, 3))
-    vel_out = numpy.empty((x.size, 3))
+    pos_in = column_stack((x.ravel(), y.ravel(), z.ravel()))
+    vel_in = column_stack((vx.ravel(), vy.ravel(), vz.ravel()))
+    pos_out = empty((x.size, 3))
+    vel_out = empty((x.size, 3))
 
     for i in range(pos_in.shape[0]):
         state = _apply_state_rotation_scalar(
diff --git a/src/pymap3d/lox.py b/src/pymap3d/lox.py
index bcecf54..ff13f26 100644
--- a/src/pymap3d/lox.py
+++ b/src/pymap3d/lox.py
@@ -3,7 +3,7 @@
 from __future__ import annotations
 
 try:
-    from numpy import broadcast_arrays
+    from .mathfun import broadcast_arrays
 except ImportError:
     pass
 
diff --git a/src/pymap3d/mathfun.py b/src/pymap3d/mathfun.py
index c6186e6..219a3b9 100644
--- a/src/pymap3d/mathfun.py
+++ b/src/pymap3d/mathfun.py
@@ -1,5 +1,8 @@
 """
 import from Numpy, and if not available fallback to math stdlib
+
+The other modules import their Numpy functions from here, not from Numpy, so that
+all of them use Numpy or none of them does.
 """
 
 from __future__ import annotations
@@ -7,35 +10,8 @@ from __future__ import annotations
 from contextlib import nullcontext
 
 try:
-    from numpy import arccos as acos
-    from numpy import arcsin as asin
-    from numpy import arcsinh as asinh
-    from numpy import arctan as atan
-    from numpy import arctan2 as atan2
-    from numpy import arctanh as atanh
-    from numpy import (
-        cbrt,
-        copysign,
-        cos,
-        degrees,
-        errstate,
-        exp,
-        fmod,
-        hypot,
-        inf,
-        isclose,
-        isfinite,
-        isnan,
-        linspace,
-        log,
-        minimum,
-        power,
-        radians,
-        sign,
-        sin,
-        sqrt,
-        tan,
-    )
+    # all of them or none: a broken Numpy must not leave a mixture
+    from ._numpy import *  # noqa: F403
 except ImportError:
     from math import (  # type: ignore
         acos,
diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index cb0730e..23ec9c9 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -26,7 +26,7 @@ from .mathfun import (
 from math import pi, tau, nan
 
 try:
-    from numpy import asarray, broadcast_arrays, empty_like, ones_like, where
+    from .mathfun import asarray, broadcast_arrays, empty_like, ones_like, where
 except ImportError:
     pass
 
-- 
2.43.0


From 644487075940712892afcee113acaa3135b39386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:19 +0000
Subject: [PATCH 17/27] fix: azel2radec, radec2azel accept arrays of observer
 latitudes

---
 src/pymap3d/vallado.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pymap3d/vallado.py b/src/pymap3d/vallado.py
index 7cfd4b5..83b5b78 100644
--- a/src/pymap3d/vallado.py
+++ b/src/pymap3d/vallado.py
@@ -18,6 +18,12 @@ from .sidereal import datetime2sidereal
 __all__ = ["azel2radec", "radec2azel"]
 
 
+def _check_lat(lat_deg):
+    bad = abs(lat_deg) > 90
+    if bad.any() if getattr(bad, "ndim", 0) else bad:
+        raise ValueError("-90 <= lat <= 90")
+
+
 def azel2radec(
     az_deg,
     el_deg,
@@ -57,8 +63,7 @@ def azel2radec(
     p.258-259
     """
 
-    if abs(lat_deg) > 90:
-        raise ValueError("-90 <= lat <= 90")
+    _check_lat(lat_deg)
 
     az = radians(az_deg)
     el = radians(el_deg)
@@ -116,8 +121,7 @@ def radec2azel(
     from D. Vallado "Fundamentals of Astrodynamics and Applications "
        4th Edition Ch. 4.4 pg. 266-268
     """
-    if abs(lat_deg) > 90:
-        raise ValueError("-90 <= lat <= 90")
+    _check_lat(lat_deg)
 
     ra = radians(ra_deg)
     dec = radians(dec_deg)
-- 
2.43.0


From 877fe25beb87e22706621d60d8fa39d2bd00b82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:19 +0000
Subject: [PATCH 18/27] fix: results keep the shape of array arguments

---
 src/pymap3d/ecef.py |  2 +-
 src/pymap3d/eci.py  | 40 +++++++++++++++++++++-------------------
 src/pymap3d/lox.py  |  8 ++++----
 3 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index d4d862d..3848352 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -201,7 +201,7 @@ def ecef2geodetic(
 
         lat, alt = _lat_alt_numpy(x, y, z, Beta)
 
-        lat = lat.squeeze()[()]
+        lat = lat[()]
 
         return lat, alt
 
diff --git a/src/pymap3d/eci.py b/src/pymap3d/eci.py
index 32e8bd2..25b1331 100644
--- a/src/pymap3d/eci.py
+++ b/src/pymap3d/eci.py
@@ -5,7 +5,7 @@ from __future__ import annotations
 from datetime import datetime
 
 try:
-    from .mathfun import atleast_1d, column_stack, empty
+    from .mathfun import asarray, atleast_1d, column_stack, empty
 
     _have_numpy = True
 except ImportError:
@@ -403,6 +403,7 @@ def _apply_rotation(rotation, x, y, z):
     if not _have_numpy:
         return matvec3(rotation, (x, y, z))
 
+    shape = asarray(x).shape
     x = atleast_1d(x)
     y = atleast_1d(y)
     z = atleast_1d(z)
@@ -415,9 +416,9 @@ def _apply_rotation(rotation, x, y, z):
         vout[i, :] = matvec3(rotation, tuple(vin[i, :]))
 
     return (
-        vout[:, 0].reshape(x.shape),
-        vout[:, 1].reshape(y.shape),
-        vout[:, 2].reshape(z.shape),
+        vout[:, 0].reshape(shape),
+        vout[:, 1].reshape(shape),
+        vout[:, 2].reshape(shape),
     )
 
 
@@ -440,6 +441,7 @@ def _apply_state_rotation(
             rotation, rotation_rate, x, y, z, vx, vy, vz, inverse=inverse
         )
 
+    shape = asarray(x).shape
     x = atleast_1d(x)
     y = atleast_1d(y)
     z = atleast_1d(z)
@@ -466,12 +468,12 @@ def _apply_state_rotation(
         vel_out[i, :] = state[3:]
 
     return (
-        pos_out[:, 0].reshape(x.shape),
-        pos_out[:, 1].reshape(y.shape),
-        pos_out[:, 2].reshape(z.shape),
-        vel_out[:, 0].reshape(vx.shape),
-        vel_out[:, 1].reshape(vy.shape),
-        vel_out[:, 2].reshape(vz.shape),
+        pos_out[:, 0].reshape(shape),
+        pos_out[:, 1].reshape(shape),
+        pos_out[:, 2].reshape(shape),
+        vel_out[:, 0].reshape(shape),
+        vel_out[:, 1].reshape(shape),
+        vel_out[:, 2].reshape(shape),
     )
 
 
@@ -509,8 +511,8 @@ def _squeeze_xyz(x, y, z):
     """Preserve scalar inputs while supporting array outputs."""
 
     try:
-        return x.squeeze()[()], y.squeeze()[()], z.squeeze()[()]
-    except AttributeError:
+        return x[()], y[()], z[()]
+    except TypeError:
         return x, y, z
 
 
@@ -519,12 +521,12 @@ def _squeeze_state(x, y, z, vx, vy, vz):
 
     try:
         return (
-            x.squeeze()[()],
-            y.squeeze()[()],
-            z.squeeze()[()],
-            vx.squeeze()[()],
-            vy.squeeze()[()],
-            vz.squeeze()[()],
+            x[()],
+            y[()],
+            z[()],
+            vx[()],
+            vy[()],
+            vz[()],
         )
-    except AttributeError:
+    except TypeError:
         return x, y, z, vx, vy, vz
diff --git a/src/pymap3d/lox.py b/src/pymap3d/lox.py
index ff13f26..179ee25 100644
--- a/src/pymap3d/lox.py
+++ b/src/pymap3d/lox.py
@@ -175,8 +175,8 @@ def loxodrome_inverse(
         az12 = degrees(az12) % 360.0
 
     try:
-        return dist.squeeze()[()], az12.squeeze()[()]
-    except AttributeError:
+        return dist[()], az12[()]
+    except TypeError:
         return dist, az12
 
 
@@ -263,8 +263,8 @@ def loxodrome_direct(
         lat2, lon2 = degrees(lat2), degrees(lon2)
 
     try:
-        return lat2.squeeze()[()], lon2.squeeze()[()]
-    except AttributeError:
+        return lat2[()], lon2[()]
+    except TypeError:
         return lat2, lon2
 
 
-- 
2.43.0


From 7fa3d350434d24963aa9628a8e983e76cc4f9717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 19/27] fix: command line: options that default to None keep
 that default

---
 src/pymap3d/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/__main__.py b/src/pymap3d/__main__.py
index 8a1c083..1cf2dd1 100644
--- a/src/pymap3d/__main__.py
+++ b/src/pymap3d/__main__.py
@@ -103,7 +103,7 @@ def _add_parameter_arg(parser: argparse.ArgumentParser, param: inspect.Parameter
         parser.add_argument(
             f"--{name.replace('_', '-')}",
             dest=dest,
-            default=str(default),
+            default=None if default is None else str(default),
             help=f"{name} (default: {default})",
         )
     else:
-- 
2.43.0


From 4b24812da12cfee9ace6fdd4cd4d9db4056cbc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 20/27] fix: command line: reject arguments that are not
 numbers where numbers are due

---
 src/pymap3d/__main__.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/pymap3d/__main__.py b/src/pymap3d/__main__.py
index 1cf2dd1..33f9063 100644
--- a/src/pymap3d/__main__.py
+++ b/src/pymap3d/__main__.py
@@ -42,16 +42,14 @@ def _coerce_value(raw: Any, param: inspect.Parameter) -> Any:
     if isinstance(raw, str):
         text = raw.strip()
 
-        if "," in text:
-            try:
-                return [float(x.strip()) for x in text.split(",")]
-            except ValueError:
-                return text
-
         try:
+            if "," in text:
+                return [float(x.strip()) for x in text.split(",")]
             return float(text)
         except ValueError:
-            return text
+            if isinstance(param.default, str):
+                return text
+            raise ValueError(f"{param.name}: {raw!r} is not a number") from None
 
     return raw
 
-- 
2.43.0


From 9d94cd0f83de33905db038005ed6247fc0211b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 21/27] fix: command line: a closed standard output is an error

---
 src/pymap3d/__main__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymap3d/__main__.py b/src/pymap3d/__main__.py
index 33f9063..7905709 100644
--- a/src/pymap3d/__main__.py
+++ b/src/pymap3d/__main__.py
@@ -12,6 +12,7 @@ import argparse
 from datetime import datetime
 import inspect
 import json
+import sys
 from typing import Any
 
 import pymap3d as pm
@@ -186,6 +187,10 @@ def _to_jsonable(value: Any) -> Any:
 
 def _emit_result(result: Any, output_mode: str, precision: int | None) -> None:
     """Render results according to output mode."""
+    if sys.stdout is None:
+        # print() would do nothing
+        raise OSError("standard output is closed")
+
     if output_mode == "json":
         print(json.dumps(_to_jsonable(result)))
         return
-- 
2.43.0


From 40dacf07d530050fce55b97ffba5c3c9e072336d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 22/27] fix: command line: arrays, matrices and non-finite
 results are printed completely, and as valid JSON

---
 src/pymap3d/__main__.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/pymap3d/__main__.py b/src/pymap3d/__main__.py
index 7905709..901feed 100644
--- a/src/pymap3d/__main__.py
+++ b/src/pymap3d/__main__.py
@@ -12,6 +12,7 @@ import argparse
 from datetime import datetime
 import inspect
 import json
+import math
 import sys
 from typing import Any
 
@@ -165,7 +166,23 @@ def _call_selected_function(
     return func(**kwargs)
 
 
+def _plain(value: Any) -> Any:
+    """NumPy arrays and scalars as lists and Python scalars, at any depth."""
+    if isinstance(value, tuple):
+        return tuple(_plain(v) for v in value)
+    if isinstance(value, list):
+        return [_plain(v) for v in value]
+    if hasattr(value, "tolist"):
+        return value.tolist()
+
+    return value
+
+
 def _format_scalar(value: Any, precision: int | None) -> str:
+    if isinstance(value, (tuple, list)):
+        text = ", ".join(_format_scalar(x, precision) for x in value)
+        return f"({text})" if isinstance(value, tuple) else f"[{text}]"
+
     if precision is not None and isinstance(value, float):
         return f"{value:.{precision}f}"
 
@@ -181,6 +198,9 @@ def _to_jsonable(value: Any) -> Any:
             return [_to_jsonable(v) for v in value]
         case datetime():
             return value.isoformat()
+        case float() if not math.isfinite(value):
+            # JSON has no NaN or infinity
+            return None
 
     return value
 
@@ -191,6 +211,8 @@ def _emit_result(result: Any, output_mode: str, precision: int | None) -> None:
         # print() would do nothing
         raise OSError("standard output is closed")
 
+    result = _plain(result)
+
     if output_mode == "json":
         print(json.dumps(_to_jsonable(result)))
         return
-- 
2.43.0


From cd71aeffecf865706c261f2572343f78fa907b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:22 +0000
Subject: [PATCH 23/27] fix: every module imports without NumPy

---
 src/pymap3d/_numpy.py  | 79 ------------------------------------------
 src/pymap3d/mathfun.py | 46 +++++++++++++++++++++++-
 2 files changed, 45 insertions(+), 80 deletions(-)
 delete mode 100644 src/pymap3d/_numpy.py

diff --git a/src/pymap3d/_numpy.py b/src/pymap3d/_numpy.py
deleted file mode 100644
index 8c4b94f..0000000
--- a/src/pymap3d/_numpy.py
+++ /dev/null
@@ -1,79 +0,0 @@
-"""what pymap3d uses of Numpy, for mathfun"""
-
-from numpy import arccos as acos
-from numpy import arcsin as asin
-from numpy import arcsinh as asinh
-from numpy import arctan as atan
-from numpy import arctan2 as atan2
-from numpy import arctanh as atanh
-from numpy import (
-    asarray,
-    atleast_1d,
-    broadcast_arrays,
-    cbrt,
-    column_stack,
-    copysign,
-    cos,
-    degrees,
-    empty,
-    empty_like,
-    errstate,
-    exp,
-    finfo,
-    fmod,
-    hypot,
-    inf,
-    isclose,
-    isfinite,
-    isnan,
-    linspace,
-    log,
-    minimum,
-    ones_like,
-    power,
-    radians,
-    sign,
-    sin,
-    sqrt,
-    tan,
-    where,
-)
-
-__all__ = [
-    "acos",
-    "asarray",
-    "asin",
-    "asinh",
-    "atan",
-    "atan2",
-    "atanh",
-    "atleast_1d",
-    "broadcast_arrays",
-    "cbrt",
-    "column_stack",
-    "copysign",
-    "cos",
-    "degrees",
-    "empty",
-    "empty_like",
-    "errstate",
-    "exp",
-    "finfo",
-    "fmod",
-    "hypot",
-    "inf",
-    "isclose",
-    "isfinite",
-    "isnan",
-    "linspace",
-    "log",
-    "minimum",
-    "ones_like",
-    "power",
-    "radians",
-    "sign",
-    "sin",
-    "sqrt",
-    "tan",
-    "where",
-]
diff --git a/src/pymap3d/mathfun.py b/src/pymap3d/mathfun.py
index 219a3b9..cc84832 100644
--- a/src/pymap3d/mathfun.py
+++ b/src/pymap3d/mathfun.py
@@ -9,9 +9,53 @@ from __future__ import annotations
 
 from contextlib import nullcontext
 
+
+def _numpy_functions() -> dict:
+    from numpy import arccos as acos
+    from numpy import arcsin as asin
+    from numpy import arcsinh as asinh
+    from numpy import arctan as atan
+    from numpy import arctan2 as atan2
+    from numpy import arctanh as atanh
+    from numpy import (
+        asarray,
+        atleast_1d,
+        broadcast_arrays,
+        cbrt,
+        column_stack,
+        copysign,
+        cos,
+        degrees,
+        empty,
+        empty_like,
+        errstate,
+        exp,
+        finfo,
+        fmod,
+        hypot,
+        inf,
+        isclose,
+        isfinite,
+        isnan,
+        linspace,
+        log,
+        minimum,
+        ones_like,
+        power,
+        radians,
+        sign,
+        sin,
+        sqrt,
+        tan,
+        where,
+    )
+
+    return dict(locals())
+
+
 try:
     # all of them or none: a broken Numpy must not leave a mixture
-    from ._numpy import *  # noqa: F403
+    globals().update(_numpy_functions())
 except ImportError:
     from math import (  # type: ignore
         acos,
-- 
2.43.0


From 7e20dd574c7c1c74a8aefe943fdb0537a365f969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 24/27] fix: geodesic_area of radians

---
 src/pymap3d/karney.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymap3d/karney.py b/src/pymap3d/karney.py
index dfe7e71..c468490 100644
--- a/src/pymap3d/karney.py
+++ b/src/pymap3d/karney.py
@@ -1003,6 +1003,9 @@ def geodesic_area(
         j = (i + 1) % n
         dist_ij, azi1_ij, azi2_ij = geodesic_inverse(
             lats[i], lons[i], lats[j], lons[j], ell=ell, deg=deg)
+        if not deg:
+            # the sum of the azimuth differences is in degrees
+            azi1_ij, azi2_ij = math.degrees(azi1_ij), math.degrees(azi2_ij)
         perimeter += dist_ij
         if i == 0:
             azi1_first = azi1_ij
-- 
2.43.0


From 45a33361ccac166f69c9cba9ffff1dcff0c0f756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:15 +0000
Subject: [PATCH 25/27] fix: ecef2geodetic does not run under a raising NumPy
 error state

A call made meanwhile by e.g. a signal handler inherited it, and raised
FloatingPointError instead of returning a result.
---
 src/pymap3d/ecef.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index 3848352..3d45287 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -15,7 +15,7 @@ from math import pi
 from ._typing import FloatArray, FloatLike, NDArray
 from .eci import ecef2eci, eci2ecef
 from .ellipsoid import Ellipsoid, resolve_ellipsoid
-from .mathfun import atan, atan2, cos, degrees, errstate, hypot, isclose, radians, sin, sqrt, tan
+from .mathfun import atan, atan2, cos, degrees, hypot, isclose, isnan, radians, sin, sqrt, tan
 
 __all__ = [
     "geodetic2ecef",
@@ -207,15 +207,16 @@ def ecef2geodetic(
 
     def _beta_scalar(x: float, y: float, z: float) -> tuple:
         """using scalar math"""
+        # float raises ZeroDivisionError whatever the NumPy error state is
+        u_, hxy_, huE_ = float(u), float(hxy), float(huE)
         try:
-            # thread-local, unlike warnings.catch_warnings()
-            with errstate(divide="raise", over="raise", under="ignore", invalid="raise"):
-                Beta = atan(huE / u * z / hxy)
-                # eqn. 13
-                Beta += (
-                    (ell.semiminor_axis * u - ell.semimajor_axis * huE + E**2)
-                    * sin(Beta)
-                ) / (ell.semimajor_axis * huE * 1 / cos(Beta) - E**2 * cos(Beta))
+            Beta = atan(huE_ / u_ * z / hxy_)
+            # eqn. 13
+            Beta += (
+                (ell.semiminor_axis * u_ - ell.semimajor_axis * huE_ + E**2) * sin(Beta)
+            ) / (ell.semimajor_axis * huE_ * 1 / cos(Beta) - E**2 * cos(Beta))
+            if isnan(Beta) and not isnan(r):
+                raise ArithmeticError("infinite coordinates")
         except ArithmeticError:
             if isclose(z, 0):
                 Beta = 0
-- 
2.43.0


From a7205b56b3c46bf3e108b557d48e67909a12453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:28 +0000
Subject: [PATCH 26/27] fix: underflow in ecef2geodetic of scalars is not taken
 for a pole or the equator

Under a raising NumPy error state, FloatingPointError of an underflow went
the way of a division by zero, and the latitude was replaced by 0.
---
 src/pymap3d/ecef.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index 3d45287..572fa75 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -15,7 +15,7 @@ from math import pi
 from ._typing import FloatArray, FloatLike, NDArray
 from .eci import ecef2eci, eci2ecef
 from .ellipsoid import Ellipsoid, resolve_ellipsoid
-from .mathfun import atan, atan2, cos, degrees, hypot, isclose, isnan, radians, sin, sqrt, tan
+from .mathfun import atan, atan2, cos, degrees, errstate, hypot, isclose, isnan, radians, sin, sqrt, tan
 
 __all__ = [
     "geodetic2ecef",
@@ -210,11 +210,13 @@ def ecef2geodetic(
         # float raises ZeroDivisionError whatever the NumPy error state is
         u_, hxy_, huE_ = float(u), float(hxy), float(huE)
         try:
-            Beta = atan(huE_ / u_ * z / hxy_)
-            # eqn. 13
-            Beta += (
-                (ell.semiminor_axis * u_ - ell.semimajor_axis * huE_ + E**2) * sin(Beta)
-            ) / (ell.semimajor_axis * huE_ * 1 / cos(Beta) - E**2 * cos(Beta))
+            # a latitude of almost zero is not an error
+            with errstate(under="ignore"):
+                Beta = atan(huE_ / u_ * z / hxy_)
+                # eqn. 13
+                Beta += (
+                    (ell.semiminor_axis * u_ - ell.semimajor_axis * huE_ + E**2) * sin(Beta)
+                ) / (ell.semimajor_axis * huE_ * 1 / cos(Beta) - E**2 * cos(Beta))
             if isnan(Beta) and not isnan(r):
                 raise ArithmeticError("infinite coordinates")
         except ArithmeticError:
-- 
2.43.0


From f48b67f14804f4512989071984876cc4b4b2f8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:33 +0000
Subject: [PATCH 27/27] fix: the command line works without docstrings (python
 -OO)

---
 src/pymap3d/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/__main__.py b/src/pymap3d/__main__.py
index 901feed..0826788 100644
--- a/src/pymap3d/__main__.py
+++ b/src/pymap3d/__main__.py
@@ -132,7 +132,9 @@ def _register_commands(subparsers: argparse._SubParsersAction) -> dict[str, Any]
         ):
             continue
 
-        cmd_parser = subparsers.add_parser(name, help=(obj.__doc__ or "").strip().splitlines()[0])
+        # docstrings are stripped by "python -OO"
+        cmd_help = "".join((obj.__doc__ or "").strip().splitlines()[:1])
+        cmd_parser = subparsers.add_parser(name, help=cmd_help)
         cmd_parser.set_defaults(_func_name=name)
 
         for param in sig.parameters.values():
-- 
2.43.0

