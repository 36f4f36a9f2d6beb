# writes properties.jsonl (kept so that the list and the file stay in step)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=[observe],hook_needed=None)))
A="src/pymap3d/"
p("C01","Concurrent calls from several threads return what each would return alone",
 "When any number of threads call any of the library's functions at the same time, each call returns (or raises) exactly what the same call with the same arguments returns when it runs alone in a fresh process. This holds for every interleaving of the calls, including two threads inside the same function, and for the very first call made by a process. No call is blocked for ever by another.",
 ["schedules","inputs"],"Every interleaving, at every statement (and bytecode) boundary, of 2-4 threads issuing calls drawn from the whole public API; inputs include near-identical siblings of each other.",
 "A unit test runs one call at a time in one thread; races need two calls suspended at particular statements and there are unboundedly many interleavings.",
 [A+"__init__.py",A+"ellipsoid.py",A+"vincenty.py",A+"ecef.py",A+"latitude.py",A+"karney.py"],
 [("lazily filled process-wide caches","ellipsoid.py: from_name / get_cached_geodesic"),("error-trapping of float warnings","ecef.py: ecef2geodetic; vincenty.py: vdist; latitude.py: geodetic2conformal")],
 "return values and exceptions of the public functions")
p("C02","No call's result depends on the calls made before it",
 "A library call returns (or raises) exactly what it returns as the first call of a fresh process, whatever sequence of library calls came before it in the same process, how often the same or nearly equal arguments were used before, and whether earlier calls failed. This stays true when the caller overwrites in place the arrays and lists that earlier calls returned or that it passed to earlier calls.",
 ["histories","inputs"],"Every finite history of public calls (repeats, near-identical siblings, other ellipsoids, other units, other argument types, failing calls, cache clears, hundreds of distinct arguments) interleaved with in-place scribbling over earlier results and arguments.",
 "Tests check single calls or short fixed sequences; a stale memo, leaked scratch buffer or mutable default shows only after a particular multi-call history.",
 [A+"__init__.py",A+"ellipsoid.py",A+"karney.py",A+"earth_orientation.py",A+"mathfun.py"],
 [("process-wide caches","ellipsoid.py: from_name, get_cached_geodesic, clear_ellipsoid_caches"),("module tables","earth_orientation.py: leap-second table; ellipsoid.py: models")],
 "return values of public functions along a call history")
p("C03","Calls never change process-wide or thread-wide settings of the host program",
 "No library call, whether it returns, raises or is interrupted, leaves changed any setting that belongs to the host program: warning filters and hooks, logging configuration, NumPy error state and print options, random generators, environment, time zone, locale, decimal context, recursion limit, signal handlers, working directory, standard streams, GC settings or threads. Settings shared by all threads are not changed even temporarily while a call is running, so no other thread ever observes a change.",
 ["schedules","inputs","fault_sequences"],"Every public call with every input (including degenerate and failing ones), observed from outside after the call and from other threads at every statement of the call, also when the call is interrupted part-way.",
 "Tests look at return values; a transient or error-path change of a global setting is invisible to them and only harms unrelated code in another thread.",
 [A+"ecef.py",A+"vincenty.py",A+"latitude.py",A+"karney.py",A+"eci.py"],
 [("float-error trapping","ecef.py: ecef2geodetic; vincenty.py: vdist; latitude.py: geodetic2conformal"),("diagnostics","vincenty.py: antipodal warning")],
 "process state around and during public calls")
p("C04","Results do not depend on the host program's ambient settings",
 "A call's result is the same whatever the warning filters, NumPy error-handling mode, logging configuration, locale, decimal context, host wall clock and its jumps, random-generator state, GC mode, hash seed or assertion-stripping mode of the host process. Where the host asked for floating-point errors or warnings to be raised a call may raise them, but it never returns a different value.",
 ["configurations","inputs","fault_sequences"],"Every public call under every combination of ambient settings, including settings that another thread flips while the call is running.",
 "The test suite runs under one ambient configuration; fallbacks selected by a trapped warning silently change result when the host silences or escalates it.",
 [A+"ecef.py",A+"vincenty.py",A+"latitude.py",A+"sidereal.py",A+"timeconv.py"],
 [("fallback selected by trapped float error","ecef.py: ecef2geodetic; vincenty.py: vdist; latitude.py: geodetic2conformal")],
 "return values of public functions under simulated host configurations")
p("C05","An interrupted call leaves nothing behind",
 "When a call is cut short at any instant by an asynchronous exception (keyboard interrupt, alarm, memory exhaustion, stack exhaustion), it either still returns the correct result or lets that exception reach the caller; it never returns a wrong value. Every later call in the process, in any thread, then returns exactly what it would return in a fresh process and is not blocked.",
 ["crash_points","fault_sequences","inputs"],"Every statement of every public call as the interruption point, several interruptions in a row, first-use (cold) and warm state, followed by any later calls.",
 "Tests never interrupt a call; half-initialised caches or locks left held appear only for an exception at one particular statement.",
 [A+"ellipsoid.py",A+"karney.py",A+"vincenty.py",A+"ecef.py",A+"nvector.py"],
 [("cache fill on first use","ellipsoid.py: from_name, get_cached_geodesic; karney.py: geodesic construction")],
 "results of calls after an injected asynchronous exception")
p("C06","Objects passed in by the caller are never modified",
 "No call modifies any object the caller passed in - arrays of any shape, dtype or memory layout, lists, datetime arrays or ellipsoid objects - neither in its final state nor temporarily while the call is running, whether the call succeeds or fails. Read-only arrays are therefore accepted wherever writable ones are, with the same results.",
 ["schedules","inputs","fault_sequences"],"Every public function, array-capable argument, unit flag and degenerate element (poles, zeros, antipodes, NaN), with the arguments observed by another thread at every statement of the call, and with calls that fail or are interrupted.",
 "Tests pass freshly built literals and never look at them again; in-place updates happen only for particular elements such as exact poles or tiny values.",
 [A+"enu.py",A+"vincenty.py",A+"los.py",A+"lox.py",A+"latitude.py",A+"eci.py"],
 [("in-place zero trimming","enu.py: enu2aer"),("pole nudging","vincenty.py: vdist, vreckon"),("array masking","lox.py, los.py, latitude.py")],
 "byte image of arguments at every step and after the call")
p("C07","Named-ellipsoid lookup is linearizable, with one shared object per name",
 "Looking up a named ellipsoid behaves, under any concurrent mix of lookups, cache clears and interrupted or failing lookups, like an atomic map: all lookups between two clears return the very same object, a lookup that starts after a clear has returned yields a new object, and every returned object has the published parameters of that name. Unknown names raise KeyError and leave no trace, subclasses get instances of themselves, and after a clear the library keeps none of the old objects alive.",
 ["schedules","histories","crash_points"],"Every interleaving of concurrent lookups (equal and different names, direct and through other public calls), clears, subclass lookups, unknown names and interrupts, starting from a cold or warm cache.",
 "Tests call lookup twice from one thread; double construction on a cold cache and clear/lookup races need a particular interleaving.",
 [A+"ellipsoid.py"],[("name lookup cache","ellipsoid.py: Ellipsoid.from_name"),("clear","ellipsoid.py: clear_ellipsoid_caches")],
 "identity and fields of the returned objects; liveness of old ones")
p("C08","Geodesic solutions always belong to the ellipsoid given at the call",
 "Geodesic distances, azimuths, positions, lines and areas always belong to the axes the given ellipsoid object has at the time of the call, for any history of calls with other ellipsoids: same name or model but different axes, equal axes in different objects, objects changed after an earlier use, objects freed and replaced, copies and unpickled ones. This holds whatever threads use, change or clear ellipsoids concurrently and wherever an earlier call was interrupted: a call whose own ellipsoid nobody changes meanwhile is never affected.",
 ["schedules","histories","crash_points"],"Every interleaving and history of geodesic calls, ellipsoid mutation, object death and reuse, cache clears and interruptions over many ellipsoids that differ in name only or in axes only.",
 "Tests use a couple of long-lived ellipsoids in sequence; a wrongly keyed or poisoned cache entry needs a particular history or race.",
 [A+"ellipsoid.py",A+"karney.py"],[("geodesic object cache","ellipsoid.py: get_cached_geodesic, ellipsoid_cache_key"),("public geodesic functions","karney.py")],
 "values returned by the geodesic functions")
p("C09","Time arguments denote instants, independent of host time zone and clock changes",
 "Every time-taking function depends only on the instant its time argument denotes: a naive datetime is UTC, an aware one is converted through its own offset, including both sides of daylight-saving folds and gaps, and equal instants give equal results in every representation the function accepts. The host's TZ setting, changes of it at any moment, and the host's wall clock never matter.",
 ["configurations","fault_sequences","inputs"],"Every instant (leap-second and DST edges, ambiguous and skipped local times, microseconds, far past and future), every representation (naive, fixed-offset, zoned with fold, ISO string, datetime array element) and every host-zone change before or during the call.",
 "The suite runs with TZ=UTC and never changes the zone; ambiguity and wall-clock arithmetic only bite for aware times next to a transition or on hosts in other zones.",
 [A+"earth_orientation.py",A+"sidereal.py",A+"timeconv.py",A+"eci.py",A+"aer.py"],
 [("UTC normalisation","earth_orientation.py: ensure_utc, utc_with_offset"),("numerical time derivative","earth_orientation.py: eci_to_ecef_matrix_rate"),("string/array times","timeconv.py: str2dt; sidereal.py")],
 "results of the time-taking functions under simulated host clock and zone")
p("C10","Missing or failing optional packages never break what works without them",
 "If NumPy or astropy is absent, partly broken, fails to import at any point, or is imported later by other code, importing the library still succeeds and each call either works or raises ImportError where that package is genuinely required - never an unrelated error. Calls that request the non-astropy implementation return the same values in every such configuration, and scalar calls return the same values with and without NumPy up to rounding.",
 ["configurations","fault_sequences","schedules"],"Every point at which an import of NumPy, astropy or one of their submodules can fail (permanently or once), every combination of present packages, and every moment at which they appear in the process, followed by any public calls.",
 "CI has two fixed environments (all packages, none); partial failures and late arrivals are not among them.",
 [A+"__init__.py",A+"_dummy.py",A+"mathfun.py",A+"eci.py",A+"sidereal.py",A+"azelradec.py",A+"haversine.py",A+"vallado.py"],
 [("optional imports","top of eci.py, sidereal.py, azelradec.py, haversine.py, mathfun.py"),("run-time path selection","eci.py, sidereal.py, azelradec.py, haversine.py")],
 "outcome of import and of public calls under injected import failures")
p("C11","Every call finishes within a bounded amount of work",
 "Every public call with arguments of any magnitude or degeneracy - antipodal and coincident points, poles, huge or tiny distances, NaN, infinities, flattened or spherical ellipsoids, signed zeros - finishes (by returning or raising) after a number of executed statements bounded independently of the argument values. The bound holds for each element of a batch and also when several threads run such calls at once.",
 ["inputs","schedules","fault_sequences"],"Every public function and every argument magnitude or corrupted argument value, alone, in batches and interleaved with other threads; the quantity bounded is executed library statements, not seconds.",
 "Iterative solvers are tested on inputs known to converge; non-termination occurs for rare inputs where the stopping test can never be met.",
 [A+"vincenty.py",A+"karney.py",A+"latitude.py",A+"lox.py",A+"ecef.py",A+"rcurve.py"],
 [("fixed-point loops","vincenty.py: vdist, vreckon"),("Newton/bisection loop","karney.py: inverse"),("series/iteration","latitude.py, ecef.py")],
 "executed statements per call")
p("C12","Batching is transparent and one bad element never affects its batch-mates",
 "For every function that accepts arrays, each element of the result equals (to rounding) what a call with that element alone returns, however requests are coalesced into arrays: any length, order, shape, memory layout, or mix of neighbours. In particular an element that is corrupt or degenerate (NaN, infinite, polar, antipodal, coincident, zero, extreme) changes no other element's result and does not make the call fail, unless that element on its own is rejected with an error.",
 ["schedules","fault_sequences","inputs"],"Every coalescing schedule of a request stream into batches and every injection of corrupt or degenerate elements into them, for all array-capable functions.",
 "Tests compare small arrays of well-behaved points; leakage between elements needs a particular bad neighbour in the same batch.",
 [A+"vincenty.py",A+"enu.py",A+"ecef.py",A+"eci.py",A+"lox.py",A+"latitude.py",A+"los.py",A+"nvector.py",A+"rsphere.py"],
 [("whole-batch branches","vincenty.py: vdist, vreckon; ecef.py: ecef2geodetic; lox.py; latitude.py"),("element loops","eci.py: _apply_rotation, _apply_state_rotation")],
 "elements of vectorised results against single-element results")
p("C13","Command-line output is complete and correct whenever it exits successfully",
 "The command-line tool exits 0 only if the complete result, equal to what the library call with those arguments gives and rendered in the requested format and precision, has been accepted by standard output. When output or arguments fail (full disk, closed pipe, short or interrupted write, bad argument, unknown command) it exits non-zero; it never pairs success with truncated, missing or wrong output, and JSON output is always valid JSON. A well-formed invocation that meets no fault succeeds.",
 ["fault_sequences","inputs","configurations"],"Every command, option combination and argument list, and every failure of the output stream at every write, flush and byte offset.",
 "The command-line tool has no tests, and output failures need a faulty stream.",
 [A+"__main__.py"],[("argument conversion","__main__.py: main"),("result rendering","__main__.py: format/print")],
 "exit status, standard output bytes and standard error of the tool")
p("C14","Calls are re-entrant at every instant",
 "A library call made from inside another one, at any instant - by a signal handler, a finaliser, a logging or warning hook, a tracing hook or an argument's own methods - returns what it would return alone, and the outer call, once resumed, does too. Nesting never deadlocks, whatever caches are cold or are cleared by the nested call.",
 ["schedules","crash_points","inputs"],"Every statement of every public call as the point where one or more nested public calls (same function, siblings, cache clears) run to completion, to several levels of nesting.",
 "Tests never call the library from within itself; re-entrancy failures need a nested call at one particular statement.",
 [A+"ellipsoid.py",A+"karney.py",A+"vincenty.py",A+"ecef.py"],
 [("cache fill on first use","ellipsoid.py"),("error trapping and diagnostics","vincenty.py, ecef.py, latitude.py")],
 "results of nested and outer calls")
p("C15","Stalled threads and forked children never inherit a broken library",
 "If some threads stall for ever inside library calls, or the process forks while other threads are at any instant inside library calls, then every call in the surviving threads, in the parent and in the child completes and returns what it would in a fresh process, including calls that need the same caches. Cache clears in the surviving process work as usual.",
 ["schedules","crash_points","fault_sequences"],"Every combination of statements at which other threads are frozen at the moment of the fork or stall, cold and warm caches, followed by any public calls in the survivor.",
 "Needs a fork or an abandoned thread at a particular statement; tests are single-threaded and never fork.",
 [A+"ellipsoid.py",A+"karney.py",A+"vincenty.py",A+"ecef.py",A+"latitude.py"],
 [("process-wide caches","ellipsoid.py"),("error trapping of float warnings","ecef.py, vincenty.py, latitude.py")],
 "results of calls in the surviving threads / forked child")
def n(id,title,statement,files,mech,why):
    p(id,title,statement,["inputs"],"All real-valued inputs in the documented domain.",why,files,mech,"return values of the public functions")
T="Equality must hold for all inputs; tests sample a handful of points."
n("N01","Geodetic <-> ECEF conversion is accurate and round-trips everywhere",
 "Converting geodetic coordinates to ECEF follows the ellipsoid's closed form, and converting back recovers latitude, longitude and height to sub-millimetre level for all positions (poles, equator, near the centre, far space) and all supported ellipsoids.",
 [A+"ecef.py"],[("geodetic2ecef / ecef2geodetic","ecef.py")],T)
n("N02","Local-frame conversions are mutually inverse rigid motions",
 "East-north-up, north-east-down, north-west-up, south-east-zenith, body, downrange-crossrange and azimuth-elevation-range conversions are rigid motions of each other and of ECEF: they preserve distances, their matrices are orthonormal, each pair is mutually inverse and compositions agree with direct conversions.",
 [A+"enu.py",A+"ned.py",A+"nwu.py",A+"sez.py",A+"aer.py",A+"dca.py",A+"body.py",A+"frames.py"],[("rotation formulas","all frame modules")],T)
n("N03","Geodesic inverse and direct solutions are accurate and mutually inverse",
 "The robust geodesic solver gives true shortest distances and azimuths for every pair of points, including nearly antipodal ones, and its direct solution inverts its inverse solution; areas are signed and additive.",
 [A+"karney.py"],[("inverse/direct/area","karney.py")],T)
n("N04","Vincenty distance and reckoning agree with true geodesics",
 "Vincenty distance and reckoning agree with the true geodesic to millimetres except near antipodes, and reckoning inverts distance.",
 [A+"vincenty.py"],[("vdist/vreckon/track2","vincenty.py")],T)
n("N05","Rhumb-line functions are consistent",
 "Rhumb-line inverse, direct, meridian distance, departure and mean latitude agree with each other on every ellipsoid and across the date line.",
 [A+"lox.py"],[("loxodrome_inverse/direct","lox.py")],T)
n("N06","Auxiliary latitudes are monotone and invertible",
 "Geocentric, parametric, rectifying, conformal, isometric and authalic latitudes are odd, monotone, fix equator and poles, and each inverse undoes its forward map.",
 [A+"latitude.py"],[("forward/inverse pairs","latitude.py")],T)
n("N07","Spherical and n-vector conversions round-trip",
 "Spherical and n-vector conversions, distances, means and cross-track distances agree with geodetic ones and round-trip.",
 [A+"spherical.py",A+"nvector.py"],[("conversions","spherical.py, nvector.py")],T)
n("N08","Radii of curvature and equivalent sphere radii match the ellipsoid's geometry",
 "Radii of curvature and mean radii satisfy their defining identities on every ellipsoid.",
 [A+"rcurve.py",A+"rsphere.py"],[("radius formulas","rcurve.py, rsphere.py")],T)
n("N09","Line-of-sight intersection lies on the ellipsoid and on the ray",
 "The returned intersection lies on the ellipsoid surface and on the line of sight at the returned range, and no solution is reported exactly when the ray misses.",
 [A+"los.py"],[("lookAtSpheroid","los.py")],T)
n("N10","Degree and radian modes agree",
 "Calling any function in radians equals calling it in degrees with converted angles.",
 [A+"ecef.py",A+"enu.py",A+"vincenty.py",A+"karney.py",A+"latitude.py"],[("deg flag","all modules")],T)
n("N11","Earth orientation follows the published models",
 "Julian dates, leap seconds, sidereal time, precession-nutation, the celestial-terrestrial rotation and its rate follow the published models for every instant, the rotation is orthonormal, inertial and Earth-fixed conversions are inverse, and UT1 and polar-motion corrections are honoured by every function that accepts them.",
 [A+"earth_orientation.py",A+"sidereal.py",A+"eci.py",A+"azelradec.py",A+"vallado.py"],[("matrices and time scales","earth_orientation.py")],T)
n("N12","Ellipsoid parameters are consistent",
 "Every named ellipsoid has the published axes, and flattening, third flattening and eccentricity are consistent with them.",
 [A+"ellipsoid.py"],[("model table","ellipsoid.py")],T)
import sys
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
