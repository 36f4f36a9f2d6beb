# writes MANIFEST.json from properties.jsonl and the property modules that exist
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from dst import props
T = {
 "C01": "seeded deterministic scheduling of 2-4 real threads at statement/bytecode granularity; results against solo runs in pristine processes",
 "C02": "seeded simulation of call histories with scribbling, failing calls, cache clears and reused buffers; results against pristine processes",
 "C03": "seeded simulation with a host-state monitor at every statement, preemption and interrupts; full before/after snapshots",
 "C04": "seeded injection of host settings, before and at a chosen statement of a call, and fresh interpreters; results against pristine processes",
 "C05": "seeded crash points: asynchronous exceptions, allocation and recursion failures injected at chosen statements, then recovery checks",
 "C06": "seeded simulation with an argument-image monitor at every statement, aliased and read-only arguments, interrupts and concurrent calls",
 "C07": "seeded thread schedules of lookups, clears and interrupts; recorded history checked for linearizability against a reference map",
 "C08": "seeded histories and schedules of ellipsoid creation, mutation, death, clears and geodesic calls; results against pristine processes",
 "C09": "seeded instants in all representations under simulated host zone flips and wall-clock jumps at chosen statements",
 "C10": "seeded import-fault injection (blocked, nth-import, partial, late packages) and calls; results against healthy configurations",
 "C11": "seeded degenerate and corrupt arguments under a simulated step clock with per-call statement budgets, alone, batched and in threads",
 "C12": "seeded simulation of request coalescing: random batches with corrupt neighbours against single-element calls",
 "C13": "seeded simulation of the CLI process with injected stdout and argument faults; output against the library's own result",
 "C14": "seeded re-entry: nested calls injected at chosen statements of an outer call; results against pristine processes",
 "C15": "seeded stalls and forks: threads frozen at a chosen statement, then calls in survivors and in forked children",
}
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    ok = False
    if i in T:
        try:
            pr = props.get(i)
            ok = True
        except ModuleNotFoundError:
            pass
    if ok:
        checks.append({"property": i, "quick_cmd": "python3 -B -m dst.run %s --tier quick" % i, "thorough_cmd": "python3 -B -m dst.run %s --tier thorough" % i,
                       "technique": "deterministic simulation: " + T[i], "level": "exploration",
                       "level_note": getattr(pr, "note", None) or "random search over schedules, faults and inputs; a pass means no violation among the runs made, not absence"})
    elif i in T:
        na.append({"property": i, "reason": "check not built yet"})
    else:
        na.append({"property": i, "reason": "a relation between the inputs and the outputs of one pure call: no schedule, fault, clock, history or party for a simulator to control; only numerical testing or proof could decide it"})
m = {"version": 1, "setup_cmd": "python3 -B tools/setup.py", "checks": checks, "not_applicable": na}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
