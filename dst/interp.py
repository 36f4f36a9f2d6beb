"""Fresh interpreter helper: reads operations (JSON) on stdin, writes canonical outcomes on stdout."""
import json
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
filters = warnings.filters[:]
warnings.simplefilter("ignore")  # third-party imports may warn
from dst import codec, zygote  # noqa: E402

cfg = os.environ["DST_CFG"]
if cfg in ("np", "npl"):
    import numpy  # noqa: F401

    sys.meta_path.insert(0, zygote.Blocker({"astropy", "erfa"}))
sys.path.insert(0, os.environ["DST_SRC"])
warnings.filters[:] = filters
warnings._filters_mutated()
out = []
for op in json.load(sys.stdin):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            a, k = codec.op_args(op)
        out.append(codec.outcome(codec.resolve(op["f"]), a, k))
    except codec.SkipOp:
        out.append(["skip"])
sys.stdout.write(json.dumps(out))
sys.stdout.flush()
os._exit(0)
