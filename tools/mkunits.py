"""Writes props/units.json: the units each component declared when the harnesses were written (the units their numbers mean).
Run by hand on a tree whose units are right; never run by a check."""
import glob
import importlib
import json
import os
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
os.environ["OC_UNITS_RECORD"] = "1"
from sx import core, omx  # noqa: E402

for f in sorted(glob.glob(os.path.join(H, "props", "[a-z][0-9][0-9].py"))):
    m = importlib.import_module("props." + os.path.basename(f)[:-3])
    for h in m.harnesses("thorough"):
        if not isinstance(h, (core.Semantic, core.Continuity)):
            continue
        try:
            with omx.quiet():
                h.fn(core.Env(real_point={}))
        except Exception as e:
            pass
out = {}
for c, d in sorted(core.RECORD.items()):
    e = {k: next(iter(v)) for k, v in sorted(d.items()) if len(v) == 1 and next(iter(v)) is not None}
    if e and c not in ("AddSubtractComp", "ElementMultiplyDivideComp", "VectorConcatenateComp", "VectorSplitComp", "DVLabel", "Integrator", "OldIntegrator"):
        out[c] = e
json.dump(out, open(os.path.join(H, "props", "units.json"), "w"), indent=0, sort_keys=True)
print(len(out), "classes")
