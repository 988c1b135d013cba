#!/opt/venv/bin/python
"""replay.py FILE: run one recorded counterexample against the unmodified code. exit 1 = violation reproduced."""
import os
import sys
import tempfile
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
S = tempfile.mkdtemp(prefix="vr_")
for k, v in dict(OPENMDAO_REPORTS="0", OPENMDAO_WORKDIR=S, MPLBACKEND="Agg", MPLCONFIGDIR=S, PYTHONDONTWRITEBYTECODE="1",
                 OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1").items():
    os.environ[k] = v
import json  # noqa: E402

path = os.path.abspath(sys.argv[1])
os.chdir(S)
rc = 0
try:
    with open(path) as f:
        c = json.load(f)
    import importlib

    mod = importlib.import_module("props." + c["property"].lower())
    h = {h.name: h for h in mod.harnesses(c.get("tier", "quick"))}[c["harness"]]
    kw = {k: c[k] for k in ("of", "wrt", "i", "j") if k in c}
    bad, txt = h.replay(c["point"], c["label"], **kw)
    print(("REPRODUCED " if bad else "not reproduced ") + txt)
    rc = 1 if bad else 0
finally:
    os.chdir("/")
    shutil.rmtree(S, ignore_errors=True)
sys.exit(rc)
