#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] : decide one property on /repo's current tree."""
import os
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
SCRATCH = tempfile.mkdtemp(prefix="vf_")
for k, v in dict(OPENMDAO_REPORTS="0", OPENMDAO_WORKDIR=SCRATCH, MPLBACKEND="Agg", MPLCONFIGDIR=SCRATCH,
                 PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0",
                 PYTHONWARNINGS="ignore").items():
    os.environ[k] = v
os.chdir(SCRATCH)

import argparse  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import shutil  # noqa: E402
import subprocess  # noqa: E402


def load(prop):
    mod = importlib.import_module("props." + prop.lower())
    return mod


SLOW = {"M01", "T03", "U04"}  # quick runs of these use the smallest bounds


def level(prop, tier):
    """size of the bounds a module is asked for (see props/lib.pick)"""
    return "deep" if tier == "thorough" else "quick" if prop.upper() in SLOW else "thorough"


def child(prop, tier, name, path):
    from sx import core

    mod = load(prop)
    hs = {h.name: h for h in mod.harnesses(level(prop, tier))}
    r = core.run_harness(hs[name], tier)
    with open(path, "w") as f:
        json.dump(r, f, default=float)


def run_all(prop, tier, only=None, verbose=False):
    """fork one process per harness, 8 at a time; imports are shared"""
    with open(os.devnull, "w") as dn:
        so = os.dup(1)
        os.dup2(dn.fileno(), 1)
        try:
            from sx import core, omx  # noqa: F401

            mod = load(prop)
            hs = mod.harnesses(level(prop, tier))
        finally:
            os.dup2(so, 1)
            os.close(so)
    if only:
        hs = [h for h in hs if any(o in h.name for o in only)]
    names = [h.name for h in hs]
    if len(set(names)) != len(names):
        sys.exit("duplicate harness names: %s" % sorted({n for n in names if names.count(n) > 1})[:5])
    todo = sorted(hs, key=lambda h: -h.budget)
    running = {}
    results = {}
    limit = float(os.environ.get("SX_WALL", "560" if tier == "quick" else "3300"))
    t0 = time.time()
    known = load_known()
    kill_at = limit + 80
    found = hurry = False  # found: a counterexample that no known finding explains awaits its replay; report it in time
    ncpu = int(os.environ.get("SX_JOBS", "8"))
    while todo or running:
        while todo and len(running) < ncpu:
            h = todo.pop(0)
            if time.time() - t0 > limit:
                results[h.name] = dict(name=h.name, goals=0, discharged=0, inconclusive=[h.name + ": not started, wall limit"],
                                       candidates=[], functions=[], bounds=[], paths=0, notes=[], stats={}, wall=0, witness=False)
                continue
            out = os.path.join(SCRATCH, "r%d.json" % len(results) + h.name.replace("/", "_")[:80])
            pid = os.fork()
            if pid == 0:
                try:
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    if not verbose:
                        os.dup2(dn, 2)
                    import resource

                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    wd = tempfile.mkdtemp(dir=SCRATCH)
                    os.chdir(wd)
                    r = core.run_harness(h, tier)
                    with open(out, "w") as f:
                        json.dump(r, f, default=float)
                except BaseException as e:  # noqa
                    try:
                        with open(out + ".err", "w") as f:
                            f.write(repr(e))
                    except Exception:
                        pass
                os._exit(0)
            running[pid] = (h, out, time.time())
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.01)
            for k, (h, out, ts) in list(running.items()):
                b = h.budget if tier == "quick" else max(h.budget * 3, 150)
                if time.time() - ts > b * 1.5 + 40 or time.time() - t0 > kill_at:
                    os.kill(k, 9)
            if found and not hurry and time.time() - t0 > limit / 2:
                hurry = True
                limit, kill_at = time.time() - t0, time.time() - t0 + 40
            continue
        if pid not in running:
            continue
        h, out, ts = running.pop(pid)
        try:
            with open(out) as f:
                results[h.name] = json.load(f)
            found = found or any(match_known(known, prop, dict(c, harness=c.get("harness", h.name))) is None for c in results[h.name]["candidates"])
        except Exception:
            err = ""
            if os.path.exists(out + ".err"):
                err = open(out + ".err").read()[:300]
            results[h.name] = dict(name=h.name, goals=0, discharged=0,
                                   inconclusive=["%s: worker died (%s, status %s)" % (h.name, err, st)], candidates=[],
                                   functions=[], bounds=[], paths=0, notes=[], stats={}, wall=time.time() - ts, witness=False)
    return mod, [results[n] for n in names]


def replay_candidates(prop, tier, results, maxn=24):
    """confirm each candidate on the unpatched code in a fresh process"""
    rdir = os.path.join(HERE, "out", "replays")
    os.makedirs(rdir, exist_ok=True)
    cands = []
    for r in results:
        per = {}
        for c in r["candidates"]:
            k = c.get("of", "") + "|" + c.get("wrt", "") + "|" + (c["label"].split("[")[0] if c["kind"] != "deriv" else "")
            per.setdefault(k, []).append(c)
        # a few representatives of every distinct (harness, goal)
        for k, v in per.items():
            cands += v[:2]
    procs = []
    res = []
    idx = 0
    pend = list(enumerate(cands))
    run = []
    t0 = time.time()
    first, limit = os.environ.get("SX_FIRST"), float(os.environ.get("SX_REPLAY_WALL", "200"))
    known = load_known()
    while pend or run:
        if pend and (first or time.time() - t0 > limit / 4) and any(r[2] == 1 and match_known(known, prop, r[0]) is None for r in res):
            pend = []  # a confirmed violation is enough when time is short
        if time.time() - t0 > limit:
            for i, c in pend:
                res.append((c, "", -1, "not replayed: wall limit"))
            pend = []
        while pend and len(run) < 8:
            i, c = pend.pop(0)
            c = dict(c)
            c["property"] = prop
            c["tier"] = level(prop, tier)
            path = os.path.join(rdir, "%s-%03d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump(c, f, indent=1)
            p = subprocess.Popen([sys.executable, os.path.join(HERE, "replay.py"), path], stdout=subprocess.PIPE,
                                 stderr=subprocess.STDOUT, text=True)
            run.append((p, c, path, time.time()))
        for t in list(run):
            p, c, path, ts = t
            if p.poll() is not None:
                out = p.stdout.read()
                res.append((c, path, p.returncode, out.strip().splitlines()[-1] if out.strip() else ""))
                run.remove(t)
            elif time.time() - ts > 120:
                p.kill()
                p.wait()
                res.append((c, path, -1, "replay timed out"))
                run.remove(t)
        time.sleep(0.02)
    return res


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def match_known(known, prop, c):
    """an entry names the harness and the goal (label); labels are compared without element indices"""
    import re

    for k in known:
        if k["property"] != prop:
            continue
        if not re.fullmatch(k["harness"], c["harness"]):
            continue
        if re.fullmatch(k["label"], c["label"]):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", action="append")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    mod, results = run_all(prop, a.tier, a.only, a.v)
    conf = replay_candidates(prop, a.tier, results)
    known = load_known()
    violations, knownhits, unrep = [], {}, []
    for c, path, rc, txt in sorted(conf, key=lambda t: t[1]):
        if rc == 1:
            k = match_known(known, prop, c)
            if k is not None:
                knownhits.setdefault(k["id"], (k, txt))
                if os.path.exists(path):
                    os.unlink(path)
            else:
                violations.append((c, path, txt))
        else:
            unrep.append("%s %s: counterexample not reproduced on the real code (%s) [%s]" % (
                c["harness"], c["label"], txt, c.get("text", "")))
            if path and os.path.exists(path) and not a.v:
                os.unlink(path)
    goals = sum(r["goals"] for r in results)
    disc = sum(r["discharged"] for r in results)
    inc = [x for r in results for x in r["inconclusive"]] + unrep
    stats = {}
    for r in results:
        for k, v in r["stats"].items():
            stats[k] = round(stats.get(k, 0) + v, 3)
    paths = sum(r["paths"] for r in results)
    vac = [r["name"] for r in results if r["goals"] and not r["witness"] and not r["candidates"]]
    funcs = sorted({f for r in results for f in r["functions"]})
    wall = time.time() - t0
    for k, txt in knownhits.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for c, path, txt in violations:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s / %s: %s" % (c["harness"], c["label"], txt))
    if a.v:
        for r in results:
            print("  %-60s goals %5d ok %5d paths %3d q %4s %6.1fs%s%s" % (
                r["name"][:60], r["goals"], r["discharged"], r["paths"], r["stats"].get("queries"), r["wall"],
                "" if r["witness"] else " NOWITNESS", " INC%d" % len(r["inconclusive"]) if r["inconclusive"] else ""))
        for x in inc:
            print("  INCONCLUSIVE", x)
    print("%s [%s]: %d harnesses, %d paths, %d obligations, %d discharged, %d inconclusive, %d violations, %d known; "
          "%d solver queries %.1fs; wall %.1fs" % (prop, a.tier, len(results), paths, goals, disc, len(inc),
                                                  len(violations), len(knownhits), stats.get("queries", 0),
                                                  stats.get("solver_s", 0.0), wall))
    title = getattr(mod, "TITLE", prop)
    ev = {
        "property": prop,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "other",
        "coverage": {
            "explanation": getattr(mod, "EXPLANATION", "symbolic execution of the real component code with z3 deciding "
                                   "every obligation over all real input values of the stated domains"),
            "functions_encoded": funcs,
            "bounds": getattr(mod, "BOUNDS", []) + sorted({b for r in results for b in r["bounds"]}),
            "harnesses": len(results),
            "paths": paths,
            "obligations": goals,
            "discharged": disc,
            "inconclusive": inc[:80],
            "solver": dict(stats, backend="z3"),
            "reachability_witnessed": len(results) - len(vac),
            "no_witness": vac[:40],
            "known_findings_hit": sorted(knownhits),
            "candidates_replayed": len(conf),
        },
        "wall_s": round(wall, 2),
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + COMMON + sorted({n for r in results for n in r["notes"]}),
        "violations": len(violations),
    }
    if not a.only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if violations:
        return 1
    if disc == 0:
        print("no obligation could be decided")
        return 2
    return 0


COMMON = [
    "floating-point numbers are treated as exact reals; float constants stand for their shortest decimal (or the small "
    "rational that rounds to them)",
    "an equality obligation is accepted when the two sides agree to 1e-6 of the summed magnitude of their terms "
    "(rounded literature constants)",
    "inputs range over the stated sign domains (positive unless the harness says otherwise); denominators and "
    "radicands are assumed inside the formula's own real domain",
    "OpenMDAO, numpy and scipy behave as their documentation says; their code is not encoded",
]

if __name__ == "__main__":
    rc = 2
    try:
        rc = main()
    finally:
        os.chdir("/")
        shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
