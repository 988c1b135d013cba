"""Derivative harnesses: every Explicit/ImplicitComponent found in the listed modules, in several configurations."""
import fnmatch
import importlib
import pkgutil
import numpy as np

from sx import core
import openmdao.api as om
from .lib import pick

R = (None, None)
REAL = ["fltcond|h", "fltcond|TempIncrement", "*TempIncrement", "fltcond|vs", "*gamma", "gamma", "*sweep", "q_in", "q_out", "q",
        "heat*", "delta_T", "delta_p", "braking", "lift", "thrust", "drag", "vec*", "x_LE_sec", "delta_m_liq", "array",
        "dqdt*", "*rate*", "q0*", "*_initial", "start_val", "end_val", "T_out*", "throttle", "elec_load",
        "shaft_power*", "power_in", "T_object", "takeoff|*", "distance*"]
NUMSKIP = {"wick_thickness", "num_nodes", "num_x", "num_y", "num_sections", "num_blades", "order", "num_intervals", "vec_size", "n_components",
           "n_batteries", "idx_sec_start", "idx_sec_end", "aircraft_life_years", "aircraft_daily_cycles",
           "battery_replacement_cycles", "K_door", "K_lg"}
STD = {"distributed", "run_root_only", "always_opt", "use_jit", "default_shape", "derivs_method", "assembled_jac_type"}


def dom_for(extra):
    d = {}
    d.update(extra or {})
    return d


class AutoDeriv(core.Deriv):
    def domain(self, k, meta):
        for pat, d in self.dom.items():
            if fnmatch.fnmatchcase(k, pat):
                return d
        for pat in REAL:
            if fnmatch.fnmatchcase(k, pat):
                return R
        v = np.asarray(meta["val"], dtype=float)
        if np.any(v < 0):
            return R
        return (0, None)


def classes(modnames):
    for m in modnames:
        mod = importlib.import_module(m)
        mods = [mod]
        if hasattr(mod, "__path__"):
            for s in pkgutil.walk_packages(mod.__path__, m + "."):
                if ".tests" in s.name or ".examples" in s.name:
                    continue
                mods.append(importlib.import_module(s.name))
        for mm in mods:
            for n, c in sorted(vars(mm).items()):
                if isinstance(c, type) and issubclass(c, (om.ExplicitComponent, om.ImplicitComponent)) \
                        and c.__module__ == mm.__name__:
                    yield n, c


def perturbed(inst, k):
    """every numeric option moved away from its default"""
    out = {}
    for n, v in inst.options._dict.items():
        if n in STD or n in NUMSKIP:
            continue
        x = v["val"]
        if isinstance(x, bool) or not isinstance(x, (int, float)):
            continue
        if isinstance(x, int) and abs(x) < 20:
            continue
        f = (1.07 + 0.011 * len(out)) if k == 0 else (0.83 - 0.013 * len(out))
        nv = x * f if x else (0.13 if k == 0 else 0.07)
        try:
            inst.options[n] = nv
            out[n] = nv
        except Exception:
            pass
    return out


def choices(inst):
    """switches and closed lists of values that the component offers besides the default"""
    for n, v in inst.options._dict.items():
        if n in STD:
            continue
        if isinstance(v["val"], bool):
            yield n, not v["val"]
        elif v.get("values"):
            for x in v["values"]:
                if x != v["val"]:
                    yield n, x


def harnesses_for(modnames, tier, special=None, skip=()):
    """special: class name -> list of dicts(opts=..., name=..., dom=..., base=..., conn=..., make=...) replacing the defaults"""
    special = special or {}
    out = []
    seen = set()
    for n, c in classes(modnames):
        if n in skip:
            continue
        seen.add(n)
        specs = special.get(n)
        if specs is None:
            specs = [{}]
        for s in specs:
            out += variants(n, c, s, tier)
    return out


def variants(n, c, s, tier):
    opts = dict(s.get("opts", {}))
    kw = {k: s[k] for k in ("dom", "conn", "values", "fixed", "base", "budget", "max_paths", "pre", "tol") if k in s}
    tag = s.get("name", "")
    make = s.get("make")
    res = []

    def mk(o):
        if make:
            return make(**o)
        return c(**o)

    try:
        probe = mk(dict(opts, num_nodes=1) if s.get("nn", True) and make is None else opts)
        has_nn = "num_nodes" in probe.options._dict
    except Exception:
        try:
            probe = mk(opts)
            has_nn = "num_nodes" in probe.options._dict
        except Exception:  # reported as undecided instead of being left out
            return [AutoDeriv("/".join(x for x in (n, tag, "cannot be built") if x), (lambda: mk(opts)), **kw)]
    nns = s.get("nns", pick(tier, (1, 3), (1, 2, 3, 4, 11), (1, 2, 3, 4, 6, 11, 21)))
    cfgs = []
    if has_nn and make is None and "num_nodes" not in opts:
        for nn in nns:
            cfgs.append(("nn=%d" % nn, dict(opts, num_nodes=nn)))
    else:
        cfgs.append(("", dict(opts)))
    if s.get("perturb", True) and make is None:
        for k in (pick(tier, (0,), (0, 1), (0, 1))):
            o = dict(cfgs[0][1])
            try:
                p = perturbed(mk(o), k)
            except Exception:
                p = {}
            p = {a: b for a, b in p.items() if a not in s.get("opts", {})}
            if p:
                o.update(p)
                cfgs.append(("options%d" % k, o))
    if s.get("perturb", True) and make is None:
        for a, v in choices(probe):
            if a not in s.get("opts", {}):
                cfgs.append(("%s=%s" % (a, v), dict(cfgs[-1][1] if cfgs[-1][0].startswith("options") else cfgs[0][1], **{a: v})))
    for lab, o in cfgs:
        nm = "/".join(x for x in (n, tag, lab) if x)
        res.append(AutoDeriv(nm, (lambda o=o: mk(o)), bounds="options %s" % _short(o), **kw))
    return res


def _short(o):
    return ", ".join("%s=%s" % (k, v if not callable(v) else getattr(v, "__name__", v)) for k, v in o.items())[:300] or "defaults"
