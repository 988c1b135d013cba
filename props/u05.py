import importlib
import sys
import numpy as np
import openmdao.api as om
from sx.core import Semantic
from sx import core, npx, omx, expr as X
from .lib import flat, pick

TITLE = "Results depend only on the current inputs and options"
BOUNDS = ["every component of the library in the configurations of the derivative properties (one per class and option set; smallest node counts first); a history is: set up, set up a "
          "neighbour of the same class with another configuration, evaluate and linearise at an arbitrary point, run the neighbour, evaluate and linearise where one input variable (every one "
          "in turn) has arbitrary new values; compared with an instance that never saw anything else. All input values of the domains; longer histories and processes are outside"]
PLAIN = (dict, list, tuple, set, frozenset, np.ndarray, np.generic, int, float, complex, str, bytes, bool, type(None), X.Sym)


def ours(mod):
    return mod.split(".")[0] == "openconcept" and ".tests" not in mod


_base = None


def framework_names():
    """attributes every component has once it was set up and run"""
    global _base
    if _base is None:
        class E(om.ExplicitComponent):
            def setup(self):
                self.add_input("x", 1.0)
                self.add_output("y", 1.0)
                self.declare_partials("y", "x", method="cs")

            def compute(self, i, o):
                o["y"] = 2 * i["x"]

        class I(om.ImplicitComponent):
            def setup(self):
                self.add_input("x", 1.0)
                self.add_output("y", 1.0)
                self.declare_partials("y", ["x", "y"], method="fd")

            def apply_nonlinear(self, i, o, r):
                r["y"] = o["y"] - i["x"]

        _base = set()
        for c in (E(), I()):
            p = om.Problem(reports=False)
            p.model.add_subsystem("c", c)
            with omx.quiet():
                p.setup(force_alloc_complex=True)
                p.final_setup()
                p.model.run_apply_nonlinear()
                p.model.run_linearize()
            _base |= set(vars(c))
    return _base


def plain(v, depth=0):
    if depth > 4:
        return False
    if isinstance(v, dict):
        return all(plain(x, depth + 1) for x in v.values())
    if isinstance(v, (list, tuple, set, frozenset)):
        return all(plain(x, depth + 1) for x in v)
    return isinstance(v, PLAIN) or hasattr(v, "tocsr")


def dup(v):
    if isinstance(v, dict):
        return type(v)((k, dup(x)) for k, x in v.items()) if type(v) is dict else v.copy()
    if isinstance(v, (list, tuple, set)):
        return type(v)(dup(x) for x in v) if type(v) in (list, tuple, set) else v
    if isinstance(v, np.ndarray) or hasattr(v, "tocsr"):
        return v.copy()
    return v


class State:
    """everything a component may remember with: attributes of the object, its classes, the modules and their functions"""

    def __init__(self, comps):
        self.comps = comps
        self.snap = [(kind, owner, {k: (v, dup(v)) for k, v in self.items(kind, owner)}) for kind, owner in self.places()]

    def places(self):
        seen = set()
        for c in self.comps:
            yield "object", c
            for k in type(c).__mro__:
                if ours(k.__module__) and k not in seen:
                    seen.add(k)
                    yield "class", k
        for n, m in sorted(sys.modules.items()):
            if ours(n) and m is not None:
                yield "module", m

    @staticmethod
    def items(kind, owner):
        fw = framework_names() if kind == "object" else ()
        return [(k, v) for k, v in vars(owner).items() if not (k.startswith("__") and k.endswith("__")) and k not in fw and plain(v)]

    def restore(self):
        for kind, owner, was in self.snap:
            now = dict(self.items(kind, owner))
            for k in now:
                if k not in was:
                    delattr(owner, k)
            for k, (v, copy) in was.items():
                w = dup(copy)
                if isinstance(v, np.ndarray) and isinstance(w, np.ndarray) and v.shape == w.shape and v.dtype == w.dtype:
                    v[...] = w
                elif type(v) in (dict, set):
                    v.clear()
                    v.update(w)
                elif type(v) is list:
                    v[:] = w
                else:
                    v = w
                if now.get(k, self) is not v:
                    setattr(owner, k, v)


def component(h, other, changed):
    """h, other: derivative harnesses of the component and of its neighbour; changed: "" = every input, else one input"""
    def fn(env):
        env.alike = True
        c = env.cache
        with npx.unpatched():
            if "ref" not in c:
                c["ref"] = omx.CompModel(h.make(), h.conn, h.values)
                c["s0"] = State([c["ref"].comp])
                c["old"] = omx.CompModel(h.make(), h.conn, h.values)
                c["other"] = omx.CompModel(other.make(), other.conn, other.values) if other else None
                c["s1"] = State([c["ref"].comp, c["old"].comp] + ([c["other"].comp] if other else []))
        ref, old, nb = c["ref"], c["old"], c["other"]
        x = point(env, h, ref, "")
        y = tuple(dict(q) for q in x)
        names = [k for q in y for k in q]
        if changed and changed not in names:
            return
        fresh = point(env, h, ref, "new ", only=changed or None)
        for q, f in zip(y, fresh):
            q.update(f)
        z = point(env, other, nb, "neighbour ", const=True) if other else None
        for q in (x, y):
            if h.pre and not env.real:
                core.assume_all(env.ctx, h.pre({k: npx.lift_arr(v) for k, v in q[0].items()}))

        def tried(m, q, pre="c"):
            try:
                return evaluate(env, m, *q)
            except Exception as e:
                if not env.real and not core.is_rejection(e):
                    raise
                return None

        c["s0"].restore()
        want = tried(ref, y)
        c["s1"].restore()
        opts = option_values(old)
        tried(old, x)
        if nb is not None:
            tried(nb, z)
        got = tried(old, y)
        if want is None or got is None:
            env.eq("refused with and without a history, or never", 0 if want is got else 1, 0)
            return
        for k in want[0]:
            env.eq("%s: the same value with and without a history" % k, got[0][k], want[0][k])
        for k in want[1]:
            env.eq("d(%s)/d(%s): the same value with and without a history" % k, got[1][k], want[1][k])
        for k, (a, b) in got[2].items():
            env.eq("%s: evaluation leaves the input alone" % k, a, b)
        env.eq("evaluation leaves the options alone", 0 if same(opts, option_values(old)) else 1, 0)
    return fn


def option_values(m):
    return {k: dup(v["val"]) for k, v in m.comp.options._dict.items() if plain(v["val"])}


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and all(same(p, q) for p, q in zip(a.reshape(-1).tolist(), b.reshape(-1).tolist()))
    return a is b or bool(a == b) or (isinstance(a, float) and a != a and b != b)


def point(env, h, m, tag, only=None, const=False):
    ins, outs = {}, {}
    for src, dst in ((m.inputs, ins), (m.outputs, outs if m.implicit else None)):
        if dst is None:
            continue
        for k, meta in src.items():
            if only and k != only:
                continue
            base = np.broadcast_to(np.asarray(h.base.get(k, meta["val"]), dtype=float), meta["shape"])
            base = np.where(base == 0, 1.0, base)
            if k in h.fixed:
                if not tag or tag.startswith("n") and not tag.startswith("new"):
                    dst[k] = np.broadcast_to(np.asarray(h.fixed[k], dtype=float), meta["shape"]).copy()
                continue
            if const:
                dst[k] = base.copy()
                continue
            lo, hi = h.domain(k, meta)
            dst[k] = env.inp(tag + k, tuple(meta["shape"]), lo, hi, base=base)
            if env.real and np.shape(base):
                for i in np.ndindex(*np.shape(base)):
                    nm = tag + k + "[%s]" % ",".join(map(str, i))
                    if nm not in env.point:
                        dst[k][i] = base[i]
    return ins, outs


def evaluate(env, m, ins, outs):
    """outputs (residuals), Jacobian, inputs after and before"""
    c = m.comp
    cn = type(c).__module__ + "." + type(c).__name__
    has = bool(c._has_linearize if m.implicit else c._has_compute_partials)
    keep = [k for k in m.info if k[:2] not in {a[:2] for a in m.approx}] if has else []
    if env.real:
        for k, v in list(ins.items()) + list(outs.items()):
            core._setreal(m.prob, "c." + k, v)
        with omx.quiet():
            if m.implicit:
                m.prob.model.run_apply_nonlinear()
                o = {k: np.array(c._residuals[k]) for k in m.outputs}
            else:
                m.prob.run_model()
                o = {k: np.array(m.prob.get_val("c." + k)) for k in m.outputs}
            m.prob.model.run_linearize()
        p = c.pathname + "."
        from .u04 import dense
        J = {k[:2]: dense(c._subjacs_info[(p + k[0], p + k[1])]) for k in keep}
        after = {k: (np.array(c._inputs[k]).reshape(-1), np.broadcast_to(np.asarray(v, dtype=float), np.shape(c._inputs[k])).reshape(-1)) for k, v in ins.items()}
        return o, J, after
    env.funcs.add(cn + (".apply_nonlinear" if m.implicit else ".compute"))
    given = {k: npx.lift_arr(v) for k, v in ins.items()}
    before = {k: np.array(v, dtype=object) for k, v in given.items()}
    o = {k: np.array(v) for k, v in m.run(given, {k: npx.lift_arr(v) for k, v in outs.items()}).items()}
    J = {}
    if has:
        env.funcs.add(cn + (".linearize" if m.implicit else ".compute_partials"))
        jac = omx.SymJac(m.info)
        m.partials(jac)
        jac.settle()
        J = {k[:2]: np.array(dict.__getitem__(jac, k)).reshape(-1) for k in keep}
    after = {k: (np.array(m._iv[k], dtype=object).reshape(-1), np.broadcast_to(before[k], np.shape(m._iv[k])).reshape(-1)) for k in before}
    return o, J, after


def harnesses(tier):
    out = []
    for p in ("d01", "d02", "d03", "d04", "d05", "d06"):
        hs = [h for h in importlib.import_module("props." + p).harnesses("quick") if "cannot be built" not in h.name]
        by = {}
        for h in hs:
            by.setdefault(h.name.split("/")[0], []).append(h)
        for cls, l in by.items():
            for n, h in enumerate(l):
                if tier == "quick" and n:
                    break
                other = l[(n + 1) % len(l)] if len(l) > 1 else None
                with omx.quiet():
                    try:
                        m = omx.CompModel(h.make(), h.conn, h.values)
                        names = list(m.inputs) + (list(m.outputs) if m.implicit else [])
                    except Exception:
                        names = []
                vary = [k for k in names if k not in h.fixed]
                for k in ["", *vary] if n == 0 or tier == "deep" else [""]:
                    out.append(Semantic("%s changing %s" % (h.name, k or "everything"), component(h, other, k), budget=30, max_paths=pick(tier, 8, 16, 64)))
    return out
