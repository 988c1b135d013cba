"""Run real OpenMDAO components symbolically: dict-likes standing in for the vectors and the Jacobian."""
import contextlib
import io
import os
import re
import sys
import tempfile
import warnings
import numpy as np

os.environ.setdefault("OPENMDAO_REPORTS", "0")
os.environ.setdefault("MPLBACKEND", "Agg")
if "OPENMDAO_WORKDIR" not in os.environ:
    os.environ["OPENMDAO_WORKDIR"] = tempfile.mkdtemp(prefix="omw_")
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")

import openmdao.api as om  # noqa: E402

from . import expr as X, npx, spx  # noqa: E402,F401
from .expr import Unsupported, Sym  # noqa: E402


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def safe(name):
    return re.sub(r"[^A-Za-z0-9_]", "_", name)


def sym_array(name, shape, lo=None, hi=None):
    out = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        nm = name + ("[%s]" % ",".join(map(str, idx)) if idx else "")
        l = lo[idx] if isinstance(lo, np.ndarray) else lo
        h = hi[idx] if isinstance(hi, np.ndarray) else hi
        out[idx] = X.var(nm, l, h)
    return out.view(npx.SymArray)


class SymVec(dict):
    """inputs/outputs/residuals stand-in: item assignment broadcasts into the declared shape"""

    def __init__(self, shapes, cs_real=False):
        super().__init__()
        self.shapes = shapes

    def __setitem__(self, k, v):
        if k not in self.shapes:
            raise KeyError("variable %r not found" % k)
        shp = self.shapes[k]
        v = npx.lift_arr(v)
        if dict.__contains__(self, k):
            dict.__getitem__(self, k)[...] = broadcast_assign(v, shp)
        else:
            a = np.empty(shp, dtype=object)
            a[...] = broadcast_assign(v, shp)
            dict.__setitem__(self, k, a.view(npx.SymArray))

    def get_val(self, k, *a, **kw):
        if a or kw:
            raise Unsupported("get_val with units/indices")
        return self[k]

    def set_val(self, k, v):
        self[k] = v

    def __contains__(self, k):
        return k in self.shapes


def broadcast_assign(v, shp):
    """OpenMDAO vector assignment: numpy broadcasting, or same-size reshape when only unit axes differ"""
    v = np.asarray(v, dtype=object)
    if v.shape == shp:
        return v
    try:
        return np.broadcast_to(v, shp)
    except ValueError:
        s1 = [d for d in v.shape if d != 1]
        s2 = [d for d in shp if d != 1]
        if s1 == s2:
            return v.reshape(shp)
        raise ValueError("could not broadcast value of shape %s into %s" % (v.shape, shp))


class SymJac(dict):
    """stand-in for the component Jacobian; entry values persist exactly like the real one"""

    def __init__(self, info):
        super().__init__()
        self.info = info
        self.touched = {}
        self.init = {}
        n = 0
        for k, m in info.items():
            v = m["val"]
            v = npx.lift_arr(v.toarray() if hasattr(v, "toarray") else v)
            self.init[k] = v.copy()
            s = np.empty(v.shape, dtype=object)
            for i in np.ndindex(*v.shape):
                n += 1
                s[i] = v[i] + X.var("stale!%d" % n)
            self.init[k] = (v, s.copy())
            dict.__setitem__(self, k, s.view(npx.SymArray))

    def settle(self):
        """after compute_partials: entries that still hold what was there before the call get the declared value back.
        Returns (left, accumulated, written): entry names (key, flat index) left over in keys that were otherwise
        written, entries computed from their previous value, and entries written."""
        left, acc, written = [], [], []
        for k, (v, s) in self.init.items():
            cur = dict.__getitem__(self, k).reshape(-1)
            sf, vf = s.reshape(-1), v.reshape(-1)
            keep = [i for i in range(cur.size) if cur[i] is sf[i]]
            for i in keep:
                cur[i] = vf[i]
            if len(keep) < cur.size:
                left += [(k, i) for i in keep]
            ks = set(keep)
            for i in range(cur.size):
                if i in ks:
                    continue
                vs = [x for x in X.variables(cur[i]) if x.startswith("stale!")]
                if vs:
                    acc.append((k, i))
                    cur[i] = X.subst(cur[i], {x: X.const(0) for x in vs}) + vf[i]
                written.append((k, i))
        return left, acc, written

    def __setitem__(self, k, v):
        if k not in self.info:
            raise KeyError('Variable name pair ("%s", "%s") must first be declared.' % k)
        m = self.info[k]
        cur = dict.__getitem__(self, k)
        if hasattr(v, "toarray"):
            v = v.toarray()
        v = npx.lift_arr(v)
        if m["rows"] is None:
            v = np.atleast_2d(v)
            if v.shape != (1, 1):
                v = v.reshape(m["shape"])
            cur[:] = v
        else:
            cur[:] = v
        self.touched[k] = True

    def dense(self, k):
        m = self.info[k]
        v = dict.__getitem__(self, k)
        if m["rows"] is None:
            return np.asarray(v).reshape(m["shape"])
        out = np.empty(m["shape"], dtype=object)
        out[...] = X.const(0)
        for r, c, x in zip(m["rows"], m["cols"], np.asarray(v).reshape(-1)):
            out[r, c] = out[r, c] + x
        return out


def setup_once(p):
    np.random.seed(0)  # some components draw their default values
    p.setup(force_alloc_complex=True)


class CompModel:
    """a real component, set up for real, that can be executed symbolically"""

    def __init__(self, comp, conn=None, values=None, setups=1):
        self.comp = comp
        p = om.Problem(reports=False)
        with quiet():
            p.model.add_subsystem("c", comp)
            if conn:
                ivc = om.IndepVarComp()
                for n, kw in conn.items():
                    ivc.add_output("x_" + n.replace(":", "_"), **kw)
                p.model.add_subsystem("ivc", ivc)
                for n in conn:
                    p.model.connect("ivc.x_" + n.replace(":", "_"), "c." + n)
            setup_once(p)
            for k in range(setups - 1):
                p.final_setup()
                setup_once(p)
            if values:
                for n, v in values.items():
                    p.set_val("c." + n, v)
            p.final_setup()
        self.prob = p
        pre = comp.pathname + "."
        self.inputs = {k[len(pre):]: m for k, m in comp._var_abs2meta["input"].items()}
        self.outputs = {k[len(pre):]: m for k, m in comp._var_abs2meta["output"].items()}
        self.implicit = isinstance(comp, om.ImplicitComponent)
        self.info = {}
        for (o, w), m in comp._subjacs_info.items():
            o2, w2 = o[len(pre):], w[len(pre):]
            if not self.implicit and o2 == w2:
                continue
            self.info[(o2, w2)] = m
        self.approx = set()
        for meth, sch in (comp._approx_schemes or {}).items():
            wrts = set()
            for w in getattr(sch, "_wrt_meta", {}):
                wrts.add(w[len(pre):])
            for (o2, w2), m in self.info.items():
                if m.get("method") == meth or w2 in wrts:
                    self.approx.add((o2, w2, meth))
        self.discrete = bool(comp._var_discrete["input"]) or bool(comp._var_discrete["output"])

    def shapes_in(self):
        return {k: m["shape"] for k, m in self.inputs.items()}

    def shapes_out(self):
        return {k: m["shape"] for k, m in self.outputs.items()}

    # ---- symbolic execution (call inside npx.patched())
    def run(self, ins, outs=None):
        """explicit: returns outputs; implicit: returns residuals for states `outs`"""
        iv = SymVec(self.shapes_in())
        for k, v in ins.items():
            iv[k] = v
        missing = set(self.inputs) - set(dict.keys(iv))
        if missing:
            raise Unsupported("no value for inputs %s" % sorted(missing))
        self._iv = iv
        with quiet():
            if not self.implicit:
                ov = SymVec(self.shapes_out())
                for k, shp in ov.shapes.items():
                    dict.__setitem__(ov, k, npx.empty(shp, object))
                self.comp.compute(iv, ov)
                return ov
            ov = SymVec(self.shapes_out())
            for k, v in outs.items():
                ov[k] = v
            rv = SymVec(self.shapes_out())
            for k, shp in rv.shapes.items():
                dict.__setitem__(rv, k, npx.empty(shp, object))
            self._ov = ov
            self.comp.apply_nonlinear(iv, ov, rv)
            return rv

    def partials(self, jac=None):
        J = jac or SymJac(self.info)
        with quiet():
            if self.implicit:
                self.comp.linearize(self._iv, self._ov, J)
            else:
                self.comp.compute_partials(self._iv, J)
        return J
