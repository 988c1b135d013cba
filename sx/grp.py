"""Whole OpenMDAO groups: the real connection graph and the real components, values symbolic.

The group is set up for real; the components are then executed in the model's own order on symbolic values, following the
resolved connections (source, src_indices, units). Implicit components contribute free states and residuals; explicit
outputs that are read before they are computed become free `cut` values with the residual (cut - computed)."""
import fnmatch
import re
from fractions import Fraction
import numpy as np
import openmdao.api as om
from openmdao.core.component import Component
from openmdao.utils import units as om_units

from . import expr as X, npx, omx
from .expr import Unsupported

META = (om.MetaModelStructuredComp, om.MetaModelUnStructuredComp, om.MetaModelSemiStructuredComp)


class UnitMismatch(Exception):
    """a variable is declared in units of another dimension than the quantity it is (the harness reads it in)"""


def unit_conversion(a, b):
    if not om_units.is_compatible(a, b):
        raise UnitMismatch("declared in %s: not a quantity in %s" % (a, b))
    return om_units.unit_conversion(a, b)


def unit_rat(a, b):
    """exact (factor, offset): value_b = (value_a + offset) * factor"""
    f, o = unit_conversion(a, b)
    return X.lift(f).args, X.lift(o).args


def convert(arr, a, b):
    if a is None or b is None or a == b:
        return arr
    f, o = unit_rat(a, b)
    if f == 1 and o == 0:
        return arr
    return (arr + X.const(o)) * X.const(f) if o else arr * X.const(f)


class _ExprNS(dict):
    """namespace an ExecComp expression is evaluated in"""


class NoVariable(Unsupported):
    """the harness names a variable the model does not have (any more)"""


class GroupModel:
    def __init__(self, build, setup=None, opaque=None, setups=1):
        """build() -> System placed as subsystem 'g' (everything promoted); setup(model) may add input defaults"""
        defaults = {}
        for attempt in range(12):
            p = om.Problem(reports=False)
            self.prob = p
            try:
                with omx.quiet():
                    g = build()
                    p.model.add_subsystem("g", g, promotes=["*"])
                    if setup:
                        setup(p.model)
                    for nme, (u, v) in defaults.items():
                        p.model.set_input_defaults(nme, units=u, val=v)
                    omx.setup_once(p)
                    for k in range(setups - 1):
                        p.final_setup()
                        omx.setup_once(p)
                    for s in p.model.system_iter(include_self=True, recurse=True):
                        if isinstance(s, om.Group):
                            s.nonlinear_solver = om.NonlinearRunOnce()
                            s.linear_solver = om.LinearRunOnce()
                    p.final_setup()
                break
            except Exception as e:
                # inputs of one public name with different default values or units: take the first one's
                more = self.ambiguous(p, str(e))
                if not more or set(more) <= set(defaults):
                    raise
                defaults.update(more)
        m = p.model
        self.conn = dict(m._conn_global_abs_in2out)
        self.out_meta = {k: v for k, v in m._var_abs2meta["output"].items()}
        self.in_meta = {k: v for k, v in m._var_abs2meta["input"].items()}
        self.comps = [s for s in m.system_iter(recurse=True) if isinstance(s, Component)]
        r = m._resolver
        self.prom_in = {k: r.abs2prom(k, "input") for k in self.in_meta}
        self.prom_out = {k: r.abs2prom(k, "output") for k in self.out_meta if not k.startswith("_auto_ivc")}
        self.auto = {}
        for i, o in self.conn.items():
            if o.startswith("_auto_ivc"):
                self.auto.setdefault(o, self.prom_in[i])
        self.by_prom = {}
        for k, v in self.prom_out.items():
            self.by_prom[v] = k
        self.by_auto = {v: k for k, v in self.auto.items()}
        self.indep = {}  # abs output -> public name
        for o, nme in self.auto.items():
            self.indep[o] = nme
        for c in self.comps:
            if type(c) is om.IndepVarComp or (isinstance(c, om.IndepVarComp) and not c.pathname.startswith("_auto")):
                for o in c._var_abs2meta["output"]:
                    self.indep[o] = self.prom_out[o]
        self.alias_out, self.alias_in = {}, {}
        for sysm in m.system_iter(recurse=True, typ=om.Group):
            rr = sysm._resolver
            pre = sysm.pathname.split(".", 1)[1] + "." if "." in sysm.pathname else ""
            for o in self.out_meta:
                if o.startswith(sysm.pathname + "."):
                    self.alias_out.setdefault(pre + rr.abs2prom(o, "output"), o)
            for i in self.in_meta:
                if i.startswith(sysm.pathname + "."):
                    self.alias_in.setdefault(pre + rr.abs2prom(i, "input"), i)
        self.implicit_out = set()
        self.opaque_out = set()
        for c in self.comps:
            if self.kind(c) == "opaque" or (opaque is not None and opaque(c.pathname, c)):
                self.opaque_out |= set(c._var_abs2meta["output"])
            elif self.kind(c) in ("implicit", "balance"):
                self.implicit_out |= set(c._var_abs2meta["output"])
        self.reorder()
        self.order = {c.pathname: n for n, c in enumerate(self.comps)}
        # explicit outputs read before they are computed (members of a true cycle)
        self.cut = set()
        for i, o in self.conn.items():
            ci, co = i.rsplit(".", 1)[0], o.rsplit(".", 1)[0]
            if o in self.indep or o in self.implicit_out or o in self.opaque_out:
                continue
            if self.order[co] >= self.order[ci]:
                self.cut.add(o)

    @staticmethod
    def ambiguous(p, msg):
        out = {}
        for grp, prom in re.findall(r"The following inputs, \[([^\]]*)\], promoted to '([^']*)', are connected but", msg):
            first = re.findall(r"'([^']*)'", grp)[0]
            meta = p.model._var_allprocs_abs2meta["input"].get(first)
            val = p.model._var_abs2meta["input"].get(first)
            if meta is not None and val is not None:
                out[prom] = (meta["units"], val["val"])
        return out

    def reorder(self):
        """components in data-flow order; inside a cycle the model's own order is kept"""
        idx = {c.pathname: n for n, c in enumerate(self.comps)}
        succ = {n: set() for n in range(len(self.comps))}
        for i, o in self.conn.items():
            if o in self.indep or o in self.implicit_out or o in self.opaque_out:
                continue
            succ[idx[o.rsplit(".", 1)[0]]].add(idx[i.rsplit(".", 1)[0]])
        # Tarjan, iterative
        low, num, onst, st, comp, cnt = {}, {}, set(), [], {}, [0]
        sccs = []
        for root in succ:
            if root in num:
                continue
            work = [(root, iter(sorted(succ[root])))]
            num[root] = low[root] = cnt[0]
            cnt[0] += 1
            st.append(root)
            onst.add(root)
            while work:
                v, it = work[-1]
                for w in it:
                    if w not in num:
                        num[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        st.append(w)
                        onst.add(w)
                        work.append((w, iter(sorted(succ[w]))))
                        break
                    elif w in onst:
                        low[v] = min(low[v], num[w])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == num[v]:
                        grp = []
                        while True:
                            w = st.pop()
                            onst.discard(w)
                            grp.append(w)
                            if w == v:
                                break
                        for w in grp:
                            comp[w] = len(sccs)
                        sccs.append(sorted(grp))
        indeg = [0] * len(sccs)
        csucc = [set() for _ in sccs]
        for v in succ:
            for w in succ[v]:
                if comp[v] != comp[w] and comp[w] not in csucc[comp[v]]:
                    csucc[comp[v]].add(comp[w])
                    indeg[comp[w]] += 1
        import heapq
        ready = [(sccs[k][0], k) for k in range(len(sccs)) if indeg[k] == 0]
        heapq.heapify(ready)
        out = []
        while ready:
            _, k = heapq.heappop(ready)
            out += sccs[k]
            for q in csucc[k]:
                indeg[q] -= 1
                if indeg[q] == 0:
                    heapq.heappush(ready, (sccs[q][0], q))
        self.comps = [self.comps[n] for n in out]

    @staticmethod
    def kind(c):
        if isinstance(c, om.BalanceComp):
            return "balance"
        if isinstance(c, META):
            return "opaque"
        if isinstance(c, om.ExecComp):
            return "exec"
        if isinstance(c, om.IndepVarComp):
            return "indep"
        if isinstance(c, om.ImplicitComponent):
            return "implicit"
        if isinstance(c, om.ExplicitComponent):
            return "explicit" if type(c).__module__.split(".")[0] in ("openconcept", "props", "__main__") else "opaque"
        return "opaque"

    def find(self, name):
        """absolute output behind an output (promoted or absolute) or input name"""
        if name in self.by_prom:
            return self.by_prom[name]
        if name in self.out_meta:
            return name
        if name in self.by_auto:
            return self.by_auto[name]
        if "g." + name in self.out_meta:
            return "g." + name
        if name in self.alias_out:
            return self.alias_out[name]
        if name in self.alias_in:
            return self.conn[self.alias_in[name]]
        for i in self.in_meta:
            if self.prom_in[i] == name or i == name or i == "g." + name:
                return self.conn[i]
        raise NoVariable("no variable %r" % name)

    def src_flat(self, abs_in):
        m = self.in_meta[abs_in]
        si = m.get("src_indices")
        if si is None:
            return None
        return np.asarray(si.shaped_array(flat=True) if hasattr(si, "shaped_array") else si).reshape(-1)


class GroupHandle:
    """result of running a group in one environment"""

    def __init__(self, env, gm, name):
        self.env, self.gm, self.name = env, gm, name
        self.vals = {}
        self.res = {}
        self.ins = {}
        self.cutsym = {}

    def val(self, name, units=None):
        o = self.gm.find(name)
        u = self.gm.out_meta[o]["units"]
        if self.env.real:
            v = np.array(self.gm.prob.get_val(o), dtype=float)
            if units is not None and u is not None:
                f, off = unit_conversion(u, units)
                v = (v + off) * f
            return v
        if o not in self.vals:
            raise Unsupported("%s was not executed" % name)
        v = self.closed(self.vals[o])
        return convert(v, u, units) if units else v

    __call__ = val

    def closed(self, v):
        if not getattr(self, "sub", None):
            return v
        out = npx.empty(np.shape(v), object)
        for idx in np.ndindex(*np.shape(v)):
            out[idx] = X.subst(X.lift(v[idx]), self.sub, self.memo)
        return out

    def close(self, pairs):
        """pairs: (name of a state or cut, or a function handle -> residual array, name of the free variable it
        determines). Makes val()/inval() report the values at the solution of these equations. The residuals must be
        affine in the unknowns (checked)."""
        env = self.env

        def resid(r):
            return np.asarray(r(self) if callable(r) else self.residual(r)).reshape(-1)

        if env.real:
            return self.close_real(pairs, resid)
        self.sub = None
        rs, us = [], []
        for r, v in pairs:
            rr = [X.lift(e) for e in resid(r)]
            o = self.gm.find(v)
            vv = [X.lift(e) for e in np.asarray(self.cutsym.get(o, self.vals[o])).reshape(-1)]
            if len(rr) != len(vv):
                raise Unsupported("close: %d equations for %d unknowns" % (len(rr), len(vv)))
            for e in vv:
                if e.op != "v":
                    raise Unsupported("close: %s is not free" % v)
            rs += rr
            us += [e.args for e in vv]
        sub = {}
        for k, u in enumerate(us):
            # pick an equation that contains u
            for q, e in enumerate(rs):
                if e is not None and u in X.variables(e):
                    d = X.diff(e, u)
                    if u in X.variables(d) or (d.op == "c" and d.args == 0):
                        continue
                    break
            else:
                if not any(e is not None and u in X.variables(e) for e in rs):
                    continue  # nothing determines it: it stays free, and what should follow from the equations will not
                raise Unsupported("close: no equation is affine in %s" % u)
            star = X.neg(X.mul(X.subst(e, {u: X.const(0)}), X.power(d, X.const(-1))))
            rs[q] = None
            m = {u: star}
            rs = [None if e is None else X.subst(e, m) for e in rs]
            sub = {a: X.subst(b, m) for a, b in sub.items()}
            sub[u] = star
        self.sub = sub
        self.memo = {}

    def close_real(self, pairs, resid):
        gm = self.gm
        p = gm.prob
        outs = [gm.find(v) for r, v in pairs]

        def get():
            return np.concatenate([np.array(self.cutval[o] if o in self.cutval else p.model._outputs[o], dtype=float).reshape(-1) for o in outs])

        def put(x):
            k = 0
            for o in outs:
                shp = gm.out_meta[o]["shape"]
                n = int(np.prod(shp))
                self.start[o] = np.array(x[k:k + n]).reshape(shp)
                k += n
            for o, v in self.start.items():
                p.model._outputs[o] = v
                if o in self.cutval:
                    self.cutval[o] = v
            run_real(gm)

        def f(x):
            put(x)
            return np.concatenate([np.array(resid(r), dtype=float) for r, v in pairs])

        x = get()
        best = None
        for it in range(12):
            r = f(x)
            if best is None or np.linalg.norm(r) < best[0]:
                best = (np.linalg.norm(r), x.copy())
            if it > 1 and np.linalg.norm(r) == 0:
                break
            J = np.zeros((len(r), len(x)))
            for k in range(len(x)):
                h = max(abs(x[k]), 1.0) * 1e-3
                y = x.copy()
                y[k] += h
                J[:, k] = (f(y) - r) / h
            try:
                x = x - np.linalg.solve(J, r)
            except np.linalg.LinAlgError:
                x = x - np.linalg.lstsq(J, r, rcond=None)[0]
        f(best[1])

    def inval(self, abs_in, units=None):
        """value an input receives, in its own (or the given) units; name relative to the group"""
        a = abs_in if abs_in in self.gm.in_meta else "g." + abs_in
        if a not in self.gm.in_meta:
            if abs_in not in self.gm.alias_in:
                raise NoVariable("no input %r" % abs_in)
            a = self.gm.alias_in[abs_in]
        u = self.gm.in_meta[a]["units"]
        if self.env.real:
            v = np.array(self.gm.prob.get_val(a), dtype=float)
            if units is not None and u is not None:
                f, off = unit_conversion(u, units)
                v = (v + off) * f
            return v
        v = self.closed(self.received(a))
        return convert(v, u, units) if units else v

    def received(self, a):
        v = self.ins.get(a)
        if v is None:
            gm = self.gm
            m = gm.in_meta[a]
            src = gm.conn[a]
            if src not in self.vals:
                raise Unsupported("%s reads %s before it is available" % (a, src))
            v = np.asarray(self.vals[src]).reshape(-1)
            si = gm.src_flat(a)
            if si is not None:
                v = v[si]
            v = convert(v.reshape(m["shape"]).view(npx.SymArray), gm.out_meta[src]["units"], m["units"])
            self.ins[a] = v
        return v

    def inputs(self, prefix, name):
        """absolute names of the inputs called `name` anywhere below `prefix`"""
        pre = "g." + prefix if prefix else "g."
        return sorted(i for i in self.gm.in_meta if (i.startswith(pre + ".") or not prefix) and i.rsplit(".", 1)[1] == name)

    def has(self, name):
        try:
            self.gm.find(name)
            return True
        except NoVariable:
            return False

    def residual(self, name):
        """residual of a balance/implicit state or of a cut, in the units the component works in"""
        o = self.gm.find(name)
        if self.env.real:
            return np.array(self.real_res(o), dtype=float)
        return self.res[o]

    def real_res(self, o):
        gm = self.gm
        if o in gm.cut:
            return self.cutval[o] - gm.prob.get_val(o)
        c = next(c for c in gm.comps if o in c._var_abs2meta["output"])
        if isinstance(c, om.BalanceComp):
            return self.bal_real(c, o)
        with omx.quiet():
            if gm.cut:
                c.run_apply_nonlinear()
            else:
                gm.prob.model.run_apply_nonlinear()
        return c._residuals[o.rsplit(".", 1)[1]]

    def bal_real(self, c, o):
        n = o.rsplit(".", 1)[1]
        ops = c._state_vars[n]
        g = lambda k: np.array(self.gm.prob.get_val(c.pathname + "." + k), dtype=float)
        mult = g(ops["mult_name"]) if ops["use_mult"] else 1.0
        rhs = g(ops["rhs_name"]) if ops.get("rhs_name") else ops["rhs_val"]
        return g(ops["lhs_name"]) * mult - rhs


def public(gm, o):
    return gm.indep.get(o) or gm.prom_out.get(o, o)


def _decl(gm, o, spec):
    """(domain lo, hi, base, constant?) of a free variable"""
    nme = public(gm, o)
    meta = gm.out_meta[o]
    v = np.asarray(meta["val"], dtype=float)
    for pat, d in spec.items():
        if fnmatch.fnmatchcase(nme, pat) or fnmatch.fnmatchcase(o, pat):
            if isinstance(d, str):
                return None
            if isinstance(d, np.ndarray) and d.dtype == object:
                return ("value", np.broadcast_to(d, meta["shape"]))
            if isinstance(d, (int, float, np.ndarray, list)):
                return ("value", np.broadcast_to(np.asarray(d, dtype=float), meta["shape"]))
            return ("sym", d[0], d[1])
    if np.any(v < 0):
        return ("sym", None, None)
    return ("sym", 0, None)


def sym_run(gh, spec, opaque, only=None):
    env, gm = gh.env, gh.gm
    vals = gh.vals
    tag = gh.name + ":" if gh.name else ""

    def free(o, suffix=""):
        meta = gm.out_meta[o]
        d = _decl(gm, o, spec)
        v0 = np.broadcast_to(np.asarray(meta["val"], dtype=float), meta["shape"])
        if d is None:
            return npx.lift_arr(v0)
        if d[0] == "value":
            return npx.lift_arr(d[1])
        base = np.where(v0 > 0, v0, 1.0) if d[1] == 0 else v0
        nme = tag + public(gm, o) + suffix
        env.inputs_decl[nme] = (tuple(meta["shape"]), d[1], d[2], base)
        return omx.sym_array(nme, tuple(meta["shape"]), d[1], d[2])

    for o in gm.out_meta:
        if o in gm.indep or o in gm.implicit_out:
            vals[o] = free(o)
        elif o in gm.cut or o in gm.opaque_out:
            vals[o] = free(o)
    for c in gm.comps:
        k = gm.kind(c)
        if k == "indep":
            continue
        if only is not None and not only(c.pathname):
            continue
        pre = c.pathname + "."
        if k == "opaque" or (opaque is not None and opaque(c.pathname, c)):
            continue
        iv = omx.SymVec({a[len(pre):]: m["shape"] for a, m in c._var_abs2meta["input"].items()})
        for a, m in c._var_abs2meta["input"].items():
            v = gh.received(a)
            iv[a[len(pre):]] = v.copy()
        cn = type(c).__module__ + "." + type(c).__name__
        if k == "balance":
            balance(gh, c, iv)
            continue
        if k == "exec":
            outs = execcomp(c, iv)
        else:
            oshape = {a[len(pre):]: m["shape"] for a, m in c._var_abs2meta["output"].items()}
            if k == "explicit":
                env.funcs.add(cn + ".compute")
                ov = omx.SymVec(oshape)
                for n, shp in oshape.items():
                    dict.__setitem__(ov, n, npx.empty(shp, object))
                with omx.quiet():
                    c.compute(iv, ov)
                outs = dict(ov.items())
            else:
                env.funcs.add(cn + ".apply_nonlinear")
                ov = omx.SymVec(oshape)
                for n in oshape:
                    ov[n] = vals[pre + n]
                rv = omx.SymVec(oshape)
                for n, shp in oshape.items():
                    dict.__setitem__(rv, n, npx.empty(shp, object))
                with omx.quiet():
                    c.apply_nonlinear(iv, ov, rv)
                for n in oshape:
                    gh.res[pre + n] = rv[n]
                continue
        for n, v in outs.items():
            o = pre + n
            if o in gm.cut:
                gh.res[o] = vals[o] - v
                gh.cutsym[o] = vals[o]
                gh.computed = getattr(gh, "computed", {})
                gh.computed[o] = v
            vals[o] = v
    return gh


def balance(gh, c, iv):
    pre = c.pathname + "."
    for n, ops in c._state_vars.items():
        lhs = iv[ops["lhs_name"]]
        mult = iv[ops["mult_name"]] if ops["use_mult"] else 1
        rhs = iv[ops["rhs_name"]] if ops.get("rhs_name") and ops["rhs_name"] in iv else ops["rhs_val"]
        gh.res[pre + n] = lhs * mult - rhs


def execcomp(c, iv):
    ns = {}
    for n in dir(np):
        if not n.startswith("_") and callable(getattr(np, n)):
            ns[n] = getattr(npx.NP, n)
    ns["sum"] = npx.NP.sum
    ns["pi"] = np.pi
    loc = {}
    for k in dict.keys(iv):
        loc[k] = iv[k]
    outs = {}
    exprs = c._exprs if isinstance(c._exprs, (list, tuple)) else [c._exprs]
    shapes = {a.rsplit(".", 1)[1]: m["shape"] for a, m in c._var_abs2meta["output"].items()}
    if getattr(c, "_constants", None):
        loc.update(c._constants)
    for e in exprs:
        lhs, rhs = e.split("=", 1)
        lhs = lhs.strip()
        v = eval(rhs.strip(), ns, loc)
        r = omx.SymVec({lhs: shapes[lhs]})
        r[lhs] = v
        outs[lhs] = r[lhs]
        loc[lhs] = r[lhs]
    return outs


def _noop(*a, **k):
    return None


def real_run(gh, spec, opaque=None):
    gm, env = gh.gm, gh.env
    p = gm.prob
    tag = gh.name + ":" if gh.name else ""
    gh.cutval = {}
    gh.start = {}
    stub = set()
    for c in gm.comps:
        k = gm.kind(c)
        if k == "indep":
            continue
        if k == "opaque" or (opaque is not None and opaque(c.pathname, c)):
            stub |= set(c._var_abs2meta["output"])
            if hasattr(c, "compute"):
                c.compute = _noop
            if isinstance(c, om.ImplicitComponent):
                c.solve_nonlinear = _noop
                c.guess_nonlinear = _noop
        elif isinstance(c, om.ImplicitComponent):
            c.solve_nonlinear = _noop
            c.guess_nonlinear = _noop
    for o, meta in gm.out_meta.items():
        if not (o in gm.indep or o in gm.implicit_out or o in gm.cut or o in stub):
            continue
        d = _decl(gm, o, spec)
        v0 = np.array(np.broadcast_to(np.asarray(meta["val"], dtype=float), meta["shape"]))
        if d is not None and d[0] == "value":
            v0 = np.array(d[1])
        elif d is not None:
            nme = tag + public(gm, o)
            base = np.where(v0 > 0, v0, 1.0) if d[1] == 0 else v0
            for idx in np.ndindex(*meta["shape"]):
                v0[idx] = env.point.get(nme + ("[%s]" % ",".join(map(str, idx)) if idx else ""), base[idx])
        if o in gm.cut:
            gh.cutval[o] = v0
        gh.start[o] = v0
        if o in gm.auto:
            i = next(i for i, s in gm.conn.items() if s == o)
            p.model._outputs[o] = v0
        else:
            p.model._outputs[o] = v0
    run_real(gm)
    return gh


def run_real(gm):
    """explicit values consistent with the given independent, state and cut values"""
    p = gm.prob
    with omx.quiet():
        if gm.cut:
            step_real(gm)
            return
        old = None
        for k in range(60):
            p.model.run_solve_nonlinear()
            new = p.model._outputs.asarray(copy=True)
            if old is not None and np.array_equal(old, new, equal_nan=True):
                return
            old = new


def step_real(gm):
    """components one by one in data-flow order (cut values are those set beforehand for every earlier reader)"""
    m = gm.prob.model
    for c in gm.comps:
        pre = c.pathname + "."
        for a, meta in c._var_abs2meta["input"].items():
            src = gm.conn[a]
            v = np.array(m._outputs[src], dtype=float).reshape(-1)
            si = gm.src_flat(a)
            if si is not None:
                v = v[si]
            u0, u1 = gm.out_meta[src]["units"], meta["units"]
            if u0 is not None and u1 is not None and u0 != u1:
                f, o = unit_conversion(u0, u1)
                v = (v + o) * f
            c._inputs[a[len(pre):]] = v.reshape(meta["shape"])
        if not isinstance(c, om.ImplicitComponent):
            c.run_solve_nonlinear()
