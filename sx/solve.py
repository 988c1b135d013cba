"""z3 back end: path feasibility, inequality goals, and the final verdict on equality goals."""
import sys
import time
from fractions import Fraction

if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

from . import expr as X  # noqa: E402
from .gp import GP, TooBig, padd, pscale  # noqa: E402


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0

    def run(self, s):
        t = time.time()
        r = s.check()
        self.time += time.time() - t
        self.queries += 1
        if r == z3.unsat:
            self.unsat += 1
        elif r == z3.sat:
            self.sat += 1
        else:
            self.unknown += 1
        return r

    def asdict(self):
        return dict(queries=self.queries, unsat=self.unsat, sat=self.sat, unknown=self.unknown,
                    solver_s=round(self.time, 3))


def z3q(f):
    if not isinstance(f, Fraction):
        f = Fraction(f)
    return z3.Q(f.numerator, f.denominator)


def zbox(x):
    return x


class Z3Tr:
    """translate Sym DAGs into z3 real terms, collecting definitional axioms"""

    def __init__(self):
        self.memo = {}
        self.axioms = []
        self.vars = {}
        self.fns = {}
        self.roots = {}
        self.fam = {"exp": [], "log": [], "sin": [], "cos": [], "atan": [], "arcsin": [], "arccos": [], "pow": {}}
        self.n = 0

    def fresh(self, p):
        self.n += 1
        return z3.Real("%s!%d" % (p, self.n))

    def var(self, name):
        v = self.vars.get(name)
        if v is None:
            v = z3.Real(name)
            self.vars[name] = v
            i = X.VARS[name]
            if i.lo is not None:
                self.axioms.append(v >= z3q(i.lo) if i.lo != 0 else v > 0)
            if i.hi is not None:
                self.axioms.append(v <= z3q(i.hi))
        return v

    def tr(self, e):
        r = self.memo.get(e.id)
        if r is not None:
            return r
        op = e.op
        if op == "c":
            f = e.args
            if f.denominator.bit_length() > 80:  # keep the numerals short: rounding to ~1e-24
                f = Fraction(round(f * (1 << 80)), 1 << 80) if abs(f) > Fraction(1, 1 << 20) else f
            r = z3q(f)
        elif op == "v":
            r = self.var(e.args)
        elif op == "+":
            r = self.tr(e.args[0]) + self.tr(e.args[1])
        elif op == "*":
            r = self.tr(e.args[0]) * self.tr(e.args[1])
        elif op == "^":
            r = self.pow(e.args[0], e.args[1])
        elif op == "sg":
            r = self.tr(e.args)
        else:
            r = self.func(e.args[0], self.tr(e.args[1]))
        self.memo[e.id] = r
        return r

    def pow(self, b, q):
        a = self.tr(b)
        if q.denominator == 1:
            n = int(q)
            if n > 0:
                r = a
                for _ in range(n - 1):
                    r = r * a
                return r
            inv = self.inv(b, a)
            r = inv
            for _ in range(-n - 1):
                r = r * inv
            return r
        den = q.denominator
        if den <= 4 and abs(q) <= 6:
            rt = self.root(b, a, den)
            n = abs(q.numerator)
            r = rt
            for _ in range(n - 1):
                r = r * rt
            if q > 0:
                return r
            iv = self.fresh("inv")
            self.axioms.append(iv * r == 1)
            self.axioms.append(iv > 0)
            return iv
        # opaque positive power with monotonicity against its siblings and the value at 1
        r = self.fresh("pw")
        self.axioms += [a > 0, r > 0]
        if q > 0:
            self.axioms += [z3.Implies(a > 1, r > 1), z3.Implies(a < 1, r < 1), z3.Implies(a == 1, r == 1)]
            if q > 1:
                self.axioms += [z3.Implies(a >= 1, r >= a), z3.Implies(a <= 1, r <= a), r >= 1 + z3q(q) * (a - 1)]
            else:
                self.axioms += [z3.Implies(a >= 1, r <= a), z3.Implies(a <= 1, r >= a), r <= 1 + z3q(q) * (a - 1)]
        else:
            self.axioms += [z3.Implies(a > 1, r < 1), z3.Implies(a < 1, r > 1), z3.Implies(a == 1, r == 1),
                            r >= 1 + z3q(q) * (a - 1)]
        for a2, r2 in self.fam["pow"].get(q, []):
            if q > 0:
                self.axioms.append((a < a2) == (r < r2))
            else:
                self.axioms.append((a < a2) == (r > r2))
            self.axioms.append((a == a2) == (r == r2))
        self.fam["pow"].setdefault(q, []).append((a, r))
        return r

    def root(self, b, a, den):
        k = (b.id, den)
        if k not in self.roots:
            r = self.fresh("rt")
            p = r
            for _ in range(den - 1):
                p = p * r
            self.axioms += [p == a, r >= 0]
            self.roots[k] = r
        return self.roots[k]

    def inv(self, b, a):
        k = (b.id, "inv")
        if k not in self.roots:
            r = self.fresh("inv")
            self.axioms.append(r * a == 1)
            self.roots[k] = r
        return self.roots[k]

    def func(self, f, a):
        r = self.fresh(f)
        ax = self.axioms
        if f == "exp":
            ax += [r > 0, r >= 1 + a, z3.Implies(a < 1, r * (1 - a) <= 1), z3.Implies(a < 0, r < 1),
                   z3.Implies(a > 0, r > 1), z3.Implies(a == 0, r == 1),
                   z3.Implies(a >= 0, 2 * (r - 1) <= a * (r + 1)), z3.Implies(a <= 0, 2 * (r - 1) >= a * (r + 1))]
            for a2, r2 in self.fam["exp"]:
                ax += [(a < a2) == (r < r2), (a == a2) == (r == r2), z3.Implies(a + a2 == 0, r * r2 == 1)]
        elif f == "log":
            ax += [a > 0, r <= a - 1, r * a >= a - 1, z3.Implies(a > 1, r > 0), z3.Implies(a < 1, r < 0)]
            for a2, r2 in self.fam["log"]:
                ax += [(a < a2) == (r < r2), (a == a2) == (r == r2)]
        elif f in ("sin", "cos"):
            ax += [r <= 1, r >= -1]
            other = "cos" if f == "sin" else "sin"
            for a2, r2 in self.fam[f]:
                ax.append(z3.Implies(a == a2, r == r2))
            for a2, r2 in self.fam[other]:
                ax.append(z3.Implies(a == a2, r * r + r2 * r2 == 1))
            if f == "sin":
                ax += [z3.Implies(z3.And(a > 0, a < z3q(Fraction(314159, 100000))), r > 0),
                       z3.Implies(z3.And(a < 0, a > -z3q(Fraction(314159, 100000))), r < 0),
                       z3.Implies(a == 0, r == 0), z3.Implies(a >= 0, r <= a), z3.Implies(a <= 0, r >= a)]
            else:
                ax += [z3.Implies(z3.And(a > -z3q(Fraction(157079, 100000)), a < z3q(Fraction(157079, 100000))), r > 0),
                       z3.Implies(a == 0, r == 1), r >= 1 - a * a / 2]
        elif f == "atan":
            ax += [r < z3q(Fraction(157080, 100000)), r > -z3q(Fraction(157080, 100000)), (a > 0) == (r > 0),
                   (a == 0) == (r == 0)]
            for a2, r2 in self.fam["atan"]:
                ax += [(a < a2) == (r < r2)]
        elif f in ("arcsin", "arccos"):
            ax += [a <= 1, a >= -1, r <= z3q(Fraction(314160, 100000)), r >= -z3q(Fraction(157080, 100000))]
            for a2, r2 in self.fam[f]:
                ax += [((a < a2) == (r < r2)) if f == "arcsin" else ((a < a2) == (r > r2))]
        self.fam[f].append((a, r))
        return r


def cond_z3(tr, op, d, val):
    t = tr.tr(d)
    c = t < 0 if op == "<" else t == 0
    return c if val else z3.Not(c)


EPS = Fraction(1, 10 ** 6)


class ZeroGoal:
    """one entry of a batched equality query: residual polynomial must vanish within tolerance"""

    def __init__(self, label, diff):
        self.label = label
        self.diff = diff


def has_log(e, seen):
    st = [e]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == "f" and n.args[0] == "log":
            return True
        if n.op in "+*":
            st.extend(n.args)
        elif n.op == "^":
            st.append(n.args[0])
        elif n.op == "f":
            st.append(n.args[1])
        elif n.op == "sg":
            st.append(n.args)
    return False


def residual(gp, a, b, eps=EPS):
    """(normaliser, polynomial of a - b with denominators cleared). Logarithms of products are first kept whole (small
    polynomials); when that does not already settle the goal they are split into sums of logarithms."""
    seen = set()
    if has_log(a, seen) or has_log(b, seen):
        g2 = gp.coarse()
        try:
            r = residual_(g2, a, b)
            if all(abs(c) <= float(eps) * g for c, g in r.values()):
                return g2, r
        except TooBig:
            pass
    return gp, residual_(gp, a, b)


def residual_(gp, a, b):
    """canonical polynomial of a-b with contribution magnitudes, denominators cleared"""
    pa = gp.of(a)
    pb = gp.of(b)
    # join without dropping so that magnitudes of both sides are kept
    out = {m: [t[0], t[1]] for m, t in pa.items()}
    for m, t in pb.items():
        o = out.get(m)
        if o is None:
            out[m] = [-t[0], t[1]]
        else:
            o[0] -= t[0]
            o[1] += t[1]
    out = {m: t for m, t in out.items() if t[0] != 0}
    if not out:
        return {}
    small = {m: t for m, t in out.items() if abs(t[0]) > EPS * Fraction(t[1]) * Fraction(1, 1000)}
    if not small:
        return {}
    return gp.clear(out)


def zero_query(polys, stats, eps=EPS):
    """polys: list of (normaliser, polynomial); returns the indices that may be non-zero"""
    if isinstance(eps, float):
        eps = Fraction(eps).limit_denominator(10 ** 9)
    bad = []
    for g in {id(g): g for g, p in polys}.values():
        idx = [i for i, (h, p) in enumerate(polys) if h is g]
        bad += [idx[k] for k in zero_query_(g, [polys[i][1] for i in idx], stats, eps)]
    return sorted(bad)


def zero_query_(gp, polys, stats, eps=EPS):
    """polys: list of cleared residual polynomials. z3 decides whether any can exceed the rounding tolerance for some
    value of its monomials. Returns index list of the ones that can (empty list = all hold)."""
    bad = []
    s = z3.SolverFor("QF_LRA")
    live = []
    mv = {}

    def mon(m):
        r = mv.get(m)
        if r is None:
            k = len(mv)
            x = z3.Real("X%d" % k)
            if m == ():
                s.add(x == 1)
                a = x
            elif gp.mono_positive(m):
                s.add(x > 0)
                a = x
            else:
                a = z3.Real("A%d" % k)
                s.add(a >= x, a >= -x)
            r = (x, a)
            mv[m] = r
        return r

    disj = []
    for i, p in enumerate(polys):
        if not p:
            disj.append(None)
            continue
        lhs = []
        mag = []
        for m, (c, g) in p.items():
            x, a = mon(m)
            lhs.append(z3q(short(c)) * x)
            mag.append(z3q(short(Fraction(g))) * a)
        e = z3.Sum(lhs)
        t = z3q(eps) * z3.Sum(mag)
        b = z3.Bool("b%d" % i)
        s.add(b == z3.Or(e > t, e < -t))
        disj.append(b)
        live.append(i)
    s.set("timeout", 20000)
    if not live:
        s.add(z3.BoolVal(False))
        stats.run(s)
        return []
    while True:
        rest = [disj[i] for i in live if i not in bad]
        if not rest:
            break
        s.push()
        s.add(z3.Or(rest))
        r = stats.run(s)
        if r == z3.unsat:
            s.pop()
            break
        if r != z3.sat:
            s.pop()
            bad += [i for i in live if i not in bad]
            break
        m = s.model()
        hit = [i for i in live if i not in bad and z3.is_true(m.eval(disj[i], model_completion=True))]
        s.pop()
        bad += hit or [i for i in live if i not in bad]
        if len(bad) > 12:
            break
    return bad


def short(f):
    if f.denominator.bit_length() > 120 or f.numerator.bit_length() > 200:
        n, d = f.numerator, f.denominator
        sh = 100 - (abs(n).bit_length() - d.bit_length())
        if sh >= 0:
            return Fraction((n << sh) // d, 1 << sh)
        return Fraction((n // (d << -sh)) << -sh)
    return f
