"""Canonical generalised-polynomial form of Sym expressions and the algebraic zero test built on it.

A polynomial is a dict  monomial -> [coef, mag]:
  monomial  sorted tuple of (atom id, rational exponent)
  coef      exact rational coefficient
  mag       float, sum of the absolute contributions that were added into coef (scale for the rounding tolerance)

Atoms: variables, sums under negative/fractional powers ("S"), exp/log/sin/cos/... of canonical arguments.
"""
import math
import random
from fractions import Fraction
from . import expr as X
from .expr import Unsupported

DROP = 1e-12  # a coefficient this small relative to the contributions that cancelled into it is rounding noise
MAXTERMS = 60000


class Atom:
    __slots__ = ("id", "kind", "key", "poly", "pos", "name", "neg", "val")

    def __init__(self, id_, kind, key, poly, pos, name):
        self.id = id_
        self.kind = kind
        self.key = key
        self.poly = poly
        self.pos = pos
        self.name = name
        self.val = None  # value at one generic point (filter before algebraic comparisons)
        self.neg = None  # id of the sum atom that is the negative of this one


class TooBig(Exception):
    pass


class GP:
    def __init__(self, logsplit=True):
        self.logsplit = logsplit
        self.alt = None
        self.memo = {}
        self.atoms = []
        self.byvar = {}
        self.byfn = {}
        self.sums = {}
        self.bykind = {}
        self.busy = False
        self.assumed_pos = set()

    # ------------------------------------------------------------ atoms
    def _new(self, kind, key, poly, pos, name):
        a = Atom(len(self.atoms), kind, key, poly, pos, name)
        a.val = self.probe_atom(a)
        self.atoms.append(a)
        self.bykind.setdefault(kind, []).append(a)
        return a

    def probe_atom(self, a):
        try:
            if a.kind == "v":
                i = X.VARS[a.key]
                lo, hi = (None if i.lo is None else float(i.lo)), (None if i.hi is None else float(i.hi))
                h = 0.15 + 0.7 * random.Random("gp" + a.key).random()
                if lo is None and hi is None:
                    x = 4 * h - 2
                elif hi is None:
                    x = lo + (2 + abs(lo)) * h
                elif lo is None:
                    x = hi - (2 + abs(hi)) * h
                else:
                    x = lo + (hi - lo) * h
                return -x if hi is not None and hi <= 0 else x
            v = self.probe(a.poly)
            if a.kind == "S":
                return v
            return {"E": math.exp, "log": math.log, "sin": math.sin, "cos": math.cos, "atan": math.atan, "arcsin": math.asin, "arccos": math.acos}[a.kind](v)
        except (TypeError, ValueError, OverflowError, ZeroDivisionError, KeyError):
            return None

    def probe(self, p):
        """float value of a polynomial at the generic point"""
        r = 0.0
        for m, (c, g) in p.items():
            t = float(c)
            for a, e in m:
                t *= self.atoms[a].val ** (e if type(e) is int else float(e))
            r += t
        if isinstance(r, complex) or r != r or abs(r) > 1e200:
            raise ValueError
        return r

    def alike(self, kind, poly):
        """an atom of this kind whose argument is algebraically the same although written differently"""
        pool = self.bykind.get(kind)
        if not pool or len(poly) > 200 or self.busy:
            return None
        try:
            v = self.probe(poly)
        except (TypeError, ValueError, OverflowError, ZeroDivisionError):
            return None
        for a in pool:
            if len(a.poly) > 200:
                continue
            if kind == "S":
                w = a.val
            else:
                try:
                    w = self.probe(a.poly)
                except (TypeError, ValueError, OverflowError, ZeroDivisionError):
                    continue
            if w is None or abs(v - w) > 1e-10 * (abs(v) + abs(w)):
                continue
            self.busy = True
            try:
                d = padd(poly, pscale(a.poly, Fraction(-1)))
                if not d or not self.clear(d):
                    return a
            except (TooBig, X.SymDomainError, ZeroDivisionError, Unsupported):
                pass
            finally:
                self.busy = False
        return None

    def var_atom(self, name):
        a = self.byvar.get(name)
        if a is None:
            i = X.VARS[name]
            a = self._new("v", name, None, i.pos or (i.hi is not None and i.hi <= 0), name)
            self.byvar[name] = a
        return a

    def fn_atom(self, kind, poly):
        ms = frozenset(poly)
        for a in self.byfn.get((kind, ms), ()):
            if same(a.poly, poly):
                return a
        a = self.alike(kind, poly)
        if a is not None:
            return a
        a = self._new(kind, None, poly, kind == "E", kind)
        self.byfn.setdefault((kind, ms), []).append(a)
        return a

    def sum_atom(self, poly):
        ms = frozenset(poly)
        opp = None
        for a in self.sums.get(ms, ()):
            if same(a.poly, poly):
                return a
            if same(a.poly, poly, -1):
                opp = a
        if opp is None:
            a = self.alike("S", poly)
            if a is not None:
                return a
        a = self._new("S", None, poly, self.sign(poly) == 1, "S")
        self.sums.setdefault(ms, []).append(a)
        if opp is not None and opp.neg is None:
            a.neg, opp.neg = opp.id, a.id
        return a

    def negated(self, at):
        if at.neg is not None:
            return self.atoms[at.neg]
        return self.sum_atom(pscale(at.poly, Fraction(-1)))

    # ------------------------------------------------------------ conversion from the DAG
    def coarse(self):
        """a second normaliser that keeps logarithms of products as single atoms (smaller polynomials)"""
        if self.alt is None:
            self.alt = GP(False)
        return self.alt

    def of(self, e):
        memo = self.memo
        r = memo.get(e.id)
        if r is not None:
            return r
        order = []
        seen = set()
        st = [(e, False)]
        while st:
            n, done = st.pop()
            if done:
                order.append(n)
                continue
            if n.id in seen or n.id in memo:
                continue
            seen.add(n.id)
            st.append((n, True))
            for k in children(n):
                st.append((k, False))
        for n in order:
            memo[n.id] = self._conv(n)
        return memo[e.id]

    def _conv(self, n):
        g = self.memo
        if n.op == "c":
            return {} if n.args == 0 else {(): [n.args, abs(float(n.args))]}
        if n.op == "v":
            i = X.VARS[n.args]
            # a variable with a non-positive domain is minus a positive atom
            return {((self.var_atom(n.args).id, 1),): [Fraction(-1 if i.hi is not None and i.hi <= 0 else 1), 1.0]}
        if n.op == "+":
            return padd(g[n.args[0].id], g[n.args[1].id])
        if n.op == "*":
            return self.pmul(g[n.args[0].id], g[n.args[1].id])
        if n.op == "^":
            return self.ppow(g[n.args[0].id], n.args[1])
        if n.op == "sg":
            return g[n.args.id]
        return self.pfn(n.args[0], g[n.args[1].id])

    def pmul(self, a, b):
        if not a or not b:
            return {}
        if len(a) * len(b) > MAXTERMS * 8:
            raise TooBig("product of %d x %d terms" % (len(a), len(b)))
        out = {}
        # t[1] carries (rounding error)/eps of the coefficient: first-order error of a product
        bl = [(mb, cb, abs(float(cb)), gb) for mb, (cb, gb) in b.items()]
        for ma, (ca, ga) in a.items():
            fa = abs(float(ca))
            ea = max(ga - fa, 0.0)
            for mb, cb, fb, gb in bl:
                m = mmul(ma, mb)
                c = ca * cb
                g = fa * gb + fb * ea
                t = out.get(m)
                if t is None:
                    out[m] = [c, g]
                else:
                    t[0] += c
                    t[1] += g
        return clean(out)

    def ppow(self, p, q):
        if not p:
            if q > 0:
                return {}
            raise ZeroDivisionError("division by an expression that is identically zero")
        if q == 1:
            return p
        if len(p) == 1:
            (m, (c, g)), = p.items()
            return self.mono_pow(m, c, q)
        isint = q.denominator == 1
        if isint and 2 <= q <= 3 and len(p) ** int(q) <= 64:
            r = p
            for _ in range(int(q) - 1):
                r = self.pmul(r, p)
            return r
        # content extraction
        common = None
        for m in p:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {a: min(e, d[a]) if a in d else min(e, 0) for a, e in common.items()}
                for a, e in d.items():
                    if a not in common and e < 0:
                        common[a] = e
        # atoms absent in some term
        for m in p:
            d = dict(m)
            for a in list(common):
                if a not in d and common[a] > 0:
                    common[a] = 0
        cm = []
        for a, e in common.items():
            if e == 0:
                continue
            at = self.atoms[a]
            if not (at.pos or isint):
                if e.denominator != 1 if isinstance(e, Fraction) else False:
                    pass  # fractional power of an S atom: positive by construction
                elif at.kind == "S":
                    continue
                else:
                    # keep even part only when the sign is unknown
                    continue
            cm.append((a, e))
        cm = tuple(sorted(cm))
        inv = tuple((a, -e) for a, e in cm)
        body = {mmul(m, inv): [c, g] for m, (c, g) in p.items()}
        # numeric content: the lexicographically first monomial gets coefficient +-1
        lead = min(body)
        lc = body[lead][0]
        sgn = 1 if lc > 0 else -1
        k = abs(lc)
        if isint:
            scale = lc
        else:
            scale = k
        body = {m: [X.trim(c / scale), g / float(abs(scale))] for m, (c, g) in body.items()}
        fac = ()
        if not isint or q < 0:
            body, fac = self.factors(body)
        coef = X.const_pow(scale, q)
        m = mmul(mpow(cm, q), mpow(fac, q))
        if body:
            if len(body) == 1:
                # quotient of the known factors is a single term
                (mm, (c, g)), = body.items()
                if c < 0 and not isint:
                    raise X.SymDomainError("fractional power of a negative quantity")
                r = self.mono_pow(mm, c, q)
                return self.pmul(r, {m: [coef, abs(float(coef))]})
            s = self.sum_atom(body)
            m = mmul(m, ((s.id, norm(q)),))
        return {m: [coef, abs(float(coef))]}

    def factors(self, p):
        """split known positive sums off a polynomial: p = quotient * prod(factor^k)"""
        fac = ()
        if len(p) < 4 or len(p) > 60 or self.busy:
            return p, fac
        for a in list(self.bykind.get("S", ())):
            if not a.pos or len(a.poly) > 6 or len(p) < 2 * len(a.poly):
                continue
            pa = {i for m in p for i, e in m}
            if any(i not in pa for m in a.poly for i, e in m):
                continue
            for k in range(3):
                r = divide(p, a.poly)
                if r is None:
                    break
                p = r
                fac = mmul(fac, ((a.id, 1),))
        return p, fac

    def mono_pow(self, m, c, q):
        isint = q.denominator == 1
        if isint:
            cc = X.const_pow(c, q)
            return {mpow(m, q): [cc, abs(float(cc))]}
        # fractional power of a single term
        good = []
        bad = []
        for a, e in m:
            at = self.atoms[a]
            if at.pos or at.kind == "S" and (isinstance(e, Fraction) and e.denominator != 1):
                good.append((a, e))
            else:
                bad.append((a, e))
        if c < 0:
            if not bad:
                raise X.SymDomainError("fractional power of a negative quantity")
        if not bad:
            cc = X.const_pow(c, q)
            return {mpow(tuple(good), q): [cc, abs(float(cc))]}
        if len(bad) == 1 and bad[0][1] % 2 == 1 and c > 0 and self.atoms[bad[0][0]].kind in ("S", "v"):
            # x^odd under a fractional power: the real code needs x > 0
            self.assumed_pos.add(bad[0][0])
            cc = X.const_pow(c, q)
            return {mpow(m, q): [cc, abs(float(cc))]}
        if len(bad) == 1 and bad[0][1] % 2 == 1 and c < 0 and self.atoms[bad[0][0]].kind == "S":
            # negative coefficient: it is the negated sum that has to be positive
            b = self.negated(self.atoms[bad[0][0]])
            self.assumed_pos.add(b.id)
            cc = X.const_pow(-c, q)
            mm = mmul(mpow(tuple(good), q), mpow(((b.id, bad[0][1]),), q))
            return {mm: [cc, abs(float(cc))]}
        s = self.sum_atom({tuple(bad): [Fraction(1 if c > 0 else -1), 1.0]})
        cc = X.const_pow(abs(c), q)
        mm = mmul(mpow(tuple(good), q), ((s.id, norm(q)),))
        return {mm: [cc, abs(float(cc))]}

    def plog(self, p):
        if len(p) == 1:
            (m, (c, g)), = p.items()
            neg = [a for a, e in m if not self.atoms[a].pos and not (
                isinstance(e, Fraction) and e.denominator != 1)]
            if c > 0 and not self.logsplit and len(m) > 1 and not neg:
                e0 = Fraction(m[0][1])
                body = {mpow(m, 1 / e0): [Fraction(1), 1.0]}
                out = {((self.fn_atom("log", body).id, 1),): [e0, abs(float(e0))]}
                if c != 1:
                    k = X.const_fn("log", c)
                    out = padd(out, {(): [k, abs(float(k))]})
                return out
            if c > 0 and len(neg) <= 1:
                out = {}
                if c != 1:
                    k = X.const_fn("log", c)
                    out[()] = [k, abs(float(k))]
                for a, e in m:
                    at = self.atoms[a]
                    if at.kind == "E":
                        la = at.poly
                    elif a in neg and e % 2 == 0:
                        # log(x^2k): keep as opaque
                        la = {((self.fn_atom("log", {((a, 2),): [Fraction(1), 1.0]}).id, 1),): [Fraction(1, 2), .5]}
                    else:
                        if a in neg:
                            self.assumed_pos.add(a)
                        la = {((self.fn_atom("log", {((a, 1),): [Fraction(1), 1.0]}).id, 1),): [Fraction(1), 1.0]}
                    out = padd(out, pscale(la, Fraction(e)))
                return out
        # general: factor content through a first power
        if len(p) > 1:
            lead = min(p)
            k = abs(p[lead][0])
            body = {m: [X.trim(c / k), g / float(k)] for m, (c, g) in p.items()}
            out = {((self.fn_atom("log", body).id, 1),): [Fraction(1), 1.0]}
            if k != 1:
                lk = X.const_fn("log", k)
                out = padd(out, {(): [lk, abs(float(lk))]})
            return out
        return {((self.fn_atom("log", p).id, 1),): [Fraction(1), 1.0]}

    def pexp(self, p):
        coef = Fraction(1)
        mono = ()
        for m, (c, g) in p.items():
            if m == ():
                coef = X.trim(coef * X.const_fn("exp", c))
                continue
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == "log":
                arg = self.atoms[m[0][0]].poly
                r = self.ppow(arg, X.snap_exp(c))
                if len(r) == 1:
                    (mm, (cc, gg)), = r.items()
                    coef *= cc
                    mono = mmul(mono, mm)
                    continue
            a = self.fn_atom("E", {m: [Fraction(1), 1.0]})
            mono = mmul(mono, ((a.id, norm(X.snap_exp(c))),))
        return {mono: [coef, abs(float(coef))]}

    def pfn(self, f, p):
        if f == "exp":
            return self.pexp(p)
        if f == "log":
            if not p:
                raise X.SymDomainError("log(0)")
            return self.plog(p)
        if f in ("sin", "cos", "atan", "arcsin", "arccos"):
            if not p:
                if f == "arccos":
                    k = X.const_fn("arccos", Fraction(0))
                    return {(): [k, float(k)]}
                return {(): [Fraction(1), 1.0]} if f == "cos" else {}
            if len(p) == 1 and () in p:
                k = X.const_fn(f, p[()][0])
                return {(): [k, abs(float(k))]} if k else {}
            lead = min(p)
            sg = 1
            if p[lead][0] < 0 and f != "arccos":
                p = pscale(p, Fraction(-1))
                if f != "cos":
                    sg = -1
            if f in ("sin", "cos") and len(p) > 1:
                # angle addition: keeps sin(a+b) and sin a cos b + cos a sin b comparable
                items = sorted(p.items())
                m0, t0 = items[0]
                p0 = {m0: t0}
                p1 = dict(items[1:])
                s0, c0 = self.pfn("sin", p0), self.pfn("cos", p0)
                s1, c1 = self.pfn("sin", p1), self.pfn("cos", p1)
                if f == "sin":
                    r = padd(self.pmul(s0, c1), self.pmul(c0, s1))
                else:
                    r = padd(self.pmul(c0, c1), pscale(self.pmul(s0, s1), Fraction(-1)))
                return pscale(r, Fraction(sg)) if sg != 1 else r
            if f in ("sin", "cos") and len(p) == 1:
                (m, (c, g)), = p.items()
                if c.denominator == 1 and 2 <= c <= 4:
                    h = {m: [Fraction(1), 1.0]}
                    k = {m: [c - 1, float(c - 1)]}
                    s0, c0 = self.pfn("sin", h), self.pfn("cos", h)
                    s1, c1 = self.pfn("sin", k), self.pfn("cos", k)
                    if f == "sin":
                        r = padd(self.pmul(s0, c1), self.pmul(c0, s1))
                    else:
                        r = padd(self.pmul(c0, c1), pscale(self.pmul(s0, s1), Fraction(-1)))
                    return pscale(r, Fraction(sg)) if sg != 1 else r
            a = self.fn_atom(f, p)
            return {((a.id, 1),): [Fraction(sg), 1.0]}
        raise Unsupported("function " + f)

    # ------------------------------------------------------------ zero test
    def unify_signs(self, p):
        """write integer powers of -B as powers of B when B also occurs under a fractional power"""
        frac = set()
        linked = False
        for m in p:
            for a, e in m:
                if self.atoms[a].neg is not None:
                    linked = True
                    if isinstance(e, Fraction) and e.denominator != 1:
                        frac.add(a)
        if not linked:
            return p
        out = {}
        for m, t in p.items():
            sg = 1
            d = {}
            for a, e in m:
                n = self.atoms[a].neg
                if n is not None and a not in frac and (n in frac or n < a) and not (
                        isinstance(e, Fraction) and e.denominator != 1):
                    if e % 2:
                        sg = -sg
                    a = n
                d[a] = d.get(a, 0) + e
            mm = tuple(sorted((a, norm(e)) for a, e in d.items() if e != 0))
            padd_into(out, mm, [t[0] * sg, t[1]])
        return clean(out)

    def clear(self, p):
        """multiply p by a non-vanishing monomial and expand so that every sum atom is gone.
        Returns a polynomial that is zero iff p is (up to genuine transcendental relations between atoms)."""
        p = self.unify_signs({m: list(t) for m, t in p.items()})
        while True:
            top = -1
            for m in p:
                for a, e in m:
                    k = self.atoms[a].kind
                    if k == "S" and a > top and not (isinstance(e, Fraction) and 0 < e < 1):
                        top = a
                    elif k in ("sin", "cos") and e < 0 and a > top:
                        top = a
            if top < 0:
                break
            emin = None
            for m in p:
                e = dict(m).get(top, 0)
                if emin is None or e < emin:
                    emin = e
            sh = ((top, -emin),) if emin != 0 else ()
            at = self.atoms[top]
            groups = {}
            for m, t in p.items():
                m = mmul(m, sh)
                d = dict(m)
                e = d.pop(top, 0)
                if at.kind == "S":
                    n = e.numerator // e.denominator if isinstance(e, Fraction) else e
                    f = e - n
                else:
                    n, f = 0, e
                if f:
                    d[top] = norm(f)
                mm = tuple(sorted(d.items()))
                g = groups.setdefault(n, {})
                if mm in g:
                    g[mm][0] += t[0]
                    g[mm][1] += t[1]
                else:
                    g[mm] = list(t)
            if at.kind != "S":
                p = clean(groups[0])
                continue
            # Horner in the atom's polynomial
            acc = {}
            for n in range(max(groups), -1, -1):
                if acc:
                    acc = self.pmul(acc, at.poly)
                if n in groups:
                    acc = padd(acc, clean(groups[n]))
                if len(acc) > MAXTERMS:
                    raise TooBig("%d terms" % len(acc))
            p = acc
        # sin^2 -> 1 - cos^2
        again = True
        while again:
            again = False
            out = {}
            for m, t in p.items():
                hit = None
                for a, e in m:
                    if self.atoms[a].kind == "sin" and e >= 2:
                        hit = a
                        break
                if hit is None:
                    padd_into(out, m, t)
                    continue
                again = True
                d = dict(m)
                d[hit] = d[hit] - 2
                if d[hit] == 0:
                    del d[hit]
                m0 = tuple(sorted(d.items()))
                cosa = self.pfn("cos", self.atoms[hit].poly)
                padd_into(out, m0, t)
                for mc, tc in self.pmul(cosa, cosa).items():
                    padd_into(out, mmul(m0, mc), [-t[0] * tc[0], t[1] * tc[1]])
            p = clean(out)
        return p

    def mono_positive(self, m):
        for a, e in m:
            at = self.atoms[a]
            if at.pos or a in self.assumed_pos:
                continue
            if at.kind == "S" and isinstance(e, Fraction) and e.denominator != 1:
                continue
            if e % 2 == 0:
                continue
            return False
        return True

    def sign(self, p):
        """+1/-1 when every term has that sign, 0 for the zero polynomial, None when unknown"""
        if not p:
            return 0
        s = None
        for m, (c, g) in p.items():
            ms = self.mono_sign(m)
            if ms is None:
                return None
            k = (1 if c > 0 else -1) * ms
            if s is None:
                s = k
            elif s != k:
                return None
        return s

    def mono_sign(self, m):
        s = 1
        for a, e in m:
            at = self.atoms[a]
            if at.pos or a in self.assumed_pos:
                continue
            if at.kind == "S":
                if isinstance(e, Fraction) and e.denominator != 1:
                    continue
                ps = self.sign(at.poly)
                if ps is None:
                    return None
                if e % 2:
                    s *= ps
                continue
            return None
        return s


def divide(p, d):
    """exact quotient of two generalised polynomials (lexicographic leading terms), None when d does not divide p"""
    ids = sorted({i for m in p for i, e in m} | {i for m in d for i, e in m})

    def key(m):
        z = dict(m)
        return tuple(z.get(i, 0) for i in ids)

    ld = max(d, key=key)
    inv = tuple((i, -e) for i, e in ld)
    cd = d[ld][0]
    rem = {m: list(t) for m, t in p.items()}
    out = {}
    low = min(key(m) for m in p)
    for _ in range(len(p)):
        if not rem:
            break
        lm = max(rem, key=key)
        qm = mmul(lm, inv)
        if qm in out:
            return None
        qc = rem[lm][0] / cd
        gq = rem[lm][1] / abs(float(cd))
        out[qm] = [qc, max(gq, abs(float(qc)))]
        for m, (c, g) in d.items():
            mm = mmul(qm, m)
            t = rem.get(mm)
            if t is None:
                if mm != lm and key(mm) < low and len(rem) > 4 * len(p):
                    return None
                rem[mm] = [-qc * c, abs(float(qc * c))]
            else:
                t[0] -= qc * c
                t[1] += abs(float(qc * c))
                if t[0] == 0 or abs(t[0]) <= DROP * t[1]:
                    del rem[mm]
    return None if rem else out


def children(n):
    if n.op in "+*":
        return n.args
    if n.op == "^":
        return (n.args[0],)
    if n.op == "f":
        return (n.args[1],)
    if n.op == "sg":
        return (n.args,)
    return ()


def norm(e):
    if isinstance(e, Fraction) and e.denominator == 1:
        return int(e)
    return e


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] < y[0]:
            out.append(x)
            i += 1
        elif x[0] > y[0]:
            out.append(y)
            j += 1
        else:
            e = x[1] + y[1]
            if e != 0:
                if type(e) is not int:
                    e = norm(X.snap_exp(e))
                out.append((x[0], e))
            i += 1
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def mpow(m, q):
    return tuple((a, norm(X.snap_exp(Fraction(e) * q))) for a, e in m)


def clean(p):
    bad = [m for m, (c, g) in p.items() if c == 0 or abs(c) <= DROP * g]
    for m in bad:
        del p[m]
    for t in p.values():
        if t[0].denominator.bit_length() > 300:
            t[0] = X.trim(t[0])
    if len(p) > MAXTERMS:
        raise TooBig("%d terms" % len(p))
    return p


def padd_into(out, m, t):
    o = out.get(m)
    if o is None:
        out[m] = [t[0], t[1]]
    else:
        o[0] += t[0]
        o[1] += t[1]


def padd(a, b):
    if not a:
        return b
    if not b:
        return a
    if len(a) < len(b):
        a, b = b, a
    out = dict(a)
    for m, t in b.items():
        o = out.get(m)
        if o is None:
            out[m] = t
        else:
            c = o[0] + t[0]
            g = o[1] + t[1]
            if c == 0 or abs(c) <= DROP * g:
                del out[m]
            else:
                out[m] = [X.trim(c), g]
    return out


def pscale(p, k):
    if k == 0:
        return {}
    fk = abs(float(k))
    return {m: [c * k, g * fk] for m, (c, g) in p.items()}


def same(p, q, k=1):
    for m, (c, g) in p.items():
        d = k * q[m][0]
        if c != d and abs(c - d) > Fraction(1, 10 ** 11) * abs(c):
            return False
    return True
