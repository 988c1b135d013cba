"""Symbolic real expressions (hash-consed DAG) that numpy object arrays can carry.

A Sym supports the Python operators and the method names numpy's object-dtype ufuncs call (exp, sqrt, ...).
Comparisons ask the active path explorer (explore.Ctx) which branch is being followed and return a plain bool.
"""
from fractions import Fraction
import math
import numbers
import sys

sys.setrecursionlimit(100000)


class SymDomainError(ArithmeticError):
    """the symbolic run left the real domain (e.g. fractional power of a negative constant)"""


class Unsupported(Exception):
    """construct the encoder cannot express"""


# ---------------------------------------------------------------- exact rationals from floats
_rat_cache = {}


def rat(x):
    """Exact rational meant by a number: nearest small rational if it rounds to the same double, else the decimal."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, numbers.Integral):
        return Fraction(int(x))
    x = float(x)
    r = _rat_cache.get(x)
    if r is None:
        if math.isnan(x) or math.isinf(x):
            raise SymDomainError("nan/inf constant")
        f = Fraction(x)
        c = f.limit_denominator(5000)
        if float(c) == x:
            r = c
        else:
            r = Fraction(repr(x))
        _rat_cache[x] = r
    return r


def snap_exp(q):
    """exponents: snap to a small rational when within 1e-12 (e.g. 1.4/(1.4-1) evaluated in floats)"""
    if q.denominator == 1:
        return q
    c = q.limit_denominator(20000)
    if abs(c - q) <= Fraction(1, 10 ** 12) * max(1, abs(q)):
        return c
    return q


def trim(fr):
    """bound the size of a rational (working precision 220 bits)"""
    if fr.denominator.bit_length() > 300:
        n = fr.numerator
        d = fr.denominator
        if n == 0:
            return fr
        sh = 220 - (abs(n).bit_length() - d.bit_length())
        if sh >= 0:
            return Fraction((n << sh) // d, 1 << sh)
        return Fraction((n // (d << (-sh))) << (-sh))
    return fr


def mpc():
    import mpmath

    mpmath.mp.dps = 60
    return mpmath


def mp_to_frac(v):
    mp = mpc()
    v = mp.mpf(v)
    s, man, ex, bc = v._mpf_
    man = int(man)
    if s:
        man = -man
    if ex >= 0:
        return Fraction(man * (1 << ex))
    return trim(Fraction(man, 1 << (-ex)))


def frac_to_mp(f):
    mp = mpc()
    return mp.mpf(f.numerator) / mp.mpf(f.denominator)


def const_fn(name, q):
    mp = mpc()
    v = frac_to_mp(q)
    if name in ("sin", "cos") and abs(q) > Fraction(1, 2):
        r = mp_to_frac((mp.sin if name == "sin" else mp.cos)(v))
        return r if abs(r) > SNAP * abs(q) else Fraction(0)  # sin(np.pi), cos(np.pi/2)
    if name == "log" and q <= 0:
        raise SymDomainError("log of non-positive constant")
    if name in ("arcsin", "arccos") and abs(q) > 1:
        raise SymDomainError(name)
    f = {"exp": mp.exp, "log": mp.log, "sin": mp.sin, "cos": mp.cos, "atan": mp.atan, "arcsin": mp.asin,
         "arccos": mp.acos}[name]
    return mp_to_frac(f(v))


def const_pow(b, q):
    if q.denominator == 1:
        if b == 0 and q < 0:
            raise ZeroDivisionError("0 to a negative power")
        if abs(q) < 400:
            return trim(b ** int(q))
    if b < 0:
        raise SymDomainError("fractional power of negative constant")
    if b == 0:
        if q < 0:
            raise ZeroDivisionError("0 to a negative power")
        return Fraction(0)
    mp = mpc()
    return mp_to_frac(mp.power(frac_to_mp(b), frac_to_mp(q)))


# ---------------------------------------------------------------- nodes
_table = {}
_nodes = []
CTX = None  # active explore.Ctx


class Sym:
    __slots__ = ("op", "args", "id", "gp", "dcache", "_vars")
    __array_priority__ = -1

    def __new__(cls, x):
        return lift(x)

    # -- arithmetic
    def __add__(self, o):
        o = lift_or_none(o)
        return NotImplemented if o is None else add(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        o = lift_or_none(o)
        return NotImplemented if o is None else add(self, neg(o))

    def __rsub__(self, o):
        o = lift_or_none(o)
        return NotImplemented if o is None else add(o, neg(self))

    def __mul__(self, o):
        o = lift_or_none(o)
        return NotImplemented if o is None else mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift_or_none(o)
        return NotImplemented if o is None else mul(self, power(o, const(-1)))

    def __rtruediv__(self, o):
        o = lift_or_none(o)
        return NotImplemented if o is None else mul(o, power(self, const(-1)))

    def __pow__(self, o):
        o = lift_or_none(o)
        return NotImplemented if o is None else power(self, o)

    def __rpow__(self, o):
        o = lift_or_none(o)
        return NotImplemented if o is None else power(o, self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return absv(self)

    # -- comparisons (fork)
    def __lt__(self, o):
        return self._cmp("<", o)

    def __le__(self, o):
        return self._cmp("<=", o)

    def __gt__(self, o):
        return self._cmp(">", o)

    def __ge__(self, o):
        return self._cmp(">=", o)

    def __eq__(self, o):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        if o is self:
            return True
        return decide("==", add(self, neg(o)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else (not r)

    def _cmp(self, op, o):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        d = add(self, neg(o))
        if op == "<":
            return decide("<", d)
        if op == "<=":
            return not decide("<", neg(d))
        if op == ">":
            return decide("<", neg(d))
        return not decide("<", d)

    def __hash__(self):
        return self.id

    def __bool__(self):
        return not decide("==", self)

    # -- conversions (constants only)
    def __float__(self):
        if self.op == "c":
            return float(self.args)
        raise TypeError("cannot convert a symbolic value to float")

    def __int__(self):
        if self.op == "c":
            return int(self.args)
        raise TypeError("cannot convert a symbolic value to int")

    def __index__(self):
        if self.op == "c" and self.args.denominator == 1:
            return int(self.args)
        raise TypeError("symbolic value used as an index")

    def __complex__(self):
        return complex(float(self))

    def __round__(self, n=None):
        if self.op == "c":
            return lift(round(float(self.args), n) if n is not None else round(float(self.args)))
        raise Unsupported("round of a symbolic value")

    # -- numpy object-ufunc methods
    def exp(self):
        return fn("exp", self)

    def log(self):
        return fn("log", self)

    def log10(self):
        return mul(fn("log", self), power(fn("log", const(10)), const(-1)))

    def log2(self):
        return mul(fn("log", self), power(fn("log", const(2)), const(-1)))

    def sqrt(self):
        return power(self, const(Fraction(1, 2)))

    def cbrt(self):
        return power(self, const(Fraction(1, 3)))

    def square(self):
        return power(self, const(2))

    def reciprocal(self):
        return power(self, const(-1))

    def sin(self):
        return fn("sin", self)

    def cos(self):
        return fn("cos", self)

    def tan(self):
        return mul(fn("sin", self), power(fn("cos", self), const(-1)))

    def arctan(self):
        return fn("atan", self)

    def arcsin(self):
        return fn("arcsin", self)

    def arccos(self):
        return fn("arccos", self)

    def tanh(self):
        e = fn("exp", mul(const(2), self))
        return mul(add(e, const(-1)), power(add(e, const(1)), const(-1)))

    def cosh(self):
        return mul(const(Fraction(1, 2)), add(fn("exp", self), fn("exp", neg(self))))

    def sinh(self):
        return mul(const(Fraction(1, 2)), add(fn("exp", self), neg(fn("exp", neg(self)))))

    def deg2rad(self):
        return mul(self, lift(math.pi / 180.0))

    radians = deg2rad

    def rad2deg(self):
        return mul(self, lift(180.0 / math.pi))

    degrees = rad2deg

    def conjugate(self):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def absolute(self):
        return absv(self)

    def fabs(self):
        return absv(self)

    def sign(self):
        if decide("<", self):
            return const(-1)
        if decide("==", self):
            return const(0)
        return const(1)

    def isnan(self):
        """true where a radicand or logarithm argument is negative (numpy would produce nan)"""
        seen = set()
        st = [self]
        while st:
            n = st.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            if n.op in "+*":
                st.extend(n.args)
            elif n.op == "^":
                st.append(n.args[0])
                if n.args[1].denominator != 1 and decide("<", n.args[0]):
                    return True
            elif n.op == "f":
                st.append(n.args[1])
                if n.args[0] == "log" and decide("<", n.args[1]):
                    return True
            elif n.op == "sg":
                st.append(n.args)
        return False

    @property
    def real(self):
        return real_part(self)

    @property
    def imag(self):
        return imag_part(self)

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def ndim(self):
        return 0

    def __repr__(self):
        return tostr(self)

    def __format__(self, spec):
        return tostr(self)


def _mk(op, args):
    key = (op, args)
    n = _table.get(key)
    if n is None:
        n = object.__new__(Sym)
        n.op = op
        n.args = args
        n.id = len(_nodes)
        n.gp = None
        n.dcache = None
        n._vars = None
        _table[key] = n
        _nodes.append(n)
    return n


def reset():
    """forget every node (between harnesses)"""
    _table.clear()
    _nodes.clear()
    VARS.clear()


def const(q):
    if not isinstance(q, Fraction):
        q = rat(q)
    return _mk("c", trim(q))


class VarInfo:
    __slots__ = ("name", "lo", "hi", "pos")

    def __init__(self, name, lo, hi):
        self.name = name
        self.lo = None if lo is None else rat(lo)
        self.hi = None if hi is None else rat(hi)
        self.pos = self.lo is not None and self.lo >= 0  # interior of the box: strictly positive


VARS = {}


def var(name, lo=None, hi=None):
    VARS[name] = VarInfo(name, lo, hi)
    return _mk("v", name)


def lift(x):
    r = lift_or_none(x)
    if r is None:
        raise TypeError("cannot make a symbolic value from %r" % (type(x),))
    return r


JVAR = "j!"


def imag_part(e):
    """imaginary part of a value built with a tiny imaginary constant (first order)"""
    e = lift(e)
    if JVAR not in variables(e):
        return const(0)
    return subst(diff(e, JVAR), {JVAR: const(0)})


def real_part(e):
    e = lift(e)
    if JVAR not in variables(e):
        return e
    return subst(e, {JVAR: const(0)})


def from_complex(z):
    """a complex constant: its imaginary part rides on the infinitesimal j (complex-step code)"""
    if z.imag == 0:
        return const(rat(z.real))
    if abs(z.imag) > 1e-6:
        raise Unsupported("complex constant with a finite imaginary part")
    return add(const(rat(z.real)), mul(const(rat(z.imag)), var(JVAR)))


def lift_or_none(x):
    if type(x) is Sym:
        return x
    if isinstance(x, (bool, int, float, Fraction)):
        return const(rat(x))
    if isinstance(x, numbers.Number) or type(x).__module__ == "numpy":
        if hasattr(x, "shape") and x.shape != ():
            return None
        try:
            if isinstance(x, numbers.Complex) and not isinstance(x, numbers.Real):
                return from_complex(complex(x))
            if hasattr(x, "item"):
                x = x.item()
                if type(x) is Sym:
                    return x
            return const(rat(x))
        except (TypeError, ValueError):
            return None
    return None


SNAP = Fraction(1, 10 ** 14)


def add(a, b):
    if a.op == "c":
        if a.args == 0:
            return b
        if b.op == "c":
            r = a.args + b.args
            if r and abs(r) < abs(a.args) * SNAP:  # cancellation below double rounding
                r = Fraction(0)
            return const(r)
        a, b = b, a
    elif b.op == "c":
        if b.args == 0:
            return a
    elif a.id > b.id:
        a, b = b, a
    if a.op == "*" and a.args[0].op == "c" and a.args[0].args == -1 and a.args[1] is b:
        return const(0)
    if b.op == "*" and b.args[0].op == "c" and b.args[0].args == -1 and b.args[1] is a:
        return const(0)
    return _mk("+", (a, b))


def neg(a):
    return mul(const(-1), a)


def mul(a, b):
    if b.op == "c":
        a, b = b, a
    if a.op == "c":
        if a.args == 0:
            return a
        if a.args == 1:
            return b
        if b.op == "c":
            return const(a.args * b.args)
        if b.op == "*" and b.args[0].op == "c":
            return mul(const(a.args * b.args[0].args), b.args[1])
        return _mk("*", (a, b))
    if a.id > b.id:
        a, b = b, a
    return _mk("*", (a, b))


def power(a, e):
    if e.op == "c":
        q = snap_exp(e.args)
        if q == 0:
            return const(1)
        if q == 1:
            return a
        if a.op == "c":
            return const(const_pow(a.args, q))
        if a.op == "^" and (a.args[1].denominator != 1 or q.denominator == 1):
            # (x^f)^q = x^(fq) whenever x^f is defined on the reals and f fractional (x > 0), or both integral
            return power(a.args[0], const(a.args[1] * q))
        return _mk("^", (a, q))
    if a.op == "c" and a.args == 1:
        return a
    return fn("exp", mul(e, fn("log", a)))


def fn(name, a):
    if a.op == "c":
        if name in ("exp", "cos") and a.args == 0:
            return const(1)
        if name in ("sin", "atan", "arcsin") and a.args == 0:
            return const(0)
        if name == "log" and a.args == 1:
            return const(0)
        return const(const_fn(name, a.args))
    if name == "log" and a.op == "f" and a.args[0] == "exp":
        return a.args[1]
    if name == "exp" and a.op == "f" and a.args[0] == "log":
        return a.args[1]
    if name in ("sin", "cos") and a.op == "f" and a.args[0] in ("arcsin", "arccos", "atan"):
        inner = a.args[1]
        sq = power(inner, const(2))
        if a.args[0] == "atan":
            r = power(add(const(1), sq), const(Fraction(-1, 2)))
            return mul(inner, r) if name == "sin" else r
        if (name == "sin") == (a.args[0] == "arcsin"):
            return inner
        return power(add(const(1), neg(sq)), const(Fraction(1, 2)))
    return _mk("f", (name, a))


def absv(a):
    if a.op == "c":
        return const(abs(a.args))
    if CTX is not None and CTX.cs_mode:
        # numpy's abs of a complex-step value is the (real) modulus: the derivative is lost
        if decide("<", a):
            return _mk("sg", neg(a))
        return _mk("sg", a)
    if decide("<", a):
        return neg(a)
    return a


def stopgrad(a):
    if a.op == "c":
        return a
    return _mk("sg", a)


def decide(op, d):
    """truth value of `d op 0` on the current path (op in '<', '==')"""
    if d.op == "c":
        return d.args < 0 if op == "<" else d.args == 0
    if CTX is None:
        raise Unsupported("symbolic comparison outside of an exploration")
    return CTX.decide(op, d)


# ---------------------------------------------------------------- traversal utilities
def variables(e):
    seen = set()
    out = set()
    st = [e]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == "v":
            out.add(n.args)
        elif n.op in "+*":
            st.extend(n.args)
        elif n.op == "^":
            st.append(n.args[0])
        elif n.op == "f":
            st.append(n.args[1])
        elif n.op == "sg":
            st.append(n.args)
    return out


def diff(e, name):
    """derivative of e with respect to variable `name` (iterative post-order, memoised on the nodes)"""
    if e.dcache is not None and name in e.dcache:
        return e.dcache[name]
    order = []
    seen = set()
    st = [(e, False)]
    while st:
        n, done = st.pop()
        if done:
            order.append(n)
            continue
        if n.id in seen or (n.dcache is not None and name in n.dcache):
            continue
        seen.add(n.id)
        st.append((n, True))
        if n.op in "+*":
            for k in n.args:
                st.append((k, False))
        elif n.op == "^":
            st.append((n.args[0], False))
        elif n.op == "f":
            st.append((n.args[1], False))
    zero = const(0)
    for n in order:
        if n.op in ("c", "sg"):
            r = zero
        elif n.op == "v":
            r = const(1) if n.args == name else zero
        elif n.op == "+":
            r = add(n.args[0].dcache[name], n.args[1].dcache[name])
        elif n.op == "*":
            a, b = n.args
            r = add(mul(a.dcache[name], b), mul(a, b.dcache[name]))
        elif n.op == "^":
            a, q = n.args
            da = a.dcache[name]
            r = zero if da is zero else mul(mul(const(q), power(a, const(q - 1))), da)
        else:
            f, a = n.args
            da = a.dcache[name]
            if da is zero:
                r = zero
            elif f == "exp":
                r = mul(n, da)
            elif f == "log":
                r = mul(power(a, const(-1)), da)
            elif f == "sin":
                r = mul(fn("cos", a), da)
            elif f == "cos":
                r = mul(neg(fn("sin", a)), da)
            elif f == "atan":
                r = mul(power(add(const(1), power(a, const(2))), const(-1)), da)
            elif f == "arcsin":
                r = mul(power(add(const(1), neg(power(a, const(2)))), const(Fraction(-1, 2))), da)
            elif f == "arccos":
                r = neg(mul(power(add(const(1), neg(power(a, const(2)))), const(Fraction(-1, 2))), da))
            else:
                raise Unsupported("derivative of " + f)
        if n.dcache is None:
            n.dcache = {}
        n.dcache[name] = r
    return e.dcache[name]


def subst(e, m, memo=None):
    """replace variables by expressions (m: name -> Sym)"""
    memo = {} if memo is None else memo

    def go(n):
        r = memo.get(n.id)
        if r is not None:
            return r
        if n.op == "c":
            r = n
        elif n.op == "v":
            r = m.get(n.args, n)
        elif n.op == "+":
            r = add(go(n.args[0]), go(n.args[1]))
        elif n.op == "*":
            r = mul(go(n.args[0]), go(n.args[1]))
        elif n.op == "^":
            r = power(go(n.args[0]), const(n.args[1]))
        elif n.op == "f":
            r = fn(n.args[0], go(n.args[1]))
        else:
            r = stopgrad(go(n.args))
        memo[n.id] = r
        return r

    return go(e)


def evalf(e, point, memo=None, mp=None):
    """numeric value of e at point (name -> mpf), 60 digits"""
    mp = mp or mpc()
    memo = {} if memo is None else memo

    def go(n):
        r = memo.get(n.id)
        if r is not None:
            return r
        if n.op == "c":
            r = frac_to_mp(n.args)
        elif n.op == "v":
            r = point[n.args]
        elif n.op == "+":
            r = go(n.args[0]) + go(n.args[1])
        elif n.op == "*":
            r = go(n.args[0]) * go(n.args[1])
        elif n.op == "^":
            b = go(n.args[0])
            q = n.args[1]
            if q.denominator == 1:
                if b == 0 and q < 0:
                    raise ZeroDivisionError
                r = b ** int(q)
            else:
                if b < 0:
                    raise SymDomainError("fractional power of a negative value")
                r = mp.power(b, frac_to_mp(q)) if b != 0 else mp.mpf(0)
        elif n.op == "f":
            a = go(n.args[1])
            f = n.args[0]
            if f == "log" and a <= 0:
                raise SymDomainError("log of a non-positive value")
            if f in ("arcsin", "arccos") and abs(a) > 1:
                raise SymDomainError(f)
            r = {"exp": mp.exp, "log": mp.log, "sin": mp.sin, "cos": mp.cos, "atan": mp.atan, "arcsin": mp.asin,
                 "arccos": mp.acos}[f](a)
        else:
            r = go(n.args)
        memo[n.id] = r
        return r

    return go(e)


def rounding(e, point, memo, U=2.0 ** -51):
    """bound on the error of evaluating e in double precision at the point; memo holds the evalf values"""
    mp = mpc()
    err = memo.setdefault("rounding", {})
    evalf(e, point, memo)

    def go(n):
        r = err.get(n.id)
        if r is not None:
            return r
        v = abs(memo[n.id])
        if n.op == "c" or n.op == "v":
            r = U * v
        elif n.op == "+":
            r = go(n.args[0]) + go(n.args[1]) + U * v
        elif n.op == "*":
            a, b = n.args
            r = go(a) * abs(memo[b.id]) + go(b) * abs(memo[a.id]) + U * v
        elif n.op == "^":
            b = abs(memo[n.args[0].id])
            r = go(n.args[0]) * abs(frac_to_mp(n.args[1])) * (v / b if b != 0 else 0) + U * v
        elif n.op == "f":
            a, ea, f = memo[n.args[1].id], go(n.args[1]), n.args[0]
            if f == "exp":
                r = v * ea
            elif f == "log":
                r = ea / a
            elif f in ("arcsin", "arccos"):
                r = ea / mp.sqrt(max(1 - a * a, mp.mpf(10) ** -30))
            else:
                r = ea
            r = r + U * v
        else:
            r = go(n.args)
        err[n.id] = r
        return r

    return go(e)


def tostr(e, depth=0):
    if depth > 12:
        return "..."
    if e.op == "c":
        f = e.args
        return str(f) if f.denominator < 10000 else repr(float(f))
    if e.op == "v":
        return e.args
    if e.op == "+":
        return "(%s + %s)" % (tostr(e.args[0], depth + 1), tostr(e.args[1], depth + 1))
    if e.op == "*":
        return "%s*%s" % (tostr(e.args[0], depth + 1), tostr(e.args[1], depth + 1))
    if e.op == "^":
        return "%s^%s" % (tostr(e.args[0], depth + 1), e.args[1])
    if e.op == "f":
        return "%s(%s)" % (e.args[0], tostr(e.args[1], depth + 1))
    return "sg(%s)" % tostr(e.args, depth + 1)
