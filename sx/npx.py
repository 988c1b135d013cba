"""numpy / math / scipy.sparse stand-ins that let the real component code run on symbolic arrays."""
import contextlib
import math
import sys
import types
from fractions import Fraction
import numpy as np

from . import expr as X
from .expr import Sym, Unsupported

_TRANS = {"exp", "log", "log10", "log2", "sqrt", "cbrt", "sin", "cos", "tan", "arctan", "arcsin", "arccos", "tanh", "sinh",
          "cosh", "square", "reciprocal", "deg2rad", "rad2deg", "radians", "degrees", "absolute", "fabs", "power",
          "float_power", "sign", "negative", "add", "subtract", "multiply", "divide", "true_divide", "maximum", "minimum",
          "fmax", "fmin", "expm1", "log1p", "hypot", "exp2", "heaviside", "copysign", "signbit", "logaddexp", "logaddexp2"}
_CMP = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal"}


def lift_arr(a):
    """object SymArray with every element a Sym"""
    a = np.asarray(a)
    if a.dtype != object:
        out = np.empty(a.shape, dtype=object)
        flat = out.reshape(-1)
        for i, v in enumerate(a.reshape(-1).tolist()):
            if isinstance(v, complex):
                v = X.from_complex(v)
            flat[i] = X.lift(v)
        return out.view(SymArray)
    out = np.empty(a.shape, dtype=object)
    flat = out.reshape(-1)
    for i, v in enumerate(np.asarray(a).reshape(-1).tolist() if a.ndim else [a.item()]):
        flat[i] = v if type(v) is Sym else X.lift(v)
    return out.view(SymArray)


def wrap(r):
    if isinstance(r, np.ndarray) and r.dtype == object and not isinstance(r, SymArray):
        return r.view(SymArray)
    if isinstance(r, tuple):
        return tuple(wrap(v) for v in r)
    if isinstance(r, list):
        return [wrap(v) for v in r]
    return r


def base(a):
    if isinstance(a, SymArray):
        return a.view(np.ndarray)
    return a


def _element(i, ndim):
    t = i if isinstance(i, tuple) else (i,)
    return len(t) == ndim and all(isinstance(k, (int, np.integer)) for k in t)


class SymArray(np.ndarray):
    def __array_finalize__(self, obj):
        pass

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        name = ufunc.__name__
        out = kw.pop("out", None)
        kw.pop("dtype", None)
        kw.pop("casting", None)
        ins = [base(x) for x in inputs]
        if method == "__call__":
            if name == "isinf":
                return np.zeros(np.shape(ins[0]), dtype=bool)
            if name == "isnan":
                a = lift_arr(ins[0])
                return np.array([v.isnan() for v in a.reshape(-1).tolist()], dtype=bool).reshape(a.shape)
            if name == "isfinite":
                return np.ones(np.shape(ins[0]), dtype=bool)
            if name in ("conjugate", "conj", "positive"):
                return self.copy()
            if name == "expm1":
                r = np.exp(lift_arr(ins[0]).view(np.ndarray)) - 1
            elif name == "log1p":
                r = np.log((lift_arr(ins[0]) + 1).view(np.ndarray))
            elif name == "exp2":
                r = np.power(2, lift_arr(ins[0]).view(np.ndarray))
            elif name in ("logaddexp", "logaddexp2"):
                a, b = lift_arr(ins[0]).view(np.ndarray), lift_arr(ins[1]).view(np.ndarray)
                r = np.log(np.exp(a) + np.exp(b)) if name == "logaddexp" else np.log2(np.power(2, a) + np.power(2, b))
            elif name in ("heaviside", "copysign", "signbit"):
                r = _SIGNED[name](*[lift_arr(x).view(np.ndarray) for x in ins])
                if name == "signbit":
                    r = np.asarray(r, dtype=bool)
            elif name == "hypot":
                a, b = lift_arr(ins[0]), lift_arr(ins[1])
                r = np.sqrt((a * a + b * b).view(np.ndarray))
            elif name == "arctan2":
                r = _atan2(ins[0], ins[1])
            elif name in ("fmax", "fmin"):
                r = getattr(np, {"fmax": "maximum", "fmin": "minimum"}[name])(
                    *[lift_arr(x).view(np.ndarray) for x in ins])
            elif name == "float_power":
                r = np.power(*[lift_arr(x).view(np.ndarray) for x in ins])
            elif name in ("logical_and", "logical_or", "logical_not", "logical_xor"):
                r = ufunc(*[np.asarray(x, dtype=bool) for x in ins])
            elif name in _TRANS:
                where = kw.pop("where", True)
                r = ufunc(*[lift_arr(x).view(np.ndarray) for x in ins], **kw)
                if where is not True:
                    w = np.broadcast_to(np.asarray(where, dtype=bool), np.shape(r))
                    if out is not None:
                        o = base(out[0])
                        o[w] = np.asarray(r)[w]
                        return wrap(o)
            else:
                r = ufunc(*ins, **kw)
            if isinstance(r, np.ndarray) and name in _CMP | {"logical_and", "logical_or", "logical_not"}:
                r = r.astype(bool)
        else:
            if method == "at":
                ufunc.at(*ins, **kw)
                return None
            r = getattr(ufunc, method)(*ins, **kw)
        if out is not None:
            o = base(out[0])
            if o.dtype == object:
                if isinstance(out[0], RealArray):
                    raise TypeError("Cannot cast ufunc output from complex128 to float64")
                o[...] = r
                return wrap(out[0])
            raise Unsupported("symbolic value stored into a float array")
        return wrap(r)

    def __array_function__(self, func, types_, args, kwargs):
        ov = FUNCS.get(func)
        if ov is not None:
            return ov(*args, **kwargs)
        a2 = _strip(args)
        k2 = {k: _strip(v) for k, v in kwargs.items()}
        return wrap(func(*a2, **k2))

    def astype(self, dtype, *a, **k):
        dt = np.dtype(dtype)
        if dt.kind in "fcO":
            return self.copy()
        if dt.kind == "b":
            return np.array([bool(v) for v in self.reshape(-1).tolist()]).reshape(self.shape)
        return np.array([int(v) for v in self.reshape(-1).tolist()]).reshape(self.shape)

    def __getitem__(self, i):
        return super().__getitem__(_fix_index(i))

    def __setitem__(self, i, v):
        if type(v) is not Sym and self.dtype == object:
            v = lift_arr(v)
            if v.ndim and v.size == 1 and _element(i, self.ndim):
                v = v.reshape(())  # one element takes an array of one value
            v = v.view(np.ndarray) if v.ndim else v.item()
        super().__setitem__(_fix_index(i), v)

    def __float__(self):
        if self.size == 1:
            return float(self.reshape(-1).view(np.ndarray)[0])
        raise TypeError

    @property
    def real(self):
        return real_(self)

    @property
    def imag(self):
        return imag_(self)


class RealArray(SymArray):
    """a float-typed array during a complex-step run: assignment drops the imaginary part"""

    def __setitem__(self, i, v):
        v = lift_arr(v)
        flat = v.reshape(-1)
        for k in range(flat.size):
            flat[k] = X.stopgrad(flat[k])
        np.ndarray.__setitem__(self, _fix_index(i), v.view(np.ndarray) if v.ndim else v.item())

    def astype(self, dtype, *a, **k):
        r = super().astype(dtype, *a, **k)
        if isinstance(r, RealArray) and dtype is not SymFloat and np.dtype(dtype).kind in "cO":
            return r.view(SymArray)
        return r


def real_(a):
    a = lift_arr(a)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = X.real_part(a[i])
    return out.view(SymArray)


def imag_(a):
    a = lift_arr(a)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = X.imag_part(a[i])
    return out.view(SymArray)


def _maybe_real(r, dtype):
    """float arrays created inside a complex-step evaluation cannot hold derivatives"""
    if X.CTX is not None and X.CTX.cs_mode and (dtype is None or dtype is SymFloat or np.dtype(dtype).kind == "f"):
        return r.view(RealArray)
    return r


def _fix_index(i):
    if isinstance(i, SymArray):
        v = i.reshape(-1).tolist()
        if all(isinstance(x, (bool, np.bool_)) for x in v):
            return np.array(v, dtype=bool).reshape(i.shape)
        return np.array([int(x) for x in v]).reshape(i.shape)
    if isinstance(i, tuple):
        return tuple(_fix_index(k) for k in i)
    return i


def _strip(a):
    if isinstance(a, SymArray):
        return a.view(np.ndarray)
    if isinstance(a, tuple):
        return tuple(_strip(x) for x in a)
    if isinstance(a, list):
        return [_strip(x) for x in a]
    return a


def _atan2(y, x):
    y, x = np.broadcast_arrays(lift_arr(y), lift_arr(x))
    out = np.empty(y.shape, dtype=object)
    for idx in np.ndindex(*y.shape):
        b, a = y[idx], x[idx]
        if a > 0:
            out[idx] = (b / a).arctan()
        elif a < 0:
            if b >= 0:
                out[idx] = (b / a).arctan() + X.lift(math.pi)
            else:
                out[idx] = (b / a).arctan() - X.lift(math.pi)
        else:
            raise Unsupported("arctan2 on the axis")
    return out


# ------------------------------------------------------------------ constructors
def _isreal_dtype(dt):
    if dt is None or dt is SymFloat:
        return True
    try:
        return np.dtype(dt).kind in "fcO"
    except TypeError:
        return True


def _fill(shape, v):
    out = np.empty(shape, dtype=object)
    out[...] = X.lift(v)
    if out.ndim == 0:
        out = out.reshape(())
    return out.view(SymArray)


def zeros(shape, dtype=None, order="C", **k):
    if not _isreal_dtype(dtype):
        return np.zeros(shape, dtype)
    return _maybe_real(_fill(shape, 0), dtype)


def ones(shape, dtype=None, order="C", **k):
    if not _isreal_dtype(dtype):
        return np.ones(shape, dtype)
    return _maybe_real(_fill(shape, 1), dtype)


def empty(shape, dtype=None, order="C", **k):
    if not _isreal_dtype(dtype):
        return np.empty(shape, dtype)
    out = np.empty(shape, dtype=object)
    global _nempty
    flat = out.reshape(-1)
    for i in range(flat.size):
        _nempty += 1
        flat[i] = X.var("uninitialised!%d" % _nempty)
    return _maybe_real(out.view(SymArray), dtype)


_nempty = 0


def full(shape, fill_value, dtype=None, order="C", **k):
    if not _isreal_dtype(dtype):
        return np.full(shape, fill_value, dtype)
    out = np.empty(shape, dtype=object)
    out[...] = base(lift_arr(fill_value)) if np.ndim(fill_value) else X.lift(
        fill_value if not isinstance(fill_value, np.ndarray) else fill_value.item())
    return out.view(SymArray)


def eye(N, M=None, k=0, dtype=None, **kw):
    return lift_arr(np.eye(N, M, k))


def zeros_like(a, dtype=None, **k):
    a = np.asarray(a)
    if a.dtype.kind in "fcO" and _isreal_dtype(dtype) or dtype is not None and _isreal_dtype(dtype):
        return zeros(a.shape, object if dtype is None else dtype)
    return np.zeros_like(a, dtype=dtype)


def ones_like(a, dtype=None, **k):
    a = np.asarray(a)
    if a.dtype.kind in "fcO" and _isreal_dtype(dtype) or dtype is not None and _isreal_dtype(dtype):
        return ones(a.shape, object if dtype is None else dtype)
    return np.ones_like(a, dtype=dtype)


def empty_like(a, dtype=None, **k):
    a = np.asarray(a)
    if a.dtype.kind in "fcO" and _isreal_dtype(dtype):
        return empty(a.shape, object if dtype is None else dtype)
    return np.empty_like(a, dtype=dtype)


def full_like(a, fill_value, dtype=None, **k):
    return full(np.shape(a), fill_value, dtype)


def array(obj, dtype=None, *a, **k):
    if dtype is not None and not _isreal_dtype(dtype):
        if isinstance(obj, SymArray):
            return obj.astype(dtype)
        return np.array(obj, dtype)
    r = np.array(_strip(obj))
    if r.dtype.kind in "fcO":
        try:
            return lift_arr(r)
        except TypeError:
            return r
    if dtype is not None and r.dtype.kind in "iub":
        return lift_arr(r)
    return r


def asarray(obj, dtype=None, *a, **k):
    if isinstance(obj, SymArray) and (dtype is None or _isreal_dtype(dtype)):
        return obj
    return array(obj, dtype)


def linspace(start, stop, num=50, endpoint=True, **k):
    s, e = lift_arr(start), lift_arr(stop)
    n = int(num)
    div = (n - 1) if endpoint else n
    rows = []
    for i in range(n):
        if i == 0:
            rows.append(s + 0 * e)
        elif endpoint and i == n - 1:
            rows.append(e + 0 * s)
        else:
            rows.append(s + (e - s) * X.const(Fraction(i, div)))
    shp = np.broadcast(s, e).shape
    out = np.empty((n,) + shp, dtype=object)
    for i, r in enumerate(rows):
        out[i] = base(np.broadcast_to(r, shp)) if shp else (r if type(r) is Sym else r.item())
    return out.view(SymArray)


def where(c, *a):
    c = np.asarray(c, dtype=bool) if not isinstance(c, np.ndarray) or c.dtype == object else c
    if not a:
        return np.where(c)
    return wrap(np.where(c, *_strip(a)))


def _round1(e):
    """nearest integer of one value: constants half-even like numpy, bounded variables by case split"""
    e = X.lift(e)
    if e.op == "c":
        return X.const(round(e.args))
    if e.op == "v":
        i = X.VARS[e.args]
        if i.lo is not None and i.hi is not None and i.hi - i.lo < 40:
            for k in range(round(i.lo), round(i.hi)):
                if X.decide("<", e - X.const(Fraction(2 * k + 1, 2))):
                    return X.const(k)
            return X.const(round(i.hi))
    raise Unsupported("rounding of a symbolic value")


def around(a, decimals=0, out=None):
    if decimals:
        raise Unsupported("rounding to decimals")
    a = lift_arr(a)
    r = np.empty(a.shape, dtype=object)
    f = r.reshape(-1)
    for i, e in enumerate(a.reshape(-1).tolist() if a.ndim else [a.item()]):
        f[i] = _round1(e)
    return r.view(SymArray) if a.ndim else r.item()


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = np.broadcast_arrays(lift_arr(a).view(np.ndarray), lift_arr(b).view(np.ndarray))
    r = np.empty(a.shape, dtype=bool)
    for i in np.ndindex(*a.shape):
        r[i] = bool(X.lift(0) + absolute(a[i] - b[i]) <= X.lift(atol) + X.lift(rtol) * absolute(b[i]))
    return r if r.ndim else bool(r)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = np.broadcast_arrays(lift_arr(a).view(np.ndarray), lift_arr(b).view(np.ndarray))
    return all(isclose(a[i], b[i], rtol, atol) for i in np.ndindex(*a.shape))


def absolute(v):
    return X.lift(v).absolute()


def _heaviside(v, h):
    v = X.lift(v)
    return X.lift(0) if v < 0 else X.lift(h) if v == 0 else X.lift(1)


def _copysign(a, b):
    return -absolute(a) if X.lift(b) < 0 else absolute(a)


_SIGNED = {"heaviside": np.frompyfunc(_heaviside, 2, 1), "copysign": np.frompyfunc(_copysign, 2, 1), "signbit": np.frompyfunc(lambda v: bool(X.lift(v) < 0), 1, 1)}


def gradient_(f, *d, axis=None, edge_order=1):
    f = lift_arr(f)
    if f.ndim != 1 or len(d) > 1 or edge_order != 1 and f.size < 3:
        raise Unsupported("gradient")
    n = f.size
    if not d:
        h = [X.lift(1)] * (n - 1)
    elif np.ndim(d[0]) == 0:
        h = [X.lift(d[0])] * (n - 1)
    else:
        x = lift_arr(d[0])
        h = [x[i + 1] - x[i] for i in range(n - 1)]
    r = np.empty(n, dtype=object)
    for i in range(1, n - 1):
        a, b = h[i - 1], h[i]
        r[i] = (a * a * f[i + 1] + (b * b - a * a) * f[i] - b * b * f[i - 1]) / (a * b * (a + b))
    if edge_order == 1:
        r[0], r[-1] = (f[1] - f[0]) / h[0], (f[-1] - f[-2]) / h[-1]
    else:
        a, b = h[0], h[1]
        r[0] = -(2 * a + b) / (a * (a + b)) * f[0] + (a + b) / (a * b) * f[1] - a / (b * (a + b)) * f[2]
        a, b = h[-2], h[-1]
        r[-1] = b / (a * (a + b)) * f[-3] - (a + b) / (a * b) * f[-2] + (2 * b + a) / (b * (a + b)) * f[-1]
    return r.view(SymArray)


def det_(A):
    A = lift_arr(A)
    n = A.shape[0]
    if A.shape != (n, n):
        raise Unsupported("determinant of a stack")
    if n == 1:
        return A[0, 0]
    t = X.lift(0)
    for j in range(n):
        m = np.delete(np.delete(A.view(np.ndarray), 0, 0), j, 1)
        t = t + (-1) ** j * A[0, j] * det_(m)
    return t


def bincount_(x, weights=None, minlength=0):
    if weights is None:
        raise Unsupported("bincount of symbolic values")
    idx = [int(v) for v in np.asarray(x).reshape(-1)]
    r = _fill((max([minlength] + [i + 1 for i in idx]),), 0)
    for i, w in zip(idx, lift_arr(weights).reshape(-1).tolist()):
        r[i] = r[i] + w
    return r


def fromiter_(it, dtype=float, count=-1, **k):
    v = list(it)
    return array(v if count < 0 else v[:count], dtype)


def interp(x, xp, fp, *args, **k):
    xs = lift_arr(np.atleast_1d(np.asarray(x, dtype=object)))
    xp = lift_arr(xp)
    fp = lift_arr(fp)
    out = []
    n = xp.size
    for v in xs.reshape(-1).tolist():
        if v <= xp[0]:
            out.append(fp[0])
            continue
        if v >= xp[n - 1]:
            out.append(fp[n - 1])
            continue
        for i in range(1, n):
            if i == n - 1 or v < xp[i]:
                out.append(fp[i - 1] + (fp[i] - fp[i - 1]) / (xp[i] - xp[i - 1]) * (v - xp[i - 1]))
                break
    r = np.empty(len(out), dtype=object)
    r[:] = out
    if np.ndim(x) == 0:
        return out[0]
    return r.reshape(np.shape(x)).view(SymArray)


def solve_(A, b):
    A = lift_arr(A)
    b = lift_arr(b)
    n = A.shape[0]
    vec = b.ndim == 1
    M = [[A[i, j] for j in range(n)] + ([b[i]] if vec else [b[i, j] for j in range(b.shape[1])]) for i in range(n)]
    w = len(M[0])
    for c in range(n):
        p = None
        for r in range(c, n):
            if not (M[r][c].op == "c" and M[r][c].args == 0):
                p = r
                break
        if p is None:
            raise np.linalg.LinAlgError("Singular matrix")
        M[c], M[p] = M[p], M[c]
        inv = 1 / M[c][c]
        M[c] = [inv * v for v in M[c]]
        for r in range(n):
            if r != c and not (M[r][c].op == "c" and M[r][c].args == 0):
                f = M[r][c]
                M[r] = [M[r][k] - f * M[c][k] for k in range(w)]
    out = np.empty(b.shape, dtype=object)
    for i in range(n):
        if vec:
            out[i] = M[i][n]
        else:
            for j in range(b.shape[1]):
                out[i, j] = M[i][n + j]
    return out.view(SymArray)


def inv_(A):
    A = np.asarray(A)
    return solve_(A, np.eye(A.shape[0]))


def norm_(x, ord=None, axis=None, keepdims=False):
    if ord in (1, np.inf, -np.inf) and (np.ndim(x) == 1 or isinstance(axis, int)):
        a = np.abs(lift_arr(x))
        return {1: np.sum, np.inf: np.max, -np.inf: np.min}[ord](a, axis=axis, keepdims=keepdims)
    if ord not in (None, 2, "fro"):
        raise Unsupported("norm order")
    if ord == 2 and np.ndim(x) > 1 and axis is None:
        raise Unsupported("matrix 2-norm")
    r = np.sum(lift_arr(x) ** 2, axis=axis, keepdims=keepdims)
    return np.sqrt(r) if isinstance(r, np.ndarray) else r.sqrt()


def trapz_(y, x=None, dx=1.0, axis=-1):
    y = lift_arr(y)
    if x is None:
        d = dx
    else:
        x = lift_arr(x)
        d = np.diff(x, axis=axis) if x.ndim == y.ndim else np.diff(x)
    sl1 = [slice(None)] * y.ndim
    sl2 = [slice(None)] * y.ndim
    sl1[axis] = slice(1, None)
    sl2[axis] = slice(None, -1)
    return (d * (y[tuple(sl1)] + y[tuple(sl2)]) / 2).sum(axis)


def diff_(a, n=1, axis=-1, **k):
    a = lift_arr(a)
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s2 = [slice(None)] * a.ndim
        s1[axis] = slice(1, None)
        s2[axis] = slice(None, -1)
        a = a[tuple(s1)] - a[tuple(s2)]
    return a


def clip_(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.pop("min", a_min)
    a_max = k.pop("max", a_max)
    r = lift_arr(a)
    if a_min is not None:
        r = np.maximum(r, a_min)
    if a_max is not None:
        r = np.minimum(r, a_max)
    return r


def iscomplexobj_(x):
    return X.CTX is not None and X.CTX.cs_mode


FUNCS = {
    np.zeros_like: zeros_like, np.ones_like: ones_like, np.empty_like: empty_like, np.full_like: full_like,
    np.linspace: linspace, np.where: where, np.around: around, np.round: around, np.interp: interp, np.isclose: isclose,
    np.allclose: allclose, np.gradient: gradient_, np.linalg.det: det_, np.bincount: bincount_, np.linalg.solve: solve_, np.linalg.inv: inv_, np.linalg.norm: norm_, np.diff: diff_,
    np.clip: clip_, np.iscomplexobj: iscomplexobj_, np.real: real_, np.imag: imag_,
    np.isreal: lambda x: np.ones(np.shape(x), bool), np.nan_to_num: lambda x, **k: x,
}
for _n in ("trapz", "trapezoid"):
    if hasattr(np, _n):
        FUNCS[getattr(np, _n)] = trapz_

CREATE = {
    "zeros": zeros, "ones": ones, "empty": empty, "full": full, "eye": eye, "identity": eye, "array": array,
    "asarray": asarray, "zeros_like": zeros_like, "ones_like": ones_like, "empty_like": empty_like,
    "full_like": full_like, "linspace": linspace, "where": where, "interp": interp, "fromiter": fromiter_,
}


def _scalar_ok(f):
    """let a ufunc-like numpy function accept bare Sym scalars"""

    def g(*a, **k):
        if any(type(x) is Sym for x in a):
            r = f(*[_fill((), x) if type(x) is Sym else x for x in a], **k)
            if isinstance(r, np.ndarray) and r.ndim == 0 and r.dtype == object:
                return r.item()
            return r
        return f(*a, **k)

    g.__name__ = getattr(f, "__name__", "f")
    return g


class _LinalgProxy:
    def __getattr__(self, n):
        if n == "solve":
            return solve_
        if n == "inv":
            return inv_
        if n == "norm":
            return norm_
        if n == "det":
            return det_
        return getattr(np.linalg, n)


class NumpyProxy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self._cache = {}

    linalg = _LinalgProxy()

    def __getattr__(self, n):
        c = self.__dict__["_cache"]
        if n in c:
            return c[n]
        if n in CREATE:
            v = CREATE[n]
        else:
            v = getattr(np, n)
            if isinstance(v, np.ufunc) or (v in FUNCS if callable(v) and getattr(v, "__hash__", None) else False):
                if not isinstance(v, np.ufunc):
                    ov = FUNCS[v]
                    real = v

                    def pick(*a, _ov=ov, _real=real, **k):
                        if any(_has_sym(x) for x in a) or any(_has_sym(x) for x in k.values()):
                            return _ov(*a, **k)
                        return _real(*a, **k)

                    v = pick
                else:
                    if v.__name__ in _TRANS | {"isnan", "isinf", "isfinite", "arctan2"} or v.__name__ in _CMP:
                        v = _UfuncProxy(v)
        c[n] = v
        return v


def _has_sym(x):
    if type(x) is Sym or isinstance(x, SymArray):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sym(y) for y in x)
    return False


class _UfuncProxy:
    def __init__(self, u):
        self.u = u
        self.call = _scalar_ok(u)

    def __call__(self, *a, **k):
        out = k.get("out")
        if out is not None and isinstance(out, np.ndarray):
            k["out"] = (out,)
        return self.call(*a, **k)

    def __getattr__(self, n):
        return getattr(self.u, n)


class MathProxy(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    def __getattr__(self, n):
        f = getattr(math, n)
        if not callable(f):
            return f
        alias = {"atan": "arctan", "asin": "arcsin", "acos": "arccos", "fabs": "absolute"}

        def g(*a, **k):
            if n in ("fsum", "prod", "dist", "sumprod") and any(_has_sym(list(x) if not isinstance(x, Sym) else x) for x in a):
                v = [[X.lift(q) for q in x] for x in a]
                if n == "fsum":
                    return sum(v[0], X.lift(0))
                if n == "prod":
                    r = X.lift(k.get("start", 1))
                    for q in v[0]:
                        r = r * q
                    return r
                if n == "dist":
                    return sum(((p - q) ** 2 for p, q in zip(*v)), X.lift(0)).sqrt()
                return sum((p * q for p, q in zip(*v)), X.lift(0))
            a = [x.item() if isinstance(x, SymArray) and x.size == 1 else x for x in a]
            if any(type(x) is Sym for x in a):
                if n == "pow":
                    return X.lift(a[0]) ** a[1]
                if n == "log" and len(a) == 2:
                    return X.lift(a[0]).log() / X.lift(a[1]).log()
                if n == "hypot":
                    return (X.lift(a[0]) ** 2 + X.lift(a[1]) ** 2).sqrt()
                if n in ("isnan", "isinf"):
                    return False
                if n == "isfinite":
                    return True
                if n == "atan2":
                    return _atan2(a[0], a[1]).item()
                if n == "isclose":
                    p, q = X.lift(a[0]), X.lift(a[1])
                    d, m = absolute(p - q), X.lift(k.get("rel_tol", 1e-9))
                    return bool(d <= m * absolute(p)) or bool(d <= m * absolute(q)) or bool(d <= X.lift(k.get("abs_tol", 0.0)))
                if n == "copysign":
                    return _copysign(a[0], a[1])
                if n == "exp2":
                    return X.lift(2) ** a[0]
                if n == "log1p":
                    return (a[0] + 1).log()
                if n == "expm1":
                    return a[0].exp() - 1
                if n in ("floor", "ceil", "trunc"):
                    if a[0].op == "c":
                        return f(float(a[0]))
                    raise Unsupported("math." + n)
                if n == "radians":
                    return a[0].deg2rad()
                if n == "degrees":
                    return a[0].rad2deg()
                m = getattr(a[0], alias.get(n, n), None)
                if m is None:
                    raise Unsupported("math." + n)
                return m()
            return f(*a, **k)

        return g


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or type(x) is Sym

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class SymFloat(float, metaclass=_FloatMeta):
    """the builtin float, for modules under test: of a symbolic number it is that number"""

    def __new__(cls, x=0.0):
        if isinstance(x, np.ndarray) and x.dtype == object:
            if x.size != 1:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            x = x.reshape(-1).view(np.ndarray)[0]
        if type(x) is Sym:
            return x
        return float(x)


def _uses_float(d, name):
    """does any code of this module name the builtin float?"""
    if name not in _FLOATS:
        try:
            with open(d["__file__"]) as f:
                _FLOATS[name] = "float" in f.read()
        except (KeyError, OSError, TypeError):
            _FLOATS[name] = False
    return _FLOATS[name] and "float" not in d


_FLOATS = {}
_ABSENT = object()


def _undo(saved):
    for d, k, v in saved:
        if v is _ABSENT:
            d.pop(k, None)
        else:
            d[k] = v


NP = NumpyProxy()
MATH = MathProxy()
EXTRA = []  # (predicate module object, replacement) registered by other files (scipy.sparse)


_ACTIVE = []


def _swap(prefixes, extra_modules, saved):
    fnmap = {}
    for n, f in CREATE.items():
        fnmap[id(getattr(np, n))] = f
    for f, ov in FUNCS.items():
        fnmap.setdefault(id(f), getattr(NP, f.__name__, ov))
    for n in dir(math):
        if callable(getattr(math, n)) and not n.startswith("_"):
            fnmap[id(getattr(math, n))] = getattr(MATH, n)
    for n in list(_TRANS) + list(_CMP) + ["isnan"]:
        fnmap[id(getattr(np, n))] = getattr(NP, n)
    reps = {id(np): NP, id(math): MATH, id(np.linalg): NP.linalg}
    for a, b in EXTRA:
        reps[id(a)] = b
    for mn, mod in list(sys.modules.items()):
        if mod is None or not (mn.split(".")[0] in prefixes or mn in extra_modules):
            continue
        d = getattr(mod, "__dict__", None)
        if d is None:
            continue
        for k, v in list(d.items()):
            r = reps.get(id(v))
            if r is None and callable(v) and not isinstance(v, type):
                r = fnmap.get(id(v))
            if r is not None and not k.startswith("__"):
                saved.append((d, k, v))
                d[k] = r
        if _uses_float(d, mn):
            saved.append((d, "float", _ABSENT))
            d["float"] = SymFloat


@contextlib.contextmanager
def patched(prefixes=("openconcept",), extra_modules=()):
    """swap numpy & friends in the globals of every loaded module of the package under test"""
    rec = (prefixes, extra_modules, [])
    _swap(*rec)
    _ACTIVE.append(rec)
    try:
        yield
    finally:
        _ACTIVE.pop()
        _undo(rec[2])


@contextlib.contextmanager
def unpatched():
    """the real numpy back in place (models are built and set up for real); modules imported inside are swapped afterwards"""
    recs = list(_ACTIVE)
    for rec in reversed(recs):
        _undo(rec[2])
        rec[2].clear()
    try:
        yield
    finally:
        for rec in recs:
            _swap(*rec)
