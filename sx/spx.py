"""scipy.sparse stand-in: exact symbolic sparse matrices with scipy's ordering of .data."""
import types
import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as spl

from . import expr as X, npx
from .expr import Sym, Unsupported


def _ints(a):
    return [int(v) for v in np.asarray(a).reshape(-1).tolist()]


def _flat(a):
    a = npx.lift_arr(a)
    return a.reshape(-1).tolist() if a.ndim else [a.item()]


class SpMat:
    """entries: {(i, j): Sym}; explicit zeros are kept as scipy keeps them"""

    __array_priority__ = 1000.0
    __array_ufunc__ = None

    def __init__(self, entries, shape, format="csr"):
        self.e = entries
        self.shape = (int(shape[0]), int(shape[1]))
        self.format = format

    # -- views
    def _order(self):
        if self.format in ("csc",):
            return sorted(self.e, key=lambda t: (t[1], t[0]))
        return sorted(self.e)

    @property
    def data(self):
        ks = self._order()
        out = np.empty(len(ks), dtype=object)
        for n, k in enumerate(ks):
            out[n] = self.e[k]
        return out.view(npx.SymArray)

    @property
    def nnz(self):
        return len(self.e)

    @property
    def T(self):
        return self.transpose()

    @property
    def indices(self):
        ks = self._order()
        return np.array([k[1] if self.format != "csc" else k[0] for k in ks], dtype=int)

    def nonzero(self):
        ks = [k for k in sorted(self.e) if not (self.e[k].op == "c" and self.e[k].args == 0)]
        return np.array([k[0] for k in ks], dtype=int), np.array([k[1] for k in ks], dtype=int)

    def toarray(self, *a, **k):
        out = np.empty(self.shape, dtype=object)
        out[...] = X.const(0)
        for (i, j), v in self.e.items():
            out[i, j] = v
        return out.view(npx.SymArray)

    todense = toarray

    def asformat(self, f, copy=False):
        return SpMat(dict(self.e), self.shape, f or self.format)

    def tocsr(self, copy=False):
        return self.asformat("csr")

    def tocsc(self, copy=False):
        return self.asformat("csc")

    def tocoo(self, copy=False):
        return self.asformat("coo")

    def copy(self):
        return self.asformat(self.format)

    def transpose(self, *a, **k):
        f = {"csr": "csc", "csc": "csr"}.get(self.format, self.format)
        return SpMat({(j, i): v for (i, j), v in self.e.items()}, self.shape[::-1], f)

    def getrow(self, i):
        if i < 0:
            i += self.shape[0]
        return SpMat({(0, c): v for (r, c), v in self.e.items() if r == i}, (1, self.shape[1]), "csr")

    def getcol(self, j):
        if j < 0:
            j += self.shape[1]
        return SpMat({(r, 0): v for (r, c), v in self.e.items() if c == j}, (self.shape[0], 1), self.format)

    def diagonal(self):
        return np.diagonal(self.toarray())

    def __getitem__(self, idx):
        d = self.toarray()[idx]
        if isinstance(d, np.ndarray):
            if not isinstance(idx, tuple):
                idx = (idx, slice(None))
            if isinstance(idx[1], (int, np.integer)):
                d = d.reshape(-1, 1)
            elif isinstance(idx[0], (int, np.integer)):
                d = d.reshape(1, -1)
            return from_dense(d, self.format)
        return d

    # -- arithmetic
    def _map(self, f):
        return SpMat({k: f(v) for k, v in self.e.items()}, self.shape, self.format)

    def __mul__(self, o):
        if isinstance(o, (SpMat, np.ndarray)) or sp.issparse(o):
            if isinstance(o, np.ndarray) and o.size == 1 and o.ndim <= 1 and self.shape[1] != 1:
                o = npx.lift_arr(o).reshape(-1).tolist()[0]
            else:
                return self.dot(o)
        o = X.lift(o)
        return self._map(lambda v: v * o)

    def __rmul__(self, o):
        if isinstance(o, np.ndarray) and o.size > 1:
            raise Unsupported("dense times sparse")
        return self.__mul__(o)

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            if o.size != 1:
                raise Unsupported("sparse divided by array")
            o = npx.lift_arr(o).reshape(-1).tolist()[0]
        o = X.lift(o)
        return self._map(lambda v: v / o)

    def __neg__(self):
        return self._map(lambda v: -v)

    def __add__(self, o):
        o = spmat(o)
        if isinstance(o, np.ndarray):
            return self.toarray() + o
        e = dict(self.e)
        for k, v in o.e.items():
            e[k] = e[k] + v if k in e else v
        return SpMat(e, self.shape, self.format)

    __radd__ = __add__

    def __sub__(self, o):
        o = spmat(o)
        return self + (-o)

    def power(self, n):
        return self._map(lambda v: v ** n)

    def multiply(self, o):
        if isinstance(o, np.ndarray) and o.size > 1 or isinstance(o, SpMat):
            d = o.toarray() if isinstance(o, SpMat) else np.broadcast_to(npx.lift_arr(o), self.shape)
            return SpMat({k: v * d[k] for k, v in self.e.items()}, self.shape, self.format)
        return self * o

    def dot(self, o):
        o = spmat(o)
        if isinstance(o, SpMat):
            by = {}
            for (r, c), v in o.e.items():
                by.setdefault(r, []).append((c, v))
            e = {}
            for (i, k), v in self.e.items():
                for c, w in by.get(k, ()):
                    t = v * w
                    e[(i, c)] = e[(i, c)] + t if (i, c) in e else t
            return SpMat(e, (self.shape[0], o.shape[1]), self.format)
        o = npx.lift_arr(o)
        if o.ndim == 0:
            return self * o.item()
        if o.shape[0] != self.shape[1]:
            raise ValueError("dimension mismatch")
        d = o.reshape(o.shape[0], -1)
        out = np.empty((self.shape[0], d.shape[1]), dtype=object)
        out[...] = X.const(0)
        for (i, k) in sorted(self.e):
            v = self.e[(i, k)]
            for c in range(d.shape[1]):
                out[i, c] = out[i, c] + v * d[k, c]
        out = out.view(npx.SymArray)
        return out.reshape(self.shape[0]) if o.ndim == 1 else out.reshape((self.shape[0],) + o.shape[1:])

    __matmul__ = dot

    def sum(self, axis=None):
        return self.toarray().sum(axis)


def from_dense(d, format="csr"):
    d = npx.lift_arr(np.atleast_2d(d))
    e = {}
    for i in range(d.shape[0]):
        for j in range(d.shape[1]):
            v = d[i, j]
            if not (v.op == "c" and v.args == 0):
                e[(i, j)] = v
    return SpMat(e, d.shape, format)


def spmat(m):
    """scipy matrix -> SpMat; everything else unchanged"""
    if sp.issparse(m):
        c = m.tocoo()
        e = {}
        for i, j, v in zip(c.row.tolist(), c.col.tolist(), c.data.tolist()):
            v = X.lift(v)
            k = (int(i), int(j))
            e[k] = e[k] + v if k in e else v
        return SpMat(e, m.shape, m.format)
    return m


def _build(format, arg, shape=None, dtype=None, copy=False):
    if isinstance(arg, SpMat):
        return arg.asformat(format)
    if sp.issparse(arg):
        return spmat(arg).asformat(format)
    if isinstance(arg, tuple):
        if len(arg) == 2 and isinstance(arg[1], (tuple, list)):
            data = _flat(arg[0])
            r, c = _ints(arg[1][0]), _ints(arg[1][1])
            if not (len(data) == len(r) == len(c)):
                raise ValueError("row, column, and data array must all be the same length")
            if shape is None:
                if not r:
                    raise ValueError("cannot infer dimensions from zero sized index arrays")
                shape = (max(r) + 1, max(c) + 1)
            if r and (max(r) >= shape[0] or max(c) >= shape[1]):
                raise ValueError("index exceeds matrix dimension")
            e = {}
            for v, i, j in zip(data, r, c):
                e[(i, j)] = e[(i, j)] + v if (i, j) in e else v
            return SpMat(e, shape, format)
        if len(arg) == 2:
            return SpMat({}, arg, format)
        raise Unsupported("sparse constructor")
    return from_dense(arg, format)


def _fmt(f):
    def ctor(arg, shape=None, dtype=None, copy=False):
        return _build(f, arg, shape, dtype, copy)

    return ctor


def bmat(blocks, format=None, dtype=None):
    blocks = [[spmat(b) for b in row] for row in blocks]
    nr, nc = len(blocks), len(blocks[0])
    hs, ws = [None] * nr, [None] * nc
    for i in range(nr):
        for j in range(nc):
            b = blocks[i][j]
            if b is None:
                continue
            if not isinstance(b, SpMat):
                b = blocks[i][j] = from_dense(b)
            for lst, k, s in ((hs, i, b.shape[0]), (ws, j, b.shape[1])):
                if lst[k] is None:
                    lst[k] = s
                elif lst[k] != s:
                    raise ValueError("incompatible block dimensions")
    if None in hs or None in ws:
        raise ValueError("a block row or column is all None")
    ro, co = np.concatenate([[0], np.cumsum(hs)]), np.concatenate([[0], np.cumsum(ws)])
    e = {}
    for i in range(nr):
        for j in range(nc):
            if blocks[i][j] is None:
                continue
            for (a, b), v in blocks[i][j].e.items():
                e[(int(ro[i]) + a, int(co[j]) + b)] = v
    return SpMat(e, (ro[-1], co[-1]), format or "coo")


def block_diag(mats, format=None, dtype=None):
    n = len(mats)
    mats = [spmat(m) if sp.issparse(m) or isinstance(m, SpMat) else from_dense(m) for m in mats]
    r = c = 0
    e = {}
    for m in mats:
        for (i, j), v in m.e.items():
            e[(r + i, c + j)] = v
        r += m.shape[0]
        c += m.shape[1]
    return SpMat(e, (r, c), format or "coo")


def diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if np.ndim(offsets) == 0:
        diagonals, offsets = [diagonals], [offsets]
    ds = [_flat(np.atleast_1d(np.asarray(d, dtype=object))) for d in diagonals]
    if shape is None:
        n = max(len(d) + abs(int(o)) for d, o in zip(ds, offsets))
        shape = (n, n)
    e = {}
    for d, o in zip(ds, offsets):
        o = int(o)
        ln = min(shape[0] + min(o, 0), shape[1] - max(o, 0))
        for k in range(ln):
            v = d[0] if len(d) == 1 else d[k]
            e[(k - min(o, 0), k + max(o, 0))] = v
    return SpMat(e, shape, format or "dia")


def kron(A, B, format=None):
    A, B = from_dense_any(A), from_dense_any(B)
    e = {}
    for (i, j), v in A.e.items():
        for (k, l), w in B.e.items():
            e[(i * B.shape[0] + k, j * B.shape[1] + l)] = v * w
    return SpMat(e, (A.shape[0] * B.shape[0], A.shape[1] * B.shape[1]), format or "bsr")


def from_dense_any(A):
    return spmat(A) if sp.issparse(A) or isinstance(A, SpMat) else from_dense(A)


def _tri(keep):
    def f(A, k=0, format=None):
        A = from_dense_any(A)
        return SpMat({(i, j): v for (i, j), v in A.e.items() if keep(j - i, k)}, A.shape, format or "coo")

    return f


def inv(A):
    A = spmat(A)
    return from_dense(npx.inv_(A.toarray()), A.format)


class _Linalg(types.ModuleType):
    def __getattr__(self, k):
        return getattr(spl, k)


class SparseProxy(types.ModuleType):
    def __getattr__(self, k):
        return getattr(sp, k)


LIN = _Linalg("scipy.sparse.linalg")
LIN.inv = inv
SP = SparseProxy("scipy.sparse")
SP.linalg = LIN
for _f in ("csr", "csc", "coo", "lil"):
    setattr(SP, _f + "_matrix", _fmt(_f))
    setattr(SP, _f + "_array", _fmt(_f))
SP.bmat = SP.block_array = bmat
SP.block_diag = block_diag
SP.kron = kron
SP.tril = _tri(lambda d, k: d <= k)
SP.triu = _tri(lambda d, k: d >= k)
SP.diags = SP.diags_array = diags
SP.vstack = lambda blocks, format=None, dtype=None: bmat([[b] for b in blocks], format)
SP.hstack = lambda blocks, format=None, dtype=None: bmat([list(blocks)], format)
SP.eye = SP.identity = lambda n, *a, **k: diags([1] * n)
SP.issparse = lambda m: isinstance(m, SpMat) or sp.issparse(m)
npx.EXTRA.append((sp, SP))
npx.EXTRA.append((spl, LIN))

# real scipy matrices stored on components (built outside the symbolic run) meet symbolic operands
_SCIPY = sorted({c for c in (sp.csr_matrix, sp.csc_matrix, sp.coo_matrix, sp.dia_matrix, sp.bsr_matrix, sp.lil_matrix)},
                key=lambda c: c.__name__)


def _symbolic(o):
    return isinstance(o, (Sym, SpMat)) or (isinstance(o, np.ndarray) and o.dtype == object)


def install():
    for c in _SCIPY:
        for name in ("__mul__", "__rmul__", "__truediv__", "dot", "__matmul__", "multiply", "__add__", "__sub__"):
            orig = getattr(c, name, None)
            if orig is None or getattr(orig, "_sx", False):
                continue

            def f(self, o, *a, _orig=orig, _name=name, **k):
                if _symbolic(o):
                    return getattr(spmat(self), _name)(o)
                return _orig(self, o, *a, **k)

            f._sx = True
            setattr(c, name, f)


install()
