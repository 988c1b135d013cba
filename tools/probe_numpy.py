"""self-test of the numpy stand-in: every expression below is evaluated on symbolic arrays (branches decided at a
concrete point) and on floats; prints those that differ or are unsupported"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import numpy
from sx import expr as X, npx, core  # noqa
import warnings
warnings.simplefilter("ignore")

EXPRS = """np.allclose(x, y)
np.isclose(x, y)
np.isclose(x, x)
np.allclose(x, x, rtol=1e-9)
np.array_equal(x, y)
np.array_equal(x, x)
np.ptp(x)
np.ptp(A, axis=0)
np.clip(x, 0.5, 1.5)
x.clip(0.5, 1.5)
x.clip(min=1.0)
np.clip(x, None, 1.0)
np.hypot(x, y)
np.square(x)
np.cbrt(x)
np.sign(x - 1)
np.heaviside(x - 1, 0.5)
np.nan_to_num(x)
np.count_nonzero(x > 1)
np.flatnonzero(x > 1)
np.nonzero(x > 1)[0]
np.argmax(x)
np.argmin(x)
x.argmax()
np.argwhere(x > 1)
np.argsort(x)
np.sort(x)
sorted(x)
np.any(x > 1)
np.all(x > 1)
(x > 1).any()
np.cumsum(x)
x.cumsum()
np.cumprod(x)
np.diff(x)
np.ediff1d(x)
np.gradient(x)
np.gradient(x, 0.5)
np.interp(1.0, np.sort(x), y)
np.polyval([1.0, 2.0, 3.0], x)
np.polyval(x, 2.0)
np.poly1d([1.0, 2.0, 3.0])(x)
np.trapz(x, y)
np.trapz(x)
np.outer(x, y)
np.inner(x, y)
np.dot(x, y)
np.vdot(x, y)
x.dot(y)
x @ y
A @ x
A.dot(x)
np.matmul(A, x)
np.tensordot(A, x, axes=1)
np.einsum('ij,j->i', A, x)
np.einsum('i,i', x, y)
np.kron(x, y)
np.linalg.norm(x)
np.linalg.norm(A, axis=1)
np.linalg.norm(x, 2)
np.linalg.norm(x, 1)
np.linalg.norm(x, np.inf)
np.linalg.solve(A, x)
np.linalg.inv(A)
np.linalg.det(A)
np.linalg.multi_dot([A, A, x])
np.roll(x, 1)
np.flip(x)
x[::-1]
np.tile(x, 2)
np.repeat(x, 2)
np.meshgrid(x, y)[0]
np.stack([x, y])
np.vstack([x, y])
np.hstack([x, y])
np.column_stack([x, y])
np.dstack([x, y])
np.concatenate([x, y])
np.append(x, y)
np.append(x, 1.0)
np.insert(x, 0, 2.0)
np.delete(x, 0)
np.r_[x, y]
np.r_[x, 1.0]
np.c_[x, y]
np.split(x, 3)[1]
np.array_split(x, 2)[0]
np.pad(x, 1)
np.pad(x, (1, 0), mode='edge')
np.take(x, [0, 2])
x.take([0, 2])
np.choose([0, 1, 0], [x, y])
np.select([x > 1, x > 0.5], [x, y], default=0.0)
np.select([x > 1], [x])
np.piecewise(x, [x < 1, x >= 1], [lambda v: v**2, lambda v: 2*v])
np.piecewise(x, [x < 1], [0.0, 1.0])
np.where(x > 1, x, y)
np.where(x > 1, x, 0)
np.maximum(x, y)
np.maximum(x, 0)
np.fmax(x, y)
np.maximum.reduce([x, y])
np.maximum.reduce(x)
np.minimum.reduce(x)
np.add.reduce(x)
np.add.accumulate(x)
np.add.reduceat(x, [0, 1])
np.multiply.outer(x, y)
np.multiply.reduce(x)
np.subtract.outer(x, y)
np.add(x, y, out=np.zeros(3))
np.multiply(x, y, out=np.empty(3))
np.divide(x, y, out=np.zeros_like(x), where=y > 1)
np.divide(x, y, where=np.array([True]*3))
np.true_divide(x, y)
np.floor_divide(3, 2)
np.digitize(x, [0.5, 1.0, 1.5])
np.searchsorted([0.5, 1.0, 1.5], x)
np.searchsorted(np.sort(x), 1.0)
np.unique(x)
np.mean(x)
x.mean()
np.mean(A, axis=0)
np.average(x)
np.average(x, weights=y)
np.var(x)
np.std(x)
np.median(x)
np.prod(x)
x.prod()
np.sum(x)
x.sum()
sum(x)
np.sum(A, axis=1, keepdims=True)
np.nansum(x)
np.amax(x)
np.max(x)
np.min(A, axis=0)
x.max()
max(x)
min(x)
max(x[0], y[0])
np.cross(x, y)
np.diag(x)
np.diag(A)
np.diagonal(A)
np.diagflat(x)
np.trace(A)
np.tril(A)
np.triu(A)
np.ix_([0, 1], [0])[0]
np.atleast_1d(x[0])
np.atleast_2d(x)
np.squeeze(A)
np.ravel(A)
A.ravel()
A.flatten()
A.flatten('F')
np.reshape(A, (9,))
A.reshape(9)
A.reshape(-1, order='F')
np.transpose(A)
A.T
np.swapaxes(A, 0, 1)
np.moveaxis(A, 0, 1)
np.expand_dims(x, 0)
x[:, None]
x[np.newaxis, :]
np.broadcast_to(x, (2, 3))
np.broadcast_arrays(x, 1.0)[1]
np.copy(x)
x.copy()
np.vectorize(lambda v: v * 2)(x)
np.apply_along_axis(lambda v: v.sum(), 0, A)
np.fromiter((v for v in x), dtype=float)
np.deg2rad(x)
np.rad2deg(x)
np.degrees(x)
np.radians(x)
np.sinh(x)
np.cosh(x)
np.tanh(x)
np.log1p(x)
np.expm1(x)
np.exp2(x)
np.log2(x)
np.log10(x)
np.logaddexp(x, y)
np.float_power(x, 2)
np.power(x, 2)
np.power(x, 0.5)
np.power(2.0, x)
np.reciprocal(x)
np.fabs(x)
np.absolute(x)
np.abs(x)
abs(x)
np.negative(x)
np.mod(3, 2)
np.copysign(x, -1.0)
np.copysign(1.0, x - 1)
np.isnan(x)
np.isfinite(x)
np.isinf(x)
np.signbit(x - 1)
np.real(x)
x.real
np.iscomplexobj(x)
np.sinc(x)
np.full_like(x, 2.0)
np.full(3, x[0])
np.ones_like(x) * x
np.linspace(x[0], y[0], 4)
np.linspace(0, 1, 3) * x
np.geomspace(1.0, 4.0, 3) * x
np.arange(3) * x
np.array([x[0], y[0]])
np.array([x, y])
np.asarray(x)
np.asarray([x[0], 1.0])
np.array(x, copy=True)
np.block([[A, A]])
np.rot90(A)
np.fliplr(A)
np.flipud(A)
np.exp(x)
np.sqrt(x)
np.arctan2(x, y)
np.arctan(x)
np.tan(x)
np.sin(x)
np.emath.sqrt(x)
np.dot(A, A)
np.vander(x)
np.convolve(x, y)
np.correlate(x, y)
np.lib.stride_tricks.sliding_window_view(x, 2)
np.logical_and(x > 1, y > 1)
np.logical_not(x > 1)
~(x > 1)
(x > 1) & (y > 1)
(x > 1) * x
(x > 1).astype(float)
np.bincount([0, 1, 1], weights=x)
np.nanmax(x)
np.isin(1, [1])
np.round(np.array([0.4, 1.6]))
x.tolist()[0]
float(x[0]) if False else x[0]
x.item(0)
x.size
x.shape[0]
len(x)
x.astype(float)
np.may_share_memory(x, x)
np.ravel_multi_index((1, 1), (3, 3))
np.identity(3) * x
np.eye(3) @ x
np.zeros(3) + x
np.min([x[0], y[0]])
np.max((x[0], 1.0))
np.mean([x[0], y[0]])
np.sum([x, y], axis=0)
np.sum([x[0], y[0], 1.0])
np.prod([x[0], y[0]])
np.array([*x, *y])
[v**2 for v in x]
x ** 2
x ** -1
x ** 0.5
2 ** x
x ** y
-x
+x
x // 1 if False else x
np.atleast_1d(1.0) * x
np.dot(x, 2.0)
np.triu_indices(3)[0]
np.sum(x * y) / np.sum(y)
np.ones(3).dot(x)
np.add.at(z, [0, 1], 1.0)
np.copyto(z, x)
np.put(z, [0], [2.0])
np.place(z, z > 1, [0.0])
np.putmask(z, z > 1, 0.0)
np.fill_diagonal(B, 2.0)
z.fill(3.0)
z.__setitem__(slice(0, 2), 5.0)
z.__iadd__(1.0)
z.__imul__(y)
z.sort()
z.put([0], 2.0)
float(x[0])
float(x[:1])
np.zeros(3, dtype=float) + x
x.astype(float) * 2
float(3)
float("2.5")
isinstance(1.0, float)
math.exp(x[0])
math.pow(x[0], 2)
math.sqrt(x[0])
math.log(x[0])
math.hypot(x[0], y[0])
math.atan2(x[0], y[0])
math.isclose(x[0], y[0])
math.fsum(x)
math.prod(x)
math.dist(x, y)
math.degrees(x[0])
math.tan(x[0])
math.copysign(x[0], -1)
math.fabs(x[0])
math.log10(x[0])
math.cbrt(x[0])
math.exp2(x[0])
math.log1p(x[0])
math.expm1(x[0])
pow(x[0], 2)
round(1.2)
abs(x[0])
any(x > 1)
all(x > 0)
bool(x[0] > 1)
1 if x[0] > 1 else 0
x[0] if x[0] > y[0] else y[0]
functools.reduce(lambda a, b: a * b, x)
list(zip(x, y))[0][0]
list(itertools.accumulate(x))
[i for i, v in enumerate(x) if v > 1]
operator.mul(x, y)
sp.diags(x) @ y
sp.csr_matrix(A) @ x
sp.eye(3) @ x
sp.block_diag([A, A]).toarray()
sp.kron(sp.eye(2), A).toarray()
sp.vstack([sp.csr_matrix(A), sp.csr_matrix(A)]).toarray()
sp.hstack([sp.csr_matrix(A), sp.csr_matrix(A)]).toarray()
sp.csr_matrix(A).T.toarray()
sp.csr_matrix(A).multiply(2.0).toarray()
sp.csr_matrix(A)[0].toarray()
sp.csc_matrix(A).dot(x)
sp.coo_matrix((x, ([0, 1, 2], [0, 0, 1])), shape=(3, 3)).toarray()
sp.lil_matrix((3, 3)).toarray() + x
sp.tril(A).toarray()
sp.identity(3).dot(x)
sp.diags([x, y[:-1]], [0, 1]).toarray()
""".strip().split("\n")


class Ctx:
    cs_mode = False

    def __init__(self, point):
        self.point = point

    def decide(self, op, d):
        v = float(X.evalf(X.lift(d), self.point))
        return v < 0 if op == "<" else v == 0

    def __getattr__(self, n):
        raise AttributeError(n)


def main():
    import math, functools, itertools, operator
    import scipy.sparse
    from sx import spx
    xs, ys = [0.7, 1.9, 1.2], [1.4, 0.3, 1.1]
    As = [[2.0, 0.5, 0.1], [0.3, 1.7, 0.2], [0.4, 0.6, 3.0]]
    pt = {}

    def sym(name, v):
        a = numpy.array(v, dtype=float)
        r = numpy.empty(a.shape, dtype=object)
        for i in numpy.ndindex(*a.shape):
            n = name + str(list(i))
            pt[n] = a[i]
            r[i] = X.var(n, 0.01, 10)
        return r.view(npx.SymArray)

    SP = next((b for a, b in npx.EXTRA if a is scipy.sparse), scipy.sparse)
    X.reset()
    bad = 0
    for e in EXPRS:
        env = dict(np=npx.NP, math=npx.MATH, float=npx.SymFloat, functools=functools, itertools=itertools, operator=operator, sp=SP)
        renv = dict(env, np=numpy, math=math, float=float, sp=scipy.sparse)
        for n, v in (("x", xs), ("y", ys), ("A", As), ("z", xs), ("B", As)):
            env[n] = sym(n, v)
            renv[n] = numpy.array(v)
        X.CTX = Ctx(pt)
        try:
            want = eval(e, renv)
        except Exception as ex:
            print("REAL   %-50s %r" % (e, ex))
            continue
        try:
            with npx.patched():
                got = eval(e, env)
            if want is None:
                want, got = (renv["z"], renv["B"]), (env["z"], env["B"])
                pairs = list(zip(want, got))
            else:
                pairs = [(want, got)]
            for w, g in pairs:
                if hasattr(g, "toarray"):
                    g = g.toarray()
                if hasattr(w, "toarray"):
                    w = w.toarray()
                ga = numpy.asarray(g, dtype=object)
                wa = numpy.asarray(w)
                if ga.shape != wa.shape:
                    raise AssertionError("shape %s %s" % (ga.shape, wa.shape))
                for i in numpy.ndindex(*wa.shape):
                    q = ga[i]
                    q = float(X.evalf(q, pt)) if type(q) is X.Sym else q
                    if not abs(float(q) - float(wa[i])) < 1e-9:
                        raise AssertionError("%r %r" % (q, wa[i]))
        except Exception as ex:
            bad += 1
            print("BAD    %-50s %s: %s" % (e, type(ex).__name__, str(ex)[:90]))
        X.CTX = None
    print("%d expressions, %d bad" % (len(EXPRS), bad))


main()
