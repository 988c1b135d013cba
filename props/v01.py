import numpy as np
from openconcept.utilities import visualization as V
from sx.core import Semantic
from .lib import flat, pick

TITLE = "Plots show the computed trajectories and loads"
BOUNDS = ["one to four phases of one to seven nodes, one to seven plotted quantities, one to three cases, figure grids of 1x1 to 3x2 axes, with and without labels, all values and units; "
          "wing meshes of 2x2 to 4x5 points (thorough 5x7) with any positive chordwise and spanwise spacing, any forces, left, right and both halves, each force direction; "
          "the drawing library is replaced by a recorder of what it is asked to draw"]


class Axes:
    """records what is drawn; like matplotlib's, properties can be set by keyword only"""

    def __init__(self, fig=None):
        self.fig, self.lines, self.fills, self.collections, self.contours, self.prop = fig, [], [], [], [], {}

    def plot(self, x, y, *a, **kw):
        self.lines.append((x, y))
        return [self]

    def fill_between(self, x, y1, y2=0, **kw):
        self.fills.append((x, y1, y2))

    def add_collection(self, c, *a, **kw):
        self.collections.append(c)
        return c

    def contourf(self, x, y, z, *a, **kw):
        self.contours.append((x, y, z, kw))
        return "contours"

    def set(self, **kw):
        self.prop.update(kw)

    def __getattr__(self, n):
        if n.startswith("set_"):
            return lambda *a, **kw: self.prop.__setitem__(n[4:], a[0] if a else kw)
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **kw: None


class Figure:
    def __init__(self):
        self.axes = []

    def add_subplot(self, *a, **kw):
        self.axes.append(Axes(self))
        return self.axes[-1]

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **kw: None


class Plt:
    def __init__(self):
        self.figs, self.saved = [], []

    def figure(self, *a, **kw):
        self.figs.append(Figure())
        return self.figs[-1]

    def subplots(self, nrows=1, ncols=1, squeeze=True, **kw):
        f = self.figure()
        a = np.empty((nrows, ncols), dtype=object)
        for i in range(nrows):
            for j in range(ncols):
                a[i, j] = f.add_subplot()
        f.grid = a
        if squeeze:
            a = a[0, 0] if a.size == 1 else np.squeeze(a)
        return f, a

    def gcf(self):
        return self.figs[-1] if self.figs else self.figure()

    def gca(self):
        f = self.gcf()
        return f.axes[-1] if f.axes else f.add_subplot()

    def savefig(self, name, *a, **kw):
        self.saved.append((name, self.gcf()))

    def plot(self, *a, **kw):
        return self.gca().plot(*a, **kw)

    def __getattr__(self, n):
        if n in ("xlabel", "ylabel", "title"):
            return lambda s, *a, **kw: self.gca().prop.__setitem__(n, s)
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **kw: None


class drawing:
    """the module's drawing library replaced"""

    def __enter__(self):
        p = Plt()
        self.old = {k: getattr(V, k, None) for k in ("plt", "LineCollection")}
        V.plt, V.LineCollection = p, lambda segs, **kw: list(segs)
        return p

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(V, k, v)


def flag(env, label, ok):
    env.eq(label, 0 if ok else 1, 0)


class Case:
    """a finished run: what is asked for in which units is what comes out"""

    def __init__(self, env, name, phases):
        self.env, self.name, self.phases = env, name, phases

    def get_val(self, name, units=None, **kw):
        ph = [p for p in self.phases if name.startswith(p + ".")]
        return self.env.inp("%s/%s/%s" % (self.name, name, units), self.phases[max(ph, key=len)])


PHASES = {"one": {"climb": 3}, "two": {"climb": 3, "cruise": 5}, "points": {"v0v1": 3, "v1vr": 3, "rotate": 1, "climb": 7}, "order": {"b": 5, "a": 3, "b.c": 3}}
VARS = [("fltcond|h", "ft"), ("throttle", None), ("fltcond|vs", "ft/min"), ("fuel_used", "kg"), ("range", "NM"), ("drag", "lbf"), ("p.T", "degC")]


def wanted(case, phases, var, units):
    return np.concatenate([np.asarray(case.get_val(p + "." + var, units=units)) for p in phases])


def same(env, label, got, want):
    got, want = flat(got), flat(want)
    flag(env, label + ": as many points", len(got) == len(want))
    if len(got) == len(want):
        env.eq(label, got, want)


def single(phases, nv, labels, xlab):
    names = list(PHASES[phases])

    def fn(env):
        c = Case(env, "run", PHASES[phases])
        ys = VARS[:nv]
        lab = {"none": None, "all": ["label %d" % i for i in range(nv)], "some": [None if i % 2 else "label %d" % i for i in range(nv)]}[labels]
        with drawing() as plt:
            V.plot_trajectory(c, "range", "NM", [v for v, _ in ys], [u for _, u in ys], names, x_label=xlab, y_labels=lab, plot_title="a title")
        axes = [a for f in plt.figs for a in f.axes]
        flag(env, "a figure per quantity", len(axes) == nv == len(plt.figs))
        for i, (v, u) in enumerate(ys[:len(axes)]):
            a = axes[i]
            flag(env, "one curve per figure", len(a.lines) == 1)
            same(env, "abscissa of %s" % v, a.lines[0][0], wanted(c, names, "range", "NM"))
            same(env, "curve of %s" % v, a.lines[0][1], wanted(c, names, v, u))
            flag(env, "x label", a.prop.get("xlabel") == (xlab or "range"))
            flag(env, "label of %s" % v, a.prop.get("ylabel") == (v if lab is None else lab[i]))
            flag(env, "title", a.prop.get("title") == "a title")
    return fn


def grid(phases, nv, ncases, layout, labels, xlab, save):
    names = list(PHASES[phases])

    def fn(env):
        cs = [Case(env, "run%d" % k, PHASES[phases]) for k in range(ncases)]
        ys = VARS[:nv]
        lab = {"none": None, "all": ["label %d" % i for i in range(nv)], "some": [None if i % 2 else "label %d" % i for i in range(nv)]}[labels]
        with drawing() as plt:
            V.plot_trajectory_grid(cs, "range", "NM", [v for v, _ in ys], [u for _, u in ys], names, x_label=xlab, y_labels=lab, grid_layout=list(layout), savefig=save)
        per = layout[0] * layout[1]
        pages = -(-nv // per)
        flag(env, "pages", len(plt.figs) == pages and all(f.grid.shape == tuple(layout) for f in plt.figs))
        if save:
            flag(env, "every page is saved once, in order", [f for _, f in plt.saved] == plt.figs and len({n for n, _ in plt.saved}) == pages)
        for i, (v, u) in enumerate(ys):
            at = i % per
            a = plt.figs[i // per].grid[at // layout[1], at % layout[1]]
            flag(env, "%s: a curve per case" % v, len(a.lines) == ncases)
            for c, l in zip(cs, a.lines):
                same(env, "abscissa of %s, %s" % (v, c.name), l[0], wanted(c, names, "range", "NM"))
                same(env, "curve of %s, %s" % (v, c.name), l[1], wanted(c, names, v, u))
            flag(env, "label of %s" % v, a.prop.get("ylabel") == (v if lab is None else lab[i]))
            if at // layout[1] + 1 == layout[0]:
                flag(env, "x label in the last row", a.prop.get("xlabel") == (xlab or "range"))
        for k in range(nv, pages * per):
            at = k % per
            flag(env, "unused axes stay empty", not plt.figs[-1].grid[at // layout[1], at % layout[1]].lines)
    return fn


def mesh(env, nx, ny):
    """left half of a wing: tip first, any leading edge, chordwise lines in planes of constant span"""
    dy, dx = env.pos("dy", ny - 1, base=1.5), env.pos("dx", (nx - 1, ny), base=0.7)
    le, z = env.inp("le", ny, base=0.4), env.inp("z", (nx, ny), base=0.1)
    m = np.empty((nx, ny, 3), dtype=float if env.real else object)
    for j in range(ny):
        y = -sum(dy[k] for k in range(j, ny - 1)) if j < ny - 1 else 0.0
        x = le[j]
        for i in range(nx):
            m[i, j, 0], m[i, j, 1], m[i, j, 2] = x, y, z[i, j]
            if i < nx - 1:
                x = x + dx[i, j]
    if not env.real:
        from sx import npx
        m = npx.lift_arr(m)
    return m, dx, dy


def draw_mesh(nx, ny, given):
    def fn(env):
        m, dx, dy = mesh(env, nx, ny)
        before = np.array(m)
        with drawing() as plt:
            ax = Axes() if given else None
            r = V.plot_OAS_mesh(m, ax=ax)
            a = ax if given else r[1]
        env.eq("the mesh is left alone", m, before)
        # full wing: the left half, and its mirror image from the root outwards
        full = [[(before[i, j, 0], before[i, j, 1]) for j in range(ny)] + [(before[i, j, 0], -before[i, j, 1]) for j in range(ny - 2, -1, -1)] for i in range(nx)]
        flag(env, "one outline", len(a.fills) == 1)
        x, y1, y2 = (np.asarray(v) for v in a.fills[0])
        if x[0] > x[-1]:  # the same area whichever end or edge is named first
            x, y1, y2 = x[::-1], y1[::-1], y2[::-1]
        if y1[0] < y2[0]:
            y1, y2 = y2, y1
        same(env, "span stations", x, [p[1] for p in full[0]])
        same(env, "leading edge", y1, [-p[0] for p in full[0]])
        same(env, "trailing edge", y2, [-p[0] for p in full[-1]])
        segs = [np.asarray(s) for c in a.collections for s in c]
        rows = [[(p[1], -p[0]) for p in full[i]] for i in range(nx)]
        cols = [[(full[i][j][1], -full[i][j][0]) for i in range(nx)] for j in range(2 * ny - 1)]
        flag(env, "all mesh lines", len(segs) == len(rows) + len(cols))
        # the same lines in whatever order they are listed, each from either end
        across = [q if q[0, 0] < q[-1, 0] else q[::-1] for q in segs if not (q[0, 0] == q[-1, 0])]
        along = [q if q[0, 1] > q[-1, 1] else q[::-1] for q in segs if q[0, 0] == q[-1, 0]]
        flag(env, "lines across and along", (len(across), len(along)) == (len(rows), len(cols)))
        found = sorted(across, key=lambda q: -q[0, 1]) + sorted(along, key=lambda q: q[0, 0])
        for k, (q, w) in enumerate(zip(found, rows + cols)):
            same(env, "mesh line %d" % k, q, np.array(w, dtype=object if not env.real else float))
    return fn


def contours(nx, ny, wing, direction, at, given):
    """the panels around one mesh point share a pressure, all others have pressures of their own: the point shows theirs"""
    def fn(env):
        m, dx, dy = mesh(env, nx, ny)
        p = env.inp("p", base=2.0)
        q = env.inp("q", (nx - 1, ny - 1, 3), base=5.0)
        f = np.empty((nx - 1, ny - 1, 3), dtype=float if env.real else object)
        mean = np.empty((nx - 1, ny - 1), dtype=object)
        for i in range(nx - 1):
            for j in range(ny - 1):
                area = (dx[i, j] + dx[i, j + 1]) * dy[j] / 2
                mean[i, j] = (p if i in (at[0] - 1, at[0]) and j in (at[1] - 1, at[1]) else q[i, j, direction])
                for k in range(3):
                    f[i, j, k] = mean[i, j] * area if k == direction else q[i, j, k]
        if not env.real:
            from sx import npx
            f = npx.lift_arr(f)
        before, fb = np.array(m), np.array(f)
        with drawing() as plt:
            ax = Axes() if given else None
            r = V.plot_OAS_force_contours(m, f, ax=ax, wing=wing, force_dir=direction, levels=7)
            a = ax if given else r[2]
        flag(env, "what is returned", (r if given else r[0]) == "contours")
        env.eq("the mesh is left alone", m, before)
        env.eq("the forces are left alone", f, fb)
        flag(env, "one contour plot", len(a.contours) == 1 and a.contours[0][3] == dict(levels=7))
        x, y, z, _ = a.contours[0]
        x, y, z = np.asarray(x), np.asarray(y), np.asarray(z)
        flag(env, "a value per point", x.shape == y.shape == z.shape and x.shape[0] == nx)
        w = x.shape[1]
        flag(env, "width", w == ny if wing != "both" else w in (2 * ny, 2 * ny - 1))
        if x[0, 0] > x[0, -1]:  # the same picture whichever end is listed first
            x, y, z = x[:, ::-1], y[:, ::-1], z[:, ::-1]
        if y[0, 0] < y[-1, 0]:
            x, y, z = x[::-1], y[::-1], z[::-1]
        for c in range(w):
            j = c if c < ny and wing != "right" else w - 1 - c
            sgn = -1 if wing == "right" or c >= ny else 1
            for i in range(nx):
                env.eq("point %d,%d across" % (i, c), x[i, c], sgn * before[i, j, 1])
                env.eq("point %d,%d along" % (i, c), y[i, c], -before[i, j, 0])
            env.eq("pressure at the point", z[at[0], c], p) if j == at[1] else None
    return fn


def harnesses(tier):
    out = []
    for ph in PHASES:
        for nv in (1, 3):
            for lab in ("none", "all", "some"):
                out.append(Semantic("trajectory/%s/%d/%s" % (ph, nv, lab), single(ph, nv, lab, "x" if nv == 1 else None)))
    for ph in pick(tier, ("two",), ("two", "points", "order"), tuple(PHASES)):
        for layout in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2)):
            for nv in (1, 4, 7):
                for nc, lab, xl, save in ((1, "none", None, None), (2, "all", "x", "file"), (3, "some", None, "file")):
                    out.append(Semantic("grid/%s/%dx%d/%d/%d %s" % ((ph,) + layout + (nv, nc, lab)), grid(ph, nv, nc, layout, lab, xl, save)))
    for nx, ny in pick(tier, ((2, 2), (3, 3)), ((2, 2), (2, 4), (3, 3), (4, 5)), ((2, 2), (2, 4), (3, 3), (4, 5), (5, 7))):
        for given in (False, True)[nx * ny > 9:]:
            out.append(Semantic("mesh/%dx%d/%s" % (nx, ny, "given axes" if given else "own figure"), draw_mesh(nx, ny, given), max_paths=256))
        for wing in ("left", "right", "both"):
            for d in range(3):
                for i in range(nx):
                    for j in range(ny):
                        if nx * ny < 8 or (i + j + d) % 3 == 0 or i in (0, nx - 1) and j in (0, ny - 1):
                            out.append(Semantic("contours/%dx%d/%s/direction %d/%d,%d" % (nx, ny, wing, d, i, j), contours(nx, ny, wing, d, (i, j), nx * ny > 6 or (i + j) % 2 == 0), max_paths=256))
    return out
