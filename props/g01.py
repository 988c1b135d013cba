import numpy as np
import openconcept.geometry as G
from openconcept.aerodynamics.openaerostruct import mesh_gen as M
from sx.core import Semantic
from .lib import flat, total, pick

TITLE = "Wing planform quantities are geometrically consistent"
BOUNDS = ["planforms of 2 to 4 sections (5; 6 in thorough) and every contiguous subset of at least two of them; all chords, leading-edge and "
          "spanwise positions (tip to root increasing), areas, aspect ratios, taper ratios, sweeps within +-80 deg; meshes of 1 to 6 by 1 to 7 panels per region (thorough up to 9 by 11); interpolated values of every sign"]
PI = np.pi


def planform(env, n, lo=0.05):
    """sections from tip (most negative y) to the root at y = 0"""
    w = flat(env.inp("width", (n - 1,), lo, 50.0, base=3.0))
    c = flat(env.inp("chord", (n,), lo, 30.0, base=2.0))
    x = flat(env.inp("x_LE", (n,), -50.0, 50.0, base=1.0))
    y = [0 - total(w[k:]) for k in range(n - 1)]
    arr = lambda v: np.array(list(v), dtype=float if env.real else object)
    return x, arr(y), c, w, arr


def subsets(n):
    yield None, None
    for a in range(n):
        for b in range(a + 1, n):
            yield a, b


def rng(n, a, b):
    return (0 if a is None else a), (n - 1 if b is None else b)


def sub_opts(a, b):
    o = {}
    if a is not None:
        o["idx_sec_start"] = a
    if b is not None:
        o["idx_sec_end"] = b
    return o


def simpson(w, f):
    """exact for the square and the product of linear functions; f(t), t from outboard 0 to inboard 1"""
    return w * (f(0) + 4 * f(0.5) + f(1)) / 6


def line(p, q):
    return lambda t: p if t == 0 else q if t == 1 else (p + q) / 2


def area(n, a, b, frac):
    def fn(env):
        x, y, c, w, arr = planform(env, n)
        so = {}
        f = 1.0
        if frac:
            s, e = env.inp("from", (), 0, 1, base=0.2), env.inp("to", (), 0, 1, base=0.7)
            so = {"chord_frac_start": s, "chord_frac_end": e}
            f = e - s
        h = env.comp(G.WingAreaFromSections, num_sections=n, symopts=so or None, **sub_opts(a, b))
        S = h.run({"y_sec": y, "chord_sec": c})["S"]
        i, j = rng(n, a, b)
        env.eq("both half wings between the sections", S, f * total([2 * simpson(w[k], line(c[k], c[k + 1])) for k in range(i, j)]) + 0 * flat(S)[0])
    return fn


def area_parts(n, k):
    def fn(env):
        x, y, c, w, arr = planform(env, n)
        run = lambda **o: flat(env.comp(G.WingAreaFromSections, num_sections=n, **o).run({"y_sec": y, "chord_sec": c})["S"])[0]
        out, inn, al = run(idx_sec_end=k), run(idx_sec_start=k), run()
        env.eq("outboard part and inboard part make the wing", out + inn, al)
        fr = [run(chord_frac_end=0.3), run(chord_frac_start=0.3, chord_frac_end=0.75), run(chord_frac_start=0.75)]
        env.eq("leading edge, box and trailing edge make the wing", fr[0] + fr[1] + fr[2], al)
    return fn


def mac(n, a, b):
    def fn(env):
        x, y, c, w, arr = planform(env, n)
        o = env.comp(G.WingMACFromSections, num_sections=n, **sub_opts(a, b)).run({"x_LE_sec": x, "y_sec": y, "chord_sec": c})
        i, j = rng(n, a, b)
        S = total([simpson(w[k], line(c[k], c[k + 1])) for k in range(i, j)])
        sq = total([simpson(w[k], lambda t, L=line(c[k], c[k + 1]): L(t) ** 2) for k in range(i, j)])
        q = lambda k: x[k] + c[k] / 4
        m1 = total([simpson(w[k], lambda t, L=line(c[k], c[k + 1]), Q=line(q(k), q(k + 1)): L(t) * Q(t)) for k in range(i, j)])
        env.eq("mean aerodynamic chord", o["MAC"] * S, sq + 0 * o["MAC"])
        env.eq("quarter-chord position of the mean chord", o["x_c4MAC"] * S, m1 + 0 * o["MAC"])
    return fn


def sweep(n, a, b):
    def fn(env):
        x, y, c, w, arr = planform(env, n)
        s = env.comp(G.WingSweepFromSections, num_sections=n, **sub_opts(a, b)).run({"x_LE_sec": x, "y_sec": y, "chord_sec": c})["c4sweep"]
        i, j = rng(n, a, b)
        q = lambda k: x[k] + c[k] / 4
        A = [w[k] * (c[k] + c[k + 1]) / 2 for k in range(i, j)]
        cosn = [w[k] / (w[k] ** 2 + (q(k) - q(k + 1)) ** 2) ** 0.5 for k in range(i, j)]
        env.eq("area-weighted mean of the cosine of the quarter-chord sweep", env.math("cos", s * (PI / 180)) * total(A), total([p * r for p, r in zip(A, cosn)]) + 0 * s)
    return fn


def shifted(n, what):
    """moving the whole wing moves the mean chord with it and changes nothing else"""
    def fn(env):
        x, y, c, w, arr = planform(env, n)
        d = env.inp("shift", (), -20, 20, base=3.0)
        run = lambda cls, xx: {k: np.array(v) for k, v in env.comp(cls, num_sections=n).run({"x_LE_sec": xx, "y_sec": y, "chord_sec": c}).items()}
        if what == "MAC":
            p, r = run(G.WingMACFromSections, x), run(G.WingMACFromSections, arr([v + d for v in x]))
            env.eq("mean chord", r["MAC"], p["MAC"])
            env.eq("its position", r["x_c4MAC"], p["x_c4MAC"] + d)
        else:
            p, r = run(G.WingSweepFromSections, x), run(G.WingSweepFromSections, arr([v + d for v in x]))
            env.eq("sweep", r["c4sweep"], p["c4sweep"])
    return fn


def trapezoidal(env):
    S, AR, t = env.pos("S", base=30.0), env.pos("AR", base=9.0), env.inp("taper", (), 0.01, 1.0, base=0.4)
    b = env.comp(G.WingSpan).run({"S_ref": S, "AR": AR})["span"]
    b = np.array(b)
    env.eq("span squared is area times aspect ratio", b ** 2, S * AR + 0 * b)
    env.gt("span is positive", b, 0)
    env.eq("aspect ratio of that span", env.comp(G.WingAspectRatio).run({"S_ref": S, "span": b})["AR"], AR + 0 * b)
    m = np.array(env.comp(G.WingMACTrapezoidal).run({"S_ref": S, "AR": AR, "taper": t})["MAC"])
    cr = 2 * S / (b * (1 + t))
    env.eq("mean chord is the integral of the squared chord over the area", m * S, 2 * simpson(b / 2, lambda q: line(cr * t, cr)(q) ** 2))
    # the same wing described by its sections
    arr = lambda v: np.array([flat(q)[0] for q in v], dtype=float if env.real else object)
    y, c = arr([0 - b / 2]), arr([cr * t, cr])
    sec = {"x_LE_sec": arr([0 * b, 0 * b]), "y_sec": y, "chord_sec": c}
    env.eq("same area from sections", env.comp(G.WingAreaFromSections).run({"y_sec": y, "chord_sec": c})["S"], S + 0 * b)
    env.eq("same mean chord from sections", env.comp(G.WingMACFromSections).run(sec)["MAC"], m)


def ratio(env):
    S, b = env.pos("S", base=30.0), env.pos("b", base=16.0)
    AR = np.array(env.comp(G.WingAspectRatio).run({"S_ref": S, "span": b})["AR"])
    env.eq("aspect ratio", AR * S, b ** 2 + 0 * AR)
    env.eq("span of that aspect ratio", env.comp(G.WingSpan).run({"S_ref": S, "AR": AR})["span"], b + 0 * AR)


def cylinder(env):
    L, D = env.pos("L", base=10.0), env.pos("D", base=2.0)
    A = env.comp(G.CylinderSurfaceArea).run({"L": L, "D": D})["A"]
    env.eq("circumference times length", A, PI * D * L + 0 * A)


# --------------------------------------------------------------------------- meshes
def mesh_common(env, m, nx, ny):
    """flat, columns at one span position, chordwise points in proportion; returns leading edge, chord, y"""
    le, te, y = [m[0, k, 0] for k in range(ny)], [m[nx - 1, k, 0] for k in range(ny)], [m[0, k, 1] for k in range(ny)]
    for i in range(nx):
        for k in range(ny):
            env.eq("flat mesh[%d,%d]" % (i, k), m[i, k, 2], 0 * y[0])
            if i:
                env.eq("chordwise column at one span position[%d,%d]" % (i, k), m[i, k, 1], y[k])
    return le, [p - q for p, q in zip(te, le)], y


def mesh_area(c, y):
    return total([2 * simpson(y[k + 1] - y[k], line(c[k], c[k + 1])) for k in range(len(y) - 1)])


def trap_mesh(px, py):
    def fn(env):
        S, AR, t = env.pos("S", base=30.0), env.pos("AR", base=9.0), env.inp("taper", (), 0.01, 1.0, base=0.4)
        L = env.inp("sweep", (), -80, 80, base=20.0)
        m = np.array(env.comp(M.TrapezoidalPlanformMesh, num_x=px, num_y=py).run({"S": S, "AR": AR, "taper": t, "sweep": L})["mesh"])
        nx, ny = px + 1, py + 1
        env.eq("mesh size", 0 if m.shape == (nx, ny, 3) else 1, 0)
        le, c, y = mesh_common(env, m, nx, ny)
        env.eq("requested area", mesh_area(c, y), S)
        env.eq("requested span", (y[-1] - y[0]) ** 2 * 4, S * AR)
        env.eq("root on the symmetry plane", y[-1], 0 * y[-1])
        env.lt("tip to root", y[0], y[-1])
        env.eq("requested taper", c[0], t * c[-1])
        tan = env.math("sin", L * (PI / 180)) / env.math("cos", L * (PI / 180))
        for k in range(ny - 1):
            env.eq("requested quarter-chord sweep[%d]" % k, (le[k] + c[k] / 4) - (le[-1] + c[-1] / 4), (y[-1] - y[k]) * tan)
        for k in range(1, ny - 1):
            env.eq("straight edges[%d]" % k, (c[k] - c[0]) * (y[-1] - y[0]), (c[-1] - c[0]) * (y[k] - y[0]))
        for k in range(ny):
            env.eq("even span spacing[%d]" % k, y[k] * (ny - 1), y[0] * (ny - 1 - k))
        for i in range(nx):
            for k in range(ny):
                env.eq("even chordwise spacing[%d,%d]" % (i, k), (m[i, k, 0] - le[k]) * (nx - 1), i * c[k])
        env.eq("root quarter chord at the origin", le[-1] + c[-1] / 4, 0 * c[-1])
    return fn


def cosf(i, n):
    return (1 - np.cos(PI * i / n)) / 2


def sec_mesh(px, py, n, scale):
    def fn(env):
        x, y, c, w, arr = planform(env, n)
        ins = {"x_LE_sec": x, "y_sec": y, "chord_sec": c}
        S = None
        if scale:
            S = ins["S"] = env.pos("S", base=30.0)
        o = env.comp(M.SectionPlanformMesh, num_x=px, num_y=py, num_sections=n, scale_area=scale).run(ins)
        m = np.array(o["mesh"])
        per = [py] * (n - 1) if isinstance(py, int) else [int(p) for p in py]
        nx, ny = px + 1, sum(per) + 1
        env.eq("mesh size", 0 if m.shape == (nx, ny, 3) else 1, 0)
        le, ch, ym = mesh_common(env, m, nx, ny)
        A = total([w[k] * (c[k] + c[k + 1]) for k in range(n - 1)])
        if scale:
            env.eq("requested area", mesh_area(ch, ym), S)
            r = (S / A) ** 0.5
        else:
            env.eq("reported area", flat(o["S"])[0], A)
            env.eq("reported area is the mesh's", mesh_area(ch, ym), A)
            env.eq("reported area is the one from sections", flat(env.comp(G.WingAreaFromSections, num_sections=n).run({"y_sec": y, "chord_sec": c})["S"])[0], flat(o["S"])[0])
            r = 1
        pos, ys = 0, list(y) + [0]
        at = [0]
        for p in per:
            pos += p
            at.append(pos)
        for s in range(n):
            env.eq("section %d: span position" % s, ym[at[s]], r * ys[s])
            env.eq("section %d: chord" % s, ch[at[s]], r * c[s])
            env.eq("section %d: leading edge" % s, le[at[s]], r * x[s])
        for s in range(n - 1):
            for k in range(1, per[s]):
                i, f = at[s] + k, cosf(k, per[s])
                env.eq("region %d point %d: span position" % (s, k), ym[i], r * (ys[s] + f * (ys[s + 1] - ys[s])))
                env.eq("region %d point %d: straight trailing edge" % (s, k), ch[i], r * (c[s] + f * (c[s + 1] - c[s])))
                env.eq("region %d point %d: straight leading edge" % (s, k), le[i], r * (x[s] + f * (x[s + 1] - x[s])))
        for i in range(1, nx - 1):
            for k in range(ny):
                env.eq("chordwise spacing[%d,%d]" % (i, k), m[i, k, 0], le[k] + cosf(i, nx - 1) * ch[k])
    return fn


def interp(n, py, cos, units):
    """values defined at the sections follow the mesh's own span positions linearly"""
    def fn(env):
        x, y, c, w, arr = planform(env, n)
        v = flat(env.inp("v", (n,), None, None, base=0.3))
        per = [py] * (n - 1) if isinstance(py, int) else [int(p) for p in py]
        h = env.comp(M.SectionLinearInterp, num_sections=n, num_y=py, cos_spacing=cos, **({"units": units} if units else {}))
        r = flat(h.run({"property_sec": v})["property_node"])
        env.eq("one value per span position", len(r), sum(per) + 1)
        if cos:
            m = np.array(env.comp(M.SectionPlanformMesh, num_x=1, num_y=py, num_sections=n, scale_area=False).run(
                {"x_LE_sec": x, "y_sec": y, "chord_sec": c})["mesh"])
            ym = [m[0, k, 1] for k in range(sum(per) + 1)]
            ys = list(y) + [0]
        k0 = 0
        for s in range(n - 1):
            for k in range(per[s] + 1):
                i = k0 + k
                if cos:
                    env.eq("region %d node %d" % (s, k), (r[i] - v[s]) * w[s], (v[s + 1] - v[s]) * (ym[i] - ys[s]))
                else:
                    env.eq("region %d node %d" % (s, k), (r[i] - v[s]) * per[s], (v[s + 1] - v[s]) * k)
            k0 += per[s]
    return fn


def toverc(n, py, cos):
    def fn(env):
        v = flat(env.inp("v", (n,), 0, None, base=0.12))
        per = [py] * (n - 1) if isinstance(py, int) else [int(p) for p in py]
        node = np.array(flat(env.comp(M.SectionLinearInterp, num_sections=n, num_y=py, cos_spacing=cos).run({"property_sec": v})["property_node"]))
        r = flat(env.comp(M.ThicknessChordRatioInterp, num_sections=n, num_y=py, cos_spacing=cos).run({"section_toverc": v})["panel_toverc"])
        env.eq("one value per panel", len(r), sum(per))
        for k in range(len(r)):
            env.eq("panel %d is the mean of its two edges" % k, 2 * r[k], node[k] + node[k + 1])
        f = (lambda i, p: cosf(i, p)) if cos else (lambda i, p: i / p)
        k0 = 0
        for s in range(n - 1):
            for k in range(per[s]):
                a = (f(k, per[s]) + f(k + 1, per[s])) / 2
                env.eq("region %d panel %d" % (s, k), r[k0 + k], v[s] + a * (v[s + 1] - v[s]))
            k0 += per[s]
    return fn


def twice(n, py):
    """a mesh computed after another one is not influenced by it"""
    def fn(env):
        x, y, c, w, arr = planform(env, n)
        S, S2 = env.pos("S", base=30.0), env.pos("S2", base=20.0)
        h = env.comp(M.SectionPlanformMesh, num_x=1, num_y=py, num_sections=n)
        base = {"x_LE_sec": x, "y_sec": y, "chord_sec": c}
        a = np.array(h.run(dict(base, S=S))["mesh"])
        h.run(dict(base, S=S2, chord_sec=arr([2 * q for q in c])))
        b = np.array(h.run(dict(base, S=S))["mesh"])
        env.eq("same mesh again", flat(a), flat(b))
    return fn


def harnesses(tier):
    t = tier != "quick"
    out = [Semantic("trapezoidal wing", trapezoidal), Semantic("aspect ratio", ratio), Semantic("cylinder", cylinder)]
    for n in (2, 3, 4) + pick(tier, (), (5,), (5, 6)):
        for a, b in subsets(n):
            tag = "%d sections/%s" % (n, "all" if a is None else "%d to %d" % (a, b))
            out.append(Semantic("area/" + tag, area(n, a, b, False)))
            out.append(Semantic("area of a chord fraction/" + tag, area(n, a, b, True)))
            out.append(Semantic("mean chord/" + tag, mac(n, a, b)))
            out.append(Semantic("sweep/" + tag, sweep(n, a, b)))
        for k in range(1, n - 1):
            out.append(Semantic("area parts/%d sections at %d" % (n, k), area_parts(n, k)))
        if n < 4:
            out.append(Semantic("moved wing/MAC/%d" % n, shifted(n, "MAC")))
            out.append(Semantic("moved wing/sweep/%d" % n, shifted(n, "sweep")))
    sizes = [(1, 1), (1, 2), (2, 1), (2, 3), (3, 4), (4, 5)] + pick(tier, [], [(1, 7), (6, 2), (5, 6), (6, 7)], [(1, 7), (6, 2), (5, 6), (6, 7), (9, 3), (2, 11), (8, 9)])
    for px, py in sizes:
        out.append(Semantic("trapezoidal mesh/%dx%d" % (px, py), trap_mesh(px, py)))
    for px, py, n in [(1, 1, 2), (2, 3, 2), (3, 2, 3), (1, (1, 3), 3), (2, [3, 1], 3), (1, 2, 4), (2, (1, 2, 3), 4), (3, [2, 1, 1], 4), (1, np.array([2, 3]), 3)] + (
            [(4, 7, 2), (4, (5, 3), 3), (3, (3, 2, 4), 4), (2, (1, 2, 1, 3), 5)] if t else []):
        for sc in (True, False):
            out.append(Semantic("section mesh/%d x %s/%d sections/%s" % (px, py, n, "scaled" if sc else "unscaled"), sec_mesh(px, py, n, sc)))
    for n, py in ((2, 1), (2, 4), (3, 2), (3, (1, 3)), (3, [3, 1]), (4, (2, 1, 3)), (4, 2)):
        for cos in (True, False):
            tag = "%d sections/%s/%s" % (n, py, "cosine" if cos else "even")
            out.append(Semantic("section values/" + tag, interp(n, py, cos, "deg" if n == 3 else None)))
            out.append(Semantic("thickness ratio/" + tag, toverc(n, py, cos)))
    out.append(Semantic("mesh again/2", twice(2, 2)))
    out.append(Semantic("mesh again/3", twice(3, (1, 2))))
    return out
