import numpy as np
from openconcept.energy_storage.hydrogen import structural as S, LH2_tank_no_boil_off as K
from openconcept.energy_storage.hydrogen.LH2_tank_no_boil_off import LH2TankNoBoilOff
from sx.core import Semantic
from .lib import flat, pick

TITLE = "Hydrogen tank conserves mass and its geometry is consistent"
BOUNDS = ["all positive radii, pressures, gaps and layer counts, all lengths from zero (a sphere) up; all fill levels, densities and material options "
          "(symbolic option values on the components; default and non-default values on the whole tank); 1 to 7 and 11 nodes (thorough: also 9)"]
PI = np.pi
OPTS = ["weight_fudge_factor", "stiffening_multiplier", "inner_safety_factor", "inner_yield_stress", "inner_density", "outer_safety_factor",
        "outer_youngs_modulus", "outer_density"]
DEF = dict(weight_fudge_factor=1.1, stiffening_multiplier=0.8, inner_safety_factor=1.5, inner_yield_stress=413.7e6, inner_density=2796.0,
           outer_safety_factor=2.0, outer_youngs_modulus=8.0e10, outer_density=2699.0)
ALT = dict(weight_fudge_factor=1.25, stiffening_multiplier=0.7, inner_safety_factor=1.75, inner_yield_stress=3.5e8, inner_density=2500.0,
           outer_safety_factor=3.0, outer_youngs_modulus=7.0e10, outer_density=2750.0)
SPEC = {"*length": (0, None), "*N_layers": (0, None), "*vacuum_gap": (0, None), "*radius": (0.01, 100), "*pressure*": (1.0, 1e8), "*duration": (0.1, None),
        "*delta_m_liq_initial": "const", "*m_dot_liq": (None, None), "*": (None, None)}


def area(r, L):
    return 4 * PI * r * r + 2 * PI * r * L


def volume(r, L):
    return PI * r * r * r * 4 / 3 + PI * r * r * L


def contents(nn):
    def fn(env):
        r, L = env.pos("radius", base=1.3), env.inp("length", (), 0, None, base=0.7)
        fill, rho = env.inp("fill", (), 0, 1, base=0.9), env.pos("rho", base=70.0)
        d = env.inp("delta", (nn,), None, None, base=3.0)
        h = env.comp(K.InitialLH2MassModification, num_nodes=nn, symopts={"fill_level_init": fill, "LH2_density": rho})
        o = {k: np.array(v) for k, v in h.run({"radius": r, "length": L, "delta_m_liq": d}).items()}
        V = volume(r, L)
        for i in range(nn):
            env.eq("the mass left is the initial mass less what has gone", o["m_liq"][i], fill * rho * V - d[i])
            env.eq("the fill level is the share of the tank the liquid takes", o["fill_level"][i] * rho * V, o["m_liq"][i])
        # taking out some more removes just that much
        x = env.inp("taken", (), None, None, base=0.4)
        o2 = {k: np.array(v) for k, v in h.run({"radius": r, "length": L, "delta_m_liq": d + x}).items()}
        z = {k: np.array(v) for k, v in h.run({"radius": r, "length": L, "delta_m_liq": d * 0}).items()}
        for i in range(nn):
            env.eq("hydrogen taken out is removed one for one", o["m_liq"][i] - o2["m_liq"][i], x)
            env.eq("nothing taken out: the fill level is the initial one", z["fill_level"][i], fill)
    return fn


def inner(env):
    p, r, L = env.pos("p", base=3e5), env.pos("radius", base=1.3), env.inp("length", (), 0, None, base=0.7)
    sf, sy, rho = env.pos("sf", base=1.5), env.pos("yield", base=4e8), env.pos("rho", base=2700.0)
    o = env.comp(S.PressureVesselWallThickness, symopts={"safety_factor": sf, "yield_stress": sy, "density": rho}).run(
        {"design_pressure_differential": p, "radius": r, "length": L})
    t, w = flat(o["thickness"])[0], flat(o["weight"])[0]
    env.eq("hoop stress at the design pressure is the yield stress over the safety factor", t * sy, p * r * sf)
    env.eq("weight is surface times thickness times density", w, area(r, L) * t * rho)


def outer(env):
    p, r, L = env.pos("p", base=1e5), env.pos("radius", base=1.3), env.pos("length", base=0.7)
    sf, E, rho, m = env.pos("sf", base=2.0), env.pos("E", base=8e10), env.pos("rho", base=2700.0), env.pos("mult", base=0.8)
    o = env.comp(S.VacuumWallThickness, symopts={"safety_factor": sf, "youngs_modulus": E, "density": rho, "stiffening_multiplier": m}).run(
        {"design_pressure_differential": p, "radius": r, "length": L})
    t, w = flat(o["thickness"])[0], flat(o["weight"])[0]
    cyl = (p * sf * L * r ** 1.5 / (0.92 * E)) ** 0.4
    sph = r * env.math("sqrt", p * sf / (0.365 * E))
    env.ge("the cylinder does not buckle", t, m * cyl)
    env.ge("the caps do not buckle", t, m * sph)
    env.eq("no thicker than one of them needs", (t - m * cyl) * (t - m * sph), 0)
    env.eq("weight is surface times thickness times density", w, area(r, L) * t * rho)


def sphere(env):
    """a tank without a cylindrical part"""
    p, r = env.pos("p", base=1e5), env.pos("radius", base=1.3)
    o = env.comp(S.VacuumWallThickness).run({"design_pressure_differential": p, "radius": r, "length": 0.0})
    t, w = flat(o["thickness"])[0], flat(o["weight"])[0]
    env.eq("thickness of a spherical shell", t, 0.8 * r * env.math("sqrt", p * 2.0 / (0.365 * 8.0e10)))
    env.eq("weight of a spherical shell", w, 4 * PI * r * r * t * 2699.0)


def mli(env):
    r, L, N = env.pos("radius", base=1.3), env.inp("length", (), 0, None, base=0.7), env.inp("N", (), 0, None, base=20.0)
    f, s = env.pos("foil", base=0.018), env.pos("spacer", base=0.012)
    o = env.comp(S.MLIWeight, symopts={"foil_layer_areal_weight": f, "spacer_layer_areal_weight": s}).run({"radius": r, "length": L, "N_layers": N})
    env.eq("every layer is one foil and one spacer over the whole surface", flat(o["weight"])[0], N * (f + s) * area(r, L))


def walls(env, g, o, pre, weight):
    """the structure inside any group: which geometry, pressure and material each wall is sized for"""
    v = lambda n, u: flat(g.val(n, u))[0]
    r, L, gap = v("radius", "m"), v("length", "m"), v("vacuum_gap", "m")
    pin, pout = v("max_expected_operating_pressure", "Pa"), v("environment_design_pressure", "Pa")
    R = v(pre + "outer_radius.outer_radius", "m")
    env.eq("outer wall stands off by the vacuum gap", R, r + gap)
    ti, wi = v(pre + "inner_wall.thickness", "m"), v(pre + "inner_wall.weight", "kg")
    to, wo = v(pre + "outer_wall.thickness", "m"), v(pre + "outer_wall.weight", "kg")
    wm = v(pre + "MLI.weight", "kg")
    env.eq("inner wall holds the operating pressure", ti * o["inner_yield_stress"], pin * r * o["inner_safety_factor"])
    env.eq("inner wall weight", wi, area(r, L) * ti * o["inner_density"])
    env.eq("outer wall weight", wo, area(R, L) * to * o["outer_density"])
    sph = R * env.math("sqrt", pout * o["outer_safety_factor"] / (0.365 * o["outer_youngs_modulus"]))
    env.ge("outer caps hold the ambient pressure", to, o["stiffening_multiplier"] * sph)
    cyl = (pout * o["outer_safety_factor"] * L * R ** 1.5 / (0.92 * o["outer_youngs_modulus"])) ** 0.4
    env.ge("outer cylinder holds the ambient pressure", to, o["stiffening_multiplier"] * cyl)
    env.eq("no thicker than one of them needs", (to - o["stiffening_multiplier"] * cyl) * (to - o["stiffening_multiplier"] * sph), 0)
    env.eq("insulation covers the inner tank", wm, v("N_layers", None) * 0.03 * area(r, L))
    env.eq("insulation and inner wall cover the same surface", wm * ti * o["inner_density"], wi * v("N_layers", None) * 0.03)
    env.eq("structure weight is the sum of the walls and the insulation", v(weight, "kg"), o["weight_fudge_factor"] * (wi + wo + wm))


def structure(alt):
    def fn(env):
        given = ALT if alt else {}
        g = env.group(lambda: S.VacuumTankWeight(**given), key=("vtw", alt), spec=SPEC)
        walls(env, g, dict(DEF, **given), "", "weight")
    return fn


def one_option(opt):
    def fn(env):
        given = {opt: ALT[opt]}
        g = env.group(lambda: LH2TankNoBoilOff(num_nodes=1 + 2, **given), key=("tank1", opt), spec=SPEC)
        walls(env, g, dict(DEF, **given), "structure.", "tank_weight")
    return fn


def simpson(x, T, nn):
    """mass gone at the odd nodes of Simpson's rule (the even-numbered intervals' ends)"""
    out, s, h = [0], 0, T / max(nn - 1, 1)
    for i in range(2, nn, 2):
        s = s + h / 3 * (x[i - 2] + 4 * x[i - 1] + x[i])
        out.append(s)
    return out


def tank(nn, fill, rho, alt):
    def fn(env):
        given = dict(ALT if alt else {})
        if fill is not None:
            given.update(fill_level_init=fill)
        if rho is not None:
            given.update(LH2_density=rho)
        f, d = fill if fill is not None else 0.95, rho if rho is not None else 70.85
        g = env.group(lambda: LH2TankNoBoilOff(num_nodes=nn, **given), key=("tank", nn, fill, rho, alt), spec=SPEC)
        walls(env, g, dict(DEF, **{k: v for k, v in given.items() if k in DEF}), "structure.", "tank_weight")
        v = lambda n, u: flat(g.val(n, u))
        m, fl, tw, W = v("m_liq", "kg"), v("fill_level", None), v("total_weight", "kg"), v("tank_weight", "kg")[0]
        r, L, T, md = v("radius", "m")[0], v("length", "m")[0], v("integ.duration", "s")[0], v("m_dot_liq", "kg/s")
        V = volume(r, L)
        env.eq("the tank starts at its initial fill level", m[0], f * d * V)
        gone = simpson(md, T, nn)
        for j, s in enumerate(gone):
            env.eq("the mass left is the initial mass less what flowed out", m[2 * j], m[0] - s)
        for i in range(nn):
            env.eq("fill level is the liquid's share of the volume", fl[i] * d * V, m[i])
            env.eq("total weight is the liquid and the tank", tw[i], m[i] + W)
    return fn


def insulation(nn):
    """more layers, a wider gap or stronger walls leave the stored hydrogen alone"""
    def fn(env):
        a = env.group(lambda: LH2TankNoBoilOff(num_nodes=nn), key=("tank", nn, "a"), spec=SPEC)
        # second tank: same free variables except the ones that differ
        spec = dict({"*N_layers": 57.0, "*vacuum_gap": 0.31, "*pressure*": 2.3e5}, **SPEC)
        b = env.group(lambda: LH2TankNoBoilOff(num_nodes=nn, **ALT), key=("tank", nn, "b"), spec=spec)
        for n, u in (("m_liq", "kg"), ("fill_level", None)):
            env.eq("%s does not depend on the insulation or the walls" % n, flat(a.val(n, u)), flat(b.val(n, u)))
    return fn


def harnesses(tier):
    deep = tier != "quick"
    H = [Semantic("contents/n%d" % nn, contents(nn)) for nn in pick(tier, (1, 3), (1, 3, 5, 11), (1, 3, 5, 7, 9, 11))]
    H += [Semantic("inner wall", inner), Semantic("outer wall", outer), Semantic("outer wall/sphere", sphere), Semantic("MLI", mli)]
    H += [Semantic("structure/%s" % ("options" if a else "defaults"), structure(a)) for a in (False, True)]
    H += [Semantic("option/" + o, one_option(o)) for o in OPTS]
    for nn in pick(tier, (1, 3), (1, 3, 5, 7, 11), (1, 3, 5, 7, 9, 11)):
        H += [Semantic("tank/n%d/defaults" % nn, tank(nn, None, None, False)), Semantic("tank/n%d/fill" % nn, tank(nn, 0.6, None, False)),
              Semantic("tank/n%d/density" % nn, tank(nn, None, 68.0, False)), Semantic("tank/n%d/all" % nn, tank(nn, 0.75, 71.5, True)),
              Semantic("insulation/n%d" % nn, insulation(nn))]
    return H
