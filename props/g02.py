import openmdao.api as om
import numpy as np
from openconcept.stability import HStabVolumeCoefficientSizing, VStabVolumeCoefficientSizing
from sx.core import Semantic

TITLE = "Tail sizing reproduces the requested volume coefficient"
BOUNDS = ["all positive wing areas, mean chords, aspect ratios, tail arms and volume coefficients"]


def tail(cls, opt, base, defaulted):
    h = cls is HStabVolumeCoefficientSizing
    side = "hstab" if h else "vstab"

    def fn(env):
        C = base if defaulted else env.inp("C", (), 1e-3, 10, base=base)
        S, a = env.pos("S", (1,), base=1000.0), env.pos("MAC" if h else "AR", (1,), base=12.0)
        arm, more = env.pos("arm", (1,), base=50.0), env.pos("more", (1,), base=5.0)
        c = env.comp(cls, symopts={} if defaulted else {opt: C})
        run = lambda l: np.array(c.run({"ac|geom|wing|S_ref": S, "ac|geom|wing|MAC" if h else "ac|geom|wing|AR": a, "ac|geom|%s|c4_to_wing_c4" % side: l})["ac|geom|%s|S_ref" % side])
        T = run(arm)
        ref = a if h else (a * S) ** 0.5  # mean chord, or span from aspect ratio and area
        env.eq("volume coefficient is recovered", T * arm, C * S * ref)
        env.gt("area is positive", T, 0)
        env.lt("a longer arm needs less tail", run(arm + more), T)
    return fn


def pair(Ch, Cv):
    """both tails sized in one model, read in SI units"""
    def build():
        m = om.Group()
        m.add_subsystem("h", HStabVolumeCoefficientSizing(**({} if Ch is None else {"C_ht": Ch})), promotes=["*"])
        m.add_subsystem("v", VStabVolumeCoefficientSizing(**({} if Cv is None else {"C_vt": Cv})), promotes=["*"])
        return m

    def fn(env):
        g = env.group(build, key=("pair", Ch, Cv), spec={"*": (1e-2, 1e4)})
        v = lambda n, u: g.val("ac|geom|" + n, u)
        S, h, t = v("wing|S_ref", "m**2"), v("hstab|S_ref", "m**2"), v("vstab|S_ref", "m**2")
        lh, lv = v("hstab|c4_to_wing_c4", "m"), v("vstab|c4_to_wing_c4", "m")
        c, AR = v("wing|MAC", "m"), v("wing|AR", None)
        env.eq("horizontal tail volume", h * lh, (1.0 if Ch is None else Ch) * S * c)
        env.eq("vertical tail volume", t * lv, (0.09 if Cv is None else Cv) * S * (AR * S) ** 0.5)
    return fn


def harnesses(tier):
    out = []
    for cls, o, b in ((HStabVolumeCoefficientSizing, "C_ht", 1.0), (VStabVolumeCoefficientSizing, "C_vt", 0.09)):
        for d in (True, False):
            out.append(Semantic("%s/%s" % (cls.__name__, "default" if d else "any coefficient"), tail(cls, o, b, d)))
    for ch, cv in ((None, None), (0.9, None), (None, 0.08), (0.75, 0.04)):
        out.append(Semantic("both tails/%s/%s" % (ch, cv), pair(ch, cv)))
    return out
