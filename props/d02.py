from openconcept.utilities.constants import GRAV_CONST as G
from .dreg import harnesses_for

TITLE = "Mission and atmosphere models supply exact derivatives"
LINE = {"drag": (0, None), "lift": (0, None), "thrust": (0, None)}


def resultant(i):
    return (i["lift"] * i["fltcond|cosgamma"] + (i["thrust"] - i["drag"]) * i["fltcond|singamma"]
            - i["weight"] * G)


def inside(i):
    """the unclipped range of the vertical acceleration"""
    return [("<", -1 * i["weight"] * G, resultant(i)), ("<", resultant(i), i["weight"] * (2.5 * G))]


def outside(i):
    return [("<", i["weight"] * (2.5 * G), resultant(i))]


def below(i):
    return [("<", resultant(i), -1 * i["weight"] * G)]


SPECIAL = {"VerticalAcceleration": [dict(name="regular", pre=inside),
                                    dict(name="clipped-above", pre=outside, nns=(1,)),
                                    dict(name="clipped-below", pre=below, nns=(1,))]}


def harnesses(tier):
    return harnesses_for(["openconcept.mission", "openconcept.atmospherics"], tier, SPECIAL)
