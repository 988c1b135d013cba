from .dreg import harnesses_for

# a wick thinner than the smallest pipe of the domain
WICK = {"wick_thickness": 1.1e-4}
SPECIAL = {"HeatPipeThermalResistance": [{}, {"name": "wick", "opts": WICK, "dom": {"inner_diam": (1e-3, None), "*": (0, None)}}]}


def harnesses(tier):
    return harnesses_for(["openconcept.thermal"], tier, SPECIAL)
