from .dreg import harnesses_for

TITLE = "Propulsion, energy storage and cost models supply exact derivatives"
SPECIAL = {
    "PowerSplit": [dict(), dict(name="fixed", opts=dict(rule="fixed"))],
    "ConstantPropEfficiency": [dict(), dict(name="3", opts=dict(vec_size=3))],
    "WeightCalc": [dict(), dict(name="3 blades", opts=dict(num_blades=3)), dict(name="2 blades", opts=dict(num_blades=2)), dict(name="5 blades", opts=dict(num_blades=5))],
    "TurbopropOperatingCost": [dict(), dict(name="2 and 1", opts=dict(n_components=2, n_batteries=1)),
                               dict(name="4 and 3", opts=dict(n_components=4, n_batteries=3, aircraft_life_years=11, aircraft_daily_cycles=3, battery_replacement_cycles=700)),
                               dict(name="no battery", opts=dict(n_components=3, aircraft_life_years=20, aircraft_daily_cycles=2))],
    # below 1 um of cylinder the component switches to the spherical cap; the claim starts at 1 mm, plus the exact sphere
    "VacuumWallThickness": [dict(dom={"length": (1e-3, None), "radius": (1e-3, None)}),
                            dict(name="sphere", fixed={"length": 0.0}, dom={"radius": (1e-3, None)})],
}


def harnesses(tier):
    return harnesses_for(["openconcept.propulsion", "openconcept.energy_storage", "openconcept.costs"], tier, SPECIAL)
