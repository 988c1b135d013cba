"""a vehicle model with states of every kind, for the mission properties; its forces and rates are arbitrary functions"""
import numpy as np
import openmdao.api as om
from openconcept.mission import IntegratorGroup
from openconcept.utilities import Integrator

FLOW = dict(units="kg/s", tags=["integrate", "state_name:fuel_used", "state_units:kg", "state_val:1.0", "state_promotes:True"])
HEAT = dict(units="W", tags=["integrate", "state_name:heat_stored", "state_units:kJ", "state_val:0.0", "state_promotes:False"])


class Rates(om.ExplicitComponent):
    def initialize(self):
        self.options.declare("num_nodes", default=1)
        self.options.declare("outs")

    def setup(self):
        nn = self.options["num_nodes"]
        for n, u in (("fltcond|CL", None), ("fltcond|q", "Pa"), ("throttle", None)):
            self.add_input(n, units=u, shape=(nn,))
        self.add_input("ac|geom|wing|S_ref", units="m**2")
        self.add_input("ac|weights|MTOW", units="kg")
        self.add_input("ac|aero|CLmax_TO")
        for n, kw in self.options["outs"].items():
            self.add_output(n, shape=(nn,), **kw)

    def compute(self, inputs, outputs):
        pass


class Nested(om.Group):
    """integrators of the vehicle's own, in nested groups, some promoted and some not"""

    def initialize(self):
        self.options.declare("num_nodes", default=1)
        self.options.declare("extra", default=False)

    def setup(self):
        nn = self.options["num_nodes"]
        b = self.add_subsystem("batt", Integrator(num_nodes=nn, method="simpson", diff_units="s", time_setup="duration"), promotes_inputs=["duration"])
        b.add_integrand("SOC", rate_name="dSOCdt", start_name="SOC_initial", end_name="SOC_final", units=None, val=1.0, start_val=1.0)
        c = self.add_subsystem("cool", Integrator(num_nodes=nn, method="simpson", diff_units="s", time_setup="duration"))
        c.add_integrand("T", rate_name="dTdt", units="K", lower=1e-10)
        c.add_integrand("Treservoir", rate_name="dT2dt", units="K", lower=1e-10)
        if self.options["extra"]:
            d = self.add_subsystem("cruiseonly", Integrator(num_nodes=nn, method="simpson", diff_units="s", time_setup="duration"))
            d.add_integrand("wear", rate_name="dwear", units="kg")


class Vehicle(IntegratorGroup):
    """tagged rates (one promoted state, one not) and nested integrators"""
    extra = ()

    def initialize(self):
        self.options.declare("num_nodes", default=1)
        self.options.declare("flight_phase", default=None)

    def setup(self):
        nn = self.options["num_nodes"]
        self.add_subsystem("forces", Rates(num_nodes=nn, outs={"thrust": dict(units="N"), "drag": dict(units="N"), "weight": dict(units="kg"),
                                                               "fuel_flow": FLOW}), promotes=["*"])
        self.add_subsystem("losses", Rates(num_nodes=nn, outs={"q": HEAT}))
        self.add_subsystem("power", Nested(num_nodes=nn, extra=self.options["flight_phase"] in self.extra), promotes_inputs=["duration"])


class VehicleX(Vehicle):
    """an extra state that exists only while cruising and descending"""
    extra = ("cruise", "descent")


class Plain(om.Group):
    """no integrator group: one promoted integrator of its own"""

    def initialize(self):
        self.options.declare("num_nodes", default=1)
        self.options.declare("flight_phase", default=None)

    def setup(self):
        nn = self.options["num_nodes"]
        self.add_subsystem("forces", Rates(num_nodes=nn, outs={"thrust": dict(units="N"), "drag": dict(units="N"), "weight": dict(units="kg"),
                                                               "fuel_flow": dict(units="kg/s")}), promotes=["*"])
        f = self.add_subsystem("intfuel", Integrator(num_nodes=nn, method="simpson", diff_units="s", time_setup="duration"), promotes=["*"])
        f.add_integrand("fuel_used", rate_name="fuel_flow", val=1.0, units="kg")


class Hidden(Plain):
    """the same integrator, not promoted"""

    def setup(self):
        nn = self.options["num_nodes"]
        self.add_subsystem("forces", Rates(num_nodes=nn, outs={"thrust": dict(units="N"), "drag": dict(units="N"), "weight": dict(units="kg"),
                                                               "fuel_flow": dict(units="kg/s")}), promotes=["*"])
        f = self.add_subsystem("intfuel", Integrator(num_nodes=nn, method="simpson", diff_units="s", time_setup="duration"))
        f.add_integrand("fuel_used", rate_name="fuel_flow", val=1.0, units="kg")
        self.connect("fuel_flow", "intfuel.fuel_flow")


class Alike(Plain):
    """states whose names contain, start with or end with those the profiles treat specially, in and out of sub-systems"""

    def setup(self):
        super().setup()
        nn = self.options["num_nodes"]
        kw = dict(num_nodes=nn, method="simpson", diff_units="s", time_setup="duration")
        i = self.add_subsystem("more", Integrator(**kw), promotes=["*"])
        for n in ("glide_range", "range_extender_fuel", "fltcond|hmax", "sum_fltcond|Utrue", "fltcond|Utrue2"):
            i.add_integrand(n, rate_name="rate_" + n, units="m")
        j = self.add_subsystem("sub", om.Group(), promotes_inputs=["duration"])
        k = j.add_subsystem("ode", Integrator(**kw), promotes=["*"])
        for n in ("range", "fltcond|h", "fltcond|Utrue"):
            k.add_integrand(n, rate_name="rate_" + n, units="m")


KINDS = {"integrator-group": Vehicle, "phase-specific state": VehicleX, "own integrator": Plain, "hidden integrator": Hidden,
         "states named alike": Alike}
