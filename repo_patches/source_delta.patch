From 88d2d5975d012d6eb354359a839fa1f81788fdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 01/21] fix: UAOverall uses the hot-side fouling resistance
 alongside the cold-side one

---
 openconcept/thermal/heat_exchanger.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/openconcept/thermal/heat_exchanger.py b/openconcept/thermal/heat_exchanger.py
index 9163dbf..1ecd878 100644
--- a/openconcept/thermal/heat_exchanger.py
+++ b/openconcept/thermal/heat_exchanger.py
@@ -907,14 +907,14 @@ class UAOverall(ExplicitComponent):
         Rc = 1 / inputs["h_conv_cold"] / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         Rfc = self.options["fouling_factor_cold"] / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         Rh = 1 / inputs["h_conv_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
-        Rfc = self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
-        outputs["UA_overall"] = 1 / (Rc + Rfc + Rh + Rfc)
+        Rfh = self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
+        outputs["UA_overall"] = 1 / (Rc + Rfc + Rh + Rfh)
 
     def compute_partials(self, inputs, J):
         Rc = 1 / inputs["h_conv_cold"] / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         Rfc = self.options["fouling_factor_cold"] / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         Rh = 1 / inputs["h_conv_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
-        Rfc = self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
+        Rfh = self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
 
         dRcdh = -1 / inputs["h_conv_cold"] ** 2 / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         dRcdA = -1 / inputs["h_conv_cold"] / inputs["heat_transfer_area_cold"] ** 2 / inputs["eta_overall_cold"]
@@ -934,12 +934,12 @@ class UAOverall(ExplicitComponent):
             -self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"] ** 2
         )
 
-        J["UA_overall", "h_conv_cold"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRcdh)
-        J["UA_overall", "heat_transfer_area_cold"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRcdA + dRfcdA)
-        J["UA_overall", "eta_overall_cold"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRcdeta + dRfcdeta)
-        J["UA_overall", "h_conv_hot"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRhdh)
-        J["UA_overall", "heat_transfer_area_hot"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRhdA + dRfhdA)
-        J["UA_overall", "eta_overall_hot"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRhdeta + dRfhdeta)
+        J["UA_overall", "h_conv_cold"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRcdh)
+        J["UA_overall", "heat_transfer_area_cold"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRcdA + dRfcdA)
+        J["UA_overall", "eta_overall_cold"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRcdeta + dRfcdeta)
+        J["UA_overall", "h_conv_hot"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRhdh)
+        J["UA_overall", "heat_transfer_area_hot"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRhdA + dRfhdA)
+        J["UA_overall", "eta_overall_hot"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRhdeta + dRfhdeta)
 
 
 class NTUMethod(ExplicitComponent):
-- 
2.43.0


From 3384c3129483a2075727a7662981f358f69a4f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 02/21] fix: AddSubtractComp keeps its units when it is set up
 again

---
 openconcept/utilities/math/add_subtract_comp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/utilities/math/add_subtract_comp.py b/openconcept/utilities/math/add_subtract_comp.py
index a699a2b..57aeaaf 100644
--- a/openconcept/utilities/math/add_subtract_comp.py
+++ b/openconcept/utilities/math/add_subtract_comp.py
@@ -209,8 +209,8 @@ class AddSubtractComp(ExplicitComponent):
                 out_shape = (vec_out_size, length)
 
             super(AddSubtractComp, self).add_output(output_name, val, shape=out_shape, **kwargs)
-            units = kwargs.pop("units", None)
-            desc = kwargs.pop("desc", "")
+            units = kwargs.get("units", None)
+            desc = kwargs.get("desc", "")
 
             for i, input_name in enumerate(input_names):
                 if multi_vec_size:
-- 
2.43.0


From c9dac6cb2c572bdd955444b3494b3ad96a87648b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 03/21] fix: broadcast operands of the vector arithmetic
 components have their partials in the right columns

---
 openconcept/utilities/math/add_subtract_comp.py    | 2 +-
 openconcept/utilities/math/multiply_divide_comp.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/utilities/math/add_subtract_comp.py b/openconcept/utilities/math/add_subtract_comp.py
index 57aeaaf..d11e096 100644
--- a/openconcept/utilities/math/add_subtract_comp.py
+++ b/openconcept/utilities/math/add_subtract_comp.py
@@ -225,7 +225,7 @@ class AddSubtractComp(ExplicitComponent):
 
                 if vec_in_size == 1:
                     # scalar input
-                    col_vals = np.zeros(vec_out_size * length)
+                    col_vals = np.tile(np.arange(0, length), vec_out_size)
                 else:
                     # vector input
                     col_vals = np.arange(0, vec_out_size * length)
diff --git a/openconcept/utilities/math/multiply_divide_comp.py b/openconcept/utilities/math/multiply_divide_comp.py
index 1e0ed16..8b7906e 100644
--- a/openconcept/utilities/math/multiply_divide_comp.py
+++ b/openconcept/utilities/math/multiply_divide_comp.py
@@ -257,7 +257,7 @@ class ElementMultiplyDivideComp(ExplicitComponent):
 
                 if vec_in_size == 1:
                     # scalar input
-                    col_vals = np.zeros(vec_out_size * length)
+                    col_vals = np.tile(np.arange(0, length), vec_out_size)
                 else:
                     # vector input
                     col_vals = np.arange(0, vec_out_size * length)
-- 
2.43.0


From fa9480646dc264252e2259a8a12bd53b1aa8d77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 04/21] fix: SimplePropeller accepts three blades

---
 openconcept/propulsion/propeller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/propulsion/propeller.py b/openconcept/propulsion/propeller.py
index 055f2b9..38ad1e5 100644
--- a/openconcept/propulsion/propeller.py
+++ b/openconcept/propulsion/propeller.py
@@ -61,7 +61,7 @@ class SimplePropeller(Group):
         if n_blades == 3:
             propmap = propeller_map_Raymer(nn)
             staticpropmap = static_propeller_map_Raymer(nn)
-        if n_blades == 4:
+        elif n_blades == 4:
             propmap = propeller_map_highpower(nn)
             staticpropmap = static_propeller_map_highpower(nn)
         else:
-- 
2.43.0


From 364e3b0bd3889cc39ea105ed428dacf39291547b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 05/21] fix: heat pipe wick resistance uses the wick
 conductivity

---
 openconcept/thermal/heat_pipe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/thermal/heat_pipe.py b/openconcept/thermal/heat_pipe.py
index d9bc53e..55547a9 100644
--- a/openconcept/thermal/heat_pipe.py
+++ b/openconcept/thermal/heat_pipe.py
@@ -270,14 +270,14 @@ class HeatPipeThermalResistance(ExplicitComponent):
         # Heat enters radially in through end of pipe (evaporator), along length of pipe, and radially out (condenser)
         # Resistance of evaporator
         log_o_i_mesh = np.log(inputs["inner_diam"] / (inputs["inner_diam"] - 2 * self.options["wick_thickness"]))
-        R_mesh_evap = log_o_i_mesh / (2 * np.pi * self.options["length_evap"] * self.options["wall_conduct"])
+        R_mesh_evap = log_o_i_mesh / (2 * np.pi * self.options["length_evap"] * self.options["wick_conduct"])
         log_o_i_pipe = np.log((inputs["inner_diam"] + 2 * inputs["wall_thickness"]) / inputs["inner_diam"])
         R_pipe_evap = log_o_i_pipe / (2 * np.pi * self.options["length_evap"] * self.options["wall_conduct"])
         R_evap = R_mesh_evap + R_pipe_evap
 
         # Resistance of condenser
         log_o_i_mesh = np.log(inputs["inner_diam"] / (inputs["inner_diam"] - 2 * self.options["wick_thickness"]))
-        R_mesh_cond = log_o_i_mesh / (2 * np.pi * self.options["length_cond"] * self.options["wall_conduct"])
+        R_mesh_cond = log_o_i_mesh / (2 * np.pi * self.options["length_cond"] * self.options["wick_conduct"])
         log_o_i_pipe = np.log((inputs["inner_diam"] + 2 * inputs["wall_thickness"]) / inputs["inner_diam"])
         R_pipe_cond = log_o_i_pipe / (2 * np.pi * self.options["length_cond"] * self.options["wall_conduct"])
         R_cond = R_mesh_cond + R_pipe_cond
-- 
2.43.0


From d9306654fed6995cc686e993cfcdbc6808a2ac96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 06/21] fix: mission profiles can be set up more than once

---
 openconcept/mission/mission_groups.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openconcept/mission/mission_groups.py b/openconcept/mission/mission_groups.py
index b9660e7..1318442 100644
--- a/openconcept/mission/mission_groups.py
+++ b/openconcept/mission/mission_groups.py
@@ -291,6 +291,12 @@ class TrajectoryGroup(om.Group):
     def __init__(self, **kwargs):
         super(TrajectoryGroup, self).__init__(**kwargs)
         self._oc_phases_to_link = []
+        self._oc_static_phases_to_link = []
+
+    def _setup_procs(self, *args):
+        # forget the links requested by a previous setup; the group's setup method requests them again
+        self._oc_phases_to_link = self._oc_static_phases_to_link.copy()
+        super(TrajectoryGroup, self)._setup_procs(*args)
 
     def _configure(self):
         super(TrajectoryGroup, self)._configure()
@@ -331,4 +337,6 @@ class TrajectoryGroup(om.Group):
         # need to cache this because the data we need isn't ready yet
         if not isinstance(phase1, PhaseGroup) or not isinstance(phase2, PhaseGroup):
             raise ValueError("link_phases phase arguments must be OpenConcept PhaseGroup objects")
+        if self._static_mode:
+            self._oc_static_phases_to_link.append((phase1, phase2, states_to_skip))
         self._oc_phases_to_link.append((phase1, phase2, states_to_skip))
-- 
2.43.0


From ef5f912a50045cab40c407d9124ae0c6e07e8d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 07/21] fix: integrator groups can be set up more than once

---
 openconcept/mission/mission_groups.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openconcept/mission/mission_groups.py b/openconcept/mission/mission_groups.py
index 1318442..d264888 100644
--- a/openconcept/mission/mission_groups.py
+++ b/openconcept/mission/mission_groups.py
@@ -212,6 +212,15 @@ class IntegratorGroup(om.Group):
         # (This IntegratorGroup is never added directly to the OM model)
         time_units = self._oc_time_units
         num_nodes = self.options["num_nodes"]
+        # if the group has been set up before, replace the previous setup's integrator and component numbering
+        if "ode_integ" in self._static_subsystems_allprocs:
+            self._problem_meta = None
+            self._setup_procs_finished = False
+            self._static_subsystems_allprocs.pop("ode_integ")
+            self._subsystems_allprocs.pop("ode_integ", None)
+            self._n_auto_comps = self._n_static_auto_comps
+        else:
+            self._n_static_auto_comps = self._n_auto_comps
         self.add_subsystem(
             "ode_integ",
             Integrator(time_setup="duration", method="simpson", diff_units=time_units, num_nodes=num_nodes),
-- 
2.43.0


From 311907c9c17ff5e505c95a353feca0841c1aa74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 08/21] fix: integrators supply time partials of constant size
 when partial integrals vanish

---
 openconcept/utilities/math/integrals.py | 39 +++++++++----------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/openconcept/utilities/math/integrals.py b/openconcept/utilities/math/integrals.py
index 8b68773..eccdb68 100644
--- a/openconcept/utilities/math/integrals.py
+++ b/openconcept/utilities/math/integrals.py
@@ -837,18 +837,10 @@ class Integrator(ExplicitComponent):
 
                 elif time_setup == "bounds":
                     if not final_only:
-                        if len(dQddtlist[0].data) == 0:
-                            J[qty_name, "t_initial"] = np.zeros(J[qty_name, "t_initial"].shape)
-                            J[qty_name, "t_final"] = np.zeros(J[qty_name, "t_final"].shape)
-                        else:
-                            J[qty_name, "t_initial"] = -dQddtlist[0].data / (num_nodes - 1)
-                            J[qty_name, "t_final"] = dQddtlist[0].data / (num_nodes - 1)
-                    if len(dQddtlist[0].getrow(-1).data) == 0:
-                        J[end_name, "t_initial"] = 0
-                        J[end_name, "t_final"] = 0
-                    else:
-                        J[end_name, "t_initial"] = -dQddtlist[0].getrow(-1).data / (num_nodes - 1)
-                        J[end_name, "t_final"] = dQddtlist[0].getrow(-1).data / (num_nodes - 1)
+                        J[qty_name, "t_initial"] = -np.squeeze(dQddtlist[0].toarray()[1:]) / (num_nodes - 1)
+                        J[qty_name, "t_final"] = np.squeeze(dQddtlist[0].toarray()[1:]) / (num_nodes - 1)
+                    J[end_name, "t_initial"] = -np.squeeze(dQddtlist[0].getrow(-1).toarray()) / (num_nodes - 1)
+                    J[end_name, "t_final"] = np.squeeze(dQddtlist[0].getrow(-1).toarray()) / (num_nodes - 1)
 
 
 class OldIntegrator(ExplicitComponent):
@@ -1197,20 +1189,15 @@ class OldIntegrator(ExplicitComponent):
 
                 elif time_setup == "bounds":
                     if not final_only:
-                        if len(dQddtlist[0].data) == 0:
-                            J["q", "t_initial"] = np.zeros(J["q", "t_initial"].shape)
-                            J["q", "t_final"] = np.zeros(J["q", "t_final"].shape)
-                        else:
-                            J["q", "t_initial"] = -dQddtlist[0].data / (num_nodes - 1)
-                            J["q", "t_final"] = dQddtlist[0].data / (num_nodes - 1)
-                    if len(dQddtlist[0].getrow(-1).data) == 0:
-                        J["q_final", "t_initial"] = 0
-                        J["q_final", "t_final"] = 0
-                    else:
-                        J["q_final", "t_initial"] = -dQddtlist[0].getrow(-1).data / (num_nodes - 1)
-                        J["q_final", "t_final"] = dQddtlist[0].getrow(-1).data / (num_nodes - 1)
+                        J["q", "t_initial"] = -np.squeeze(dQddtlist[0].toarray()[1:]) / (num_nodes - 1)
+                        J["q", "t_final"] = np.squeeze(dQddtlist[0].toarray()[1:]) / (num_nodes - 1)
+                    J["q_final", "t_initial"] = -np.squeeze(dQddtlist[0].getrow(-1).toarray()) / (num_nodes - 1)
+                    J["q_final", "t_final"] = np.squeeze(dQddtlist[0].getrow(-1).toarray()) / (num_nodes - 1)
             else:
                 for i_seg, segment_name in enumerate(segment_names):
+                    if segments_to_count is not None and segment_name not in segments_to_count:
+                        continue
+                    # the states from the segment's second point on depend on its time step
                     if not final_only:
-                        J["q", segment_name + "|dt"] = dQddtlist[i_seg].data
-                    J["q_final", segment_name + "|dt"] = dQddtlist[i_seg].getrow(-1).data
+                        J["q", segment_name + "|dt"] = np.squeeze(dQddtlist[i_seg].toarray()[i_seg * num_nodes + 1 :])
+                    J["q_final", segment_name + "|dt"] = np.squeeze(dQddtlist[i_seg].getrow(-1).toarray())
-- 
2.43.0


From ba74f25664bc911e4d3ea7a0694b4add448e5ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 09/21] fix: SeriesHybridElectricPropulsionSystem promotes
 flight conditions by their actual names

---
 openconcept/propulsion/systems/simple_series_hybrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/propulsion/systems/simple_series_hybrid.py b/openconcept/propulsion/systems/simple_series_hybrid.py
index 3700417..d7e0bfe 100644
--- a/openconcept/propulsion/systems/simple_series_hybrid.py
+++ b/openconcept/propulsion/systems/simple_series_hybrid.py
@@ -174,7 +174,7 @@ class SeriesHybridElectricPropulsionSystem(Group):
         self.add_subsystem("eng1", SimpleTurboshaft(num_nodes=nn), promotes_outputs=["fuel_flow"])
         self.add_subsystem("batt1", SimpleBattery(num_nodes=nn))
         self.add_subsystem(
-            "prop1", SimplePropeller(num_nodes=nn), promotes_inputs=["fltcond_*"], promotes_outputs=["thrust"]
+            "prop1", SimplePropeller(num_nodes=nn), promotes_inputs=["fltcond|*"], promotes_outputs=["thrust"]
         )
 
         # connect design variables to model component inputs
-- 
2.43.0


From 6de09a17353b23bc31c3f8a042ee283d0fc3233f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 10/21] fix: connect the nozzle area design variable to the
 duct of the refrigerated thermal series hybrid

---
 openconcept/propulsion/systems/thermal_series_hybrid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openconcept/propulsion/systems/thermal_series_hybrid.py b/openconcept/propulsion/systems/thermal_series_hybrid.py
index ff76f7e..2ce1e35 100644
--- a/openconcept/propulsion/systems/thermal_series_hybrid.py
+++ b/openconcept/propulsion/systems/thermal_series_hybrid.py
@@ -396,6 +396,7 @@ class TwinSeriesHybridElectricThermalPropulsionRefrigerated(Group):
         # |                                 |
         # '----- heat exchanger/duct <------'
         self.add_subsystem("duct", ExplicitIncompressibleDuct(num_nodes=nn), promotes_inputs=["fltcond|*"])
+        self.connect("area_nozzle", "duct.area_nozzle")
         self.add_subsystem(
             "hx",
             HXGroup(num_nodes=nn),
-- 
2.43.0


From 5e66efc37a926d3bd034ffdc5357e9d71e30c82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:41 +0000
Subject: [PATCH 11/21] fix: MissionWithReserve starts the climb at the takeoff
 altitude

---
 openconcept/mission/profiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/mission/profiles.py b/openconcept/mission/profiles.py
index 922dc5c..6251312 100644
--- a/openconcept/mission/profiles.py
+++ b/openconcept/mission/profiles.py
@@ -138,7 +138,7 @@ class FullMissionWithReserve(TrajectoryGroup):
         )
         climb.connect("ode_integ_phase.fltcond|h_final", "climbdt.fltcond|h_final")
         self.connect("cruise|h0", "climb.climbdt.cruise|h0")
-        if not self.include_reserve and not self.include_takeoff:  # BasicMission
+        if not self.include_takeoff:  # BasicMission and MissionWithReserve
             self.connect("takeoff|h", "climb.ode_integ_phase.fltcond|h_initial")
 
         cruise = self.add_subsystem(
-- 
2.43.0


From 8af2e56d660dbd528dfe65943b160590c10c652f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:31 +0000
Subject: [PATCH 12/21] fix: RobustRotationPhase uses its h_obstacle option

---
 openconcept/mission/phases.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/openconcept/mission/phases.py b/openconcept/mission/phases.py
index 057a719..752ddba 100644
--- a/openconcept/mission/phases.py
+++ b/openconcept/mission/phases.py
@@ -1346,10 +1346,7 @@ class RobustRotationPhase(PhaseGroup):
         self.options.declare("num_nodes", default=1)
         self.options.declare("flight_phase", default=None, desc="Phase of flight e.g. v0v1, cruise")
         self.options.declare("aircraft_model", default=None)
-        self.options.declare(
-            "h_obstacle",
-            default=10.66,
-        )
+        self.options.declare("h_obstacle", default=None, desc="Obstacle clearance height in m (default 35 ft)")
 
     def setup(self):
         nn = self.options["num_nodes"]
@@ -1369,7 +1366,12 @@ class RobustRotationPhase(PhaseGroup):
         ivcomp.add_output("fltcond|vs", val=np.zeros((nn,)), units="m/s")
         ivcomp.add_output("fltcond|cosgamma", val=np.ones((nn,)), units=None)
 
-        ivcomp.add_output("h_obstacle", val=35, units="ft")
+        if self.options["h_obstacle"] is None:
+            ivcomp.add_output("h_obstacle", val=35, units="ft")
+            obstacle_kwargs = {}
+        else:
+            ivcomp.add_output("h_obstacle", val=self.options["h_obstacle"], units="m")
+            obstacle_kwargs = {"h_obstacle": self.options["h_obstacle"]}
 
         self.add_subsystem(
             "altitudes",
@@ -1434,11 +1436,16 @@ class RobustRotationPhase(PhaseGroup):
             promotes_outputs=["gamma"],
         )
         self.add_subsystem(
-            "transition", TakeoffTransition(), promotes_outputs=["h_transition", "s_transition", "t_transition"]
+            "transition",
+            TakeoffTransition(**obstacle_kwargs),
+            promotes_outputs=["h_transition", "s_transition", "t_transition"],
         )
         self.promotes("transition", inputs=["fltcond|Utrue", "gamma"], src_indices=[0], flat_src_indices=True)
         self.add_subsystem(
-            "v2climb", TakeoffClimb(), promotes_inputs=["h_transition"], promotes_outputs=["s_climb", "t_climb"]
+            "v2climb",
+            TakeoffClimb(**obstacle_kwargs),
+            promotes_inputs=["h_transition"],
+            promotes_outputs=["s_climb", "t_climb"],
         )
         self.promotes("v2climb", inputs=["fltcond|Utrue", "gamma"], src_indices=[-1], flat_src_indices=True)
         self.add_subsystem(
-- 
2.43.0


From dd0c4ae57d78ef88f8c4d36820c9149deb6fe921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:19 +0000
Subject: [PATCH 13/21] fix: COPExplicit returned NaN when the hot and cold
 side temperatures are equal

---
 openconcept/thermal/chiller.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openconcept/thermal/chiller.py b/openconcept/thermal/chiller.py
index 505cbbc..b3843c0 100644
--- a/openconcept/thermal/chiller.py
+++ b/openconcept/thermal/chiller.py
@@ -331,9 +331,11 @@ class COPExplicit(om.ExplicitComponent):
 
     def compute(self, inputs, outputs):
         delta_T = inputs["T_h"] - inputs["T_c"]
-        COP_raw = inputs["T_c"] / (delta_T)
+        # tanh(delta_T) / delta_T tends to one as delta_T approaches zero
+        no_lift = delta_T == 0
+        tanh_ratio = np.where(no_lift, 1.0, np.tanh(delta_T) / np.where(no_lift, 1.0, delta_T))
         alpha = -1.5
-        a = COP_raw * np.tanh(delta_T) * inputs["eff_factor"] + (1 + np.tanh(-(delta_T + 3))) / 2 * 10
+        a = inputs["T_c"] * tanh_ratio * inputs["eff_factor"] + (1 + np.tanh(-(delta_T + 3))) / 2 * 10
         b = 10.0
         COP_soft = (a * np.exp(alpha * a) + b * np.exp(alpha * b)) / (np.exp(alpha * a) + np.exp(alpha * b))
         outputs["COP"] = COP_soft
-- 
2.43.0


From fc5f98437b893442c57012d8d2ca44cf5a753254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:14 +0000
Subject: [PATCH 14/21] fix: ElementMultiplyDivideComp could not be set up when
 the first operand has no units but a later one has

---
 openconcept/utilities/math/multiply_divide_comp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/utilities/math/multiply_divide_comp.py b/openconcept/utilities/math/multiply_divide_comp.py
index 8b7906e..88e4acc 100644
--- a/openconcept/utilities/math/multiply_divide_comp.py
+++ b/openconcept/utilities/math/multiply_divide_comp.py
@@ -267,12 +267,12 @@ class ElementMultiplyDivideComp(ExplicitComponent):
                 # derive the units of the output vector from the inputs
                 if input_units[i] is not None:
                     if divide[i]:
-                        if i == 0:
+                        if len(output_units_assemble) == 0:
                             output_units_assemble.append("(" + input_units[i] + ")**-1 ")
                         else:
                             output_units_assemble.append("/ (" + input_units[i] + ") ")
                     else:
-                        if i == 0:
+                        if len(output_units_assemble) == 0:
                             output_units_assemble.append(input_units[i] + " ")
                         else:
                             output_units_assemble.append("* (" + input_units[i] + ") ")
-- 
2.43.0


From 6f2539e066adf9155c07ab32149ca7db63565973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:26 +0000
Subject: [PATCH 15/21] fix: IntegratorGroup.promote_mult ignored its
 input_units argument

---
 openconcept/mission/mission_groups.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openconcept/mission/mission_groups.py b/openconcept/mission/mission_groups.py
index d264888..3c446cd 100644
--- a/openconcept/mission/mission_groups.py
+++ b/openconcept/mission/mission_groups.py
@@ -183,11 +183,15 @@ class IntegratorGroup(om.Group):
         """Helper function called during setup"""
         mult_index = self._n_auto_comps
         self._n_auto_comps += 1
+        if input_units is None:
+            input_units = [units]
+        elif isinstance(input_units, str):
+            input_units = [input_units]
         mult = ElementMultiplyDivideComp(
             output_name=prom_name,
             input_names=["_temp"],
             scaling_factor=factor,
-            input_units=[units],
+            input_units=input_units,
             vec_size=vec_size,
             length=length,
             val=val,
-- 
2.43.0


From e5a08bde1830ae31a8f4869f183a172d7152e08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:39 +0000
Subject: [PATCH 16/21] fix: OldIntegrator could not run with one node and
 zero_start

---
 openconcept/utilities/math/integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/utilities/math/integrals.py b/openconcept/utilities/math/integrals.py
index eccdb68..d07bc2f 100644
--- a/openconcept/utilities/math/integrals.py
+++ b/openconcept/utilities/math/integrals.py
@@ -1092,7 +1092,7 @@ class OldIntegrator(ExplicitComponent):
                 input_name = segment_name + "|dt"
                 dts.append(inputs[input_name][0])
         if zero_start:
-            q0 = 0
+            q0 = np.array([0.0])
         else:
             q0 = inputs["q_initial"]
         if not single_point:
-- 
2.43.0


From 75dba8f88d66165189fe73a29a4543a84694745a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:32 +0000
Subject: [PATCH 17/21] fix: a failed OpenAeroStruct run left stale training
 data cached for the new geometry

---
 .../openaerostruct/aerostructural.py          | 24 ++++++++++---------
 .../aerodynamics/openaerostruct/drag_polar.py | 12 ++++++----
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/openconcept/aerodynamics/openaerostruct/aerostructural.py b/openconcept/aerodynamics/openaerostruct/aerostructural.py
index 195be99..639c85e 100644
--- a/openconcept/aerodynamics/openaerostruct/aerostructural.py
+++ b/openconcept/aerodynamics/openaerostruct/aerostructural.py
@@ -475,17 +475,6 @@ class OASDataGen(om.ExplicitComponent):
         print(f"S = {S}; AR = {AR}; taper = {taper}; sweep = {sweep}; twist = {twist};")
         print(f"toverc = {toverc}; skin = {skin}; spar = {spar}; temp_incr = {temp_incr}")
 
-        # Copy new values to cached ones
-        OASDataGen.S[:] = S
-        OASDataGen.AR[:] = AR
-        OASDataGen.taper[:] = taper
-        OASDataGen.c4sweep[:] = sweep
-        OASDataGen.twist[:] = twist
-        OASDataGen.toverc[:] = toverc
-        OASDataGen.skin[:] = skin
-        OASDataGen.spar[:] = spar
-        OASDataGen.temp_incr[:] = temp_incr
-
         # Compute new training values
         train_in = {}
         train_in["Mach_number_grid"] = OASDataGen.Mach
@@ -509,6 +498,19 @@ class OASDataGen(om.ExplicitComponent):
         OASDataGen.failure[:] = data["failure"]
         OASDataGen.W_wing = data["W_wing"]
         OASDataGen.partials = copy(data["partials"])
+
+        # Only now that the data is available (OpenAeroStruct may raise an AnalysisError), cache the
+        # inputs it belongs to
+        OASDataGen.S[:] = S
+        OASDataGen.AR[:] = AR
+        OASDataGen.taper[:] = taper
+        OASDataGen.c4sweep[:] = sweep
+        OASDataGen.twist[:] = twist
+        OASDataGen.toverc[:] = toverc
+        OASDataGen.skin[:] = skin
+        OASDataGen.spar[:] = spar
+        OASDataGen.temp_incr[:] = temp_incr
+
         outputs["CL_train"] = OASDataGen.CL
         outputs["CD_train"] = OASDataGen.CD + CD_nonwing
         outputs["failure_train"] = OASDataGen.failure
diff --git a/openconcept/aerodynamics/openaerostruct/drag_polar.py b/openconcept/aerodynamics/openaerostruct/drag_polar.py
index 8e5e7b3..35baab4 100644
--- a/openconcept/aerodynamics/openaerostruct/drag_polar.py
+++ b/openconcept/aerodynamics/openaerostruct/drag_polar.py
@@ -507,11 +507,6 @@ class VLMDataGen(om.ExplicitComponent):
             outputs["CD_train"] = VLMDataGen.CD
             return
 
-        # Copy new values to cached ones
-        VLMDataGen.mesh[:, :, :] = mesh
-        VLMDataGen.toverc[:] = toverc
-        VLMDataGen.temp_incr[:] = temp_incr
-
         # Compute new training values
         train_in = {}
         train_in["Mach_number_grid"] = VLMDataGen.Mach
@@ -527,6 +522,13 @@ class VLMDataGen(om.ExplicitComponent):
         VLMDataGen.CL[:] = data["CL"]
         VLMDataGen.CD[:] = data["CD"]
         VLMDataGen.partials = copy(data["partials"])
+
+        # Only now that the data is available (OpenAeroStruct may raise an AnalysisError), cache the
+        # inputs it belongs to
+        VLMDataGen.mesh[:, :, :] = mesh
+        VLMDataGen.toverc[:] = toverc
+        VLMDataGen.temp_incr[:] = temp_incr
+
         outputs["CL_train"] = VLMDataGen.CL
         outputs["CD_train"] = VLMDataGen.CD
 
-- 
2.43.0


From cc668580767b0b0ab7dc42f7e7be625fddaa7925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:54 +0000
Subject: [PATCH 18/21] fix: VLMDragPolar interpolated thickness ratios at
 cosine-spaced stations for the linearly spaced trapezoidal mesh

---
 openconcept/aerodynamics/openaerostruct/drag_polar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/aerodynamics/openaerostruct/drag_polar.py b/openconcept/aerodynamics/openaerostruct/drag_polar.py
index 35baab4..2d9c328 100644
--- a/openconcept/aerodynamics/openaerostruct/drag_polar.py
+++ b/openconcept/aerodynamics/openaerostruct/drag_polar.py
@@ -303,7 +303,7 @@ class VLMDragPolar(om.Group):
             n_sections = self.options["num_sections"] if geo == "section" else 2
             self.add_subsystem(
                 "t_over_c_interp",
-                ThicknessChordRatioInterp(num_y=ny, num_sections=n_sections),
+                ThicknessChordRatioInterp(num_y=ny, num_sections=n_sections, cos_spacing=geo == "section"),
                 promotes_inputs=[("section_toverc", "ac|geom|wing|toverc")],
             )
 
-- 
2.43.0


From 43b7d00dda3935a417457400d72f1c0ceaf527e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:28 +0000
Subject: [PATCH 19/21] fix: force contours used half of each panel's area
 (back edge widths were always zero)

---
 openconcept/utilities/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/utilities/visualization.py b/openconcept/utilities/visualization.py
index 448fc47..f67e2c4 100644
--- a/openconcept/utilities/visualization.py
+++ b/openconcept/utilities/visualization.py
@@ -232,7 +232,7 @@ def plot_OAS_force_contours(
 
     # Compute the panel areas
     panel_front_widths = y_mesh[:-1, 1:] - y_mesh[:-1, :-1]
-    panel_back_widths = y_mesh[1:, 1:] - y_mesh[1:, 1:]
+    panel_back_widths = y_mesh[1:, 1:] - y_mesh[1:, :-1]
     panel_avg_widths = 0.5 * (panel_front_widths + panel_back_widths)
     panel_left_side_lengths = x_mesh[1:, :-1] - x_mesh[:-1, :-1]
     panel_right_side_lengths = x_mesh[1:, 1:] - x_mesh[:-1, 1:]
-- 
2.43.0


From fe280d62aec5bd9a121a1856248f713ecc4abbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:28 +0000
Subject: [PATCH 20/21] fix: plot_trajectory_grid raised an error without y
 labels

---
 openconcept/utilities/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/utilities/visualization.py b/openconcept/utilities/visualization.py
index f67e2c4..5c66651 100644
--- a/openconcept/utilities/visualization.py
+++ b/openconcept/utilities/visualization.py
@@ -92,7 +92,7 @@ def plot_trajectory_grid(
             if y_labels[i] is not None:
                 axs[row_no, col_no].set(ylabel=y_labels[i])
         else:
-            axs[row_no, col_no].set(y_var)
+            axs[row_no, col_no].set(ylabel=y_var)
 
         counter_within_file += 1
 
-- 
2.43.0


From 6bdf4e595833e2d2ccf386748f87edb68c0a8a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:28 +0000
Subject: [PATCH 21/21] fix: plot_trajectory_grid raised an error for a layout
 of one row or one column

---
 openconcept/utilities/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/utilities/visualization.py b/openconcept/utilities/visualization.py
index 5c66651..d4fb5f9 100644
--- a/openconcept/utilities/visualization.py
+++ b/openconcept/utilities/visualization.py
@@ -71,7 +71,7 @@ def plot_trajectory_grid(
                 # write the file
                 if savefig is not None:
                     plt.savefig(savefig + "_" + str(file_counter) + ".pdf")
-            fig, axs = plt.subplots(grid_layout[0], grid_layout[1], sharex=True, figsize=figsize)
+            fig, axs = plt.subplots(grid_layout[0], grid_layout[1], sharex=True, figsize=figsize, squeeze=False)
             file_counter += 1
             counter_within_file = 0
 
-- 
2.43.0

