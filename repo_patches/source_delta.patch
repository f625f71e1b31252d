From a2b2d8d213e56f83e0ce58308572485c66429726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:24 +0000
Subject: [PATCH 01/37] fix: keep the viscosity and external thrust in
 operating point movements

---
 pterasoftware/movement.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index 8ba9b6e..d081178 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -1332,6 +1332,8 @@ class OperatingPointMovement:
         density = self.base_operating_point.density
         alpha = self.base_operating_point.alpha
         beta = self.base_operating_point.beta
+        external_thrust = self.base_operating_point.external_thrust
+        nu = self.base_operating_point.nu
 
         # Iterate through the time steps.
         for step in range(num_steps):
@@ -1340,7 +1342,12 @@ class OperatingPointMovement:
 
             # Make a new operating point object for this time step.
             this_operating_point = operating_point.OperatingPoint(
-                density=density, velocity=velocity, alpha=alpha, beta=beta
+                density=density,
+                velocity=velocity,
+                alpha=alpha,
+                beta=beta,
+                external_thrust=external_thrust,
+                nu=nu,
             )
 
             # Add this new object to the list of operating points.
-- 
2.43.0


From bb6bcaff137742fbe677476485d6d1ff57541d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:24 +0000
Subject: [PATCH 02/37] fix: keep the planes of wings and cross sections in
 movements

---
 pterasoftware/movement.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index d081178..de40e9a 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -784,6 +784,8 @@ class WingMovement:
         symmetric = self.base_wing.symmetric
         num_chordwise_panels = self.base_wing.num_chordwise_panels
         chordwise_spacing = self.base_wing.chordwise_spacing
+        unit_normal_vector = self.base_wing.unit_normal_vector
+        unit_chordwise_vector = self.base_wing.unit_chordwise_vector
 
         # Iterate through the time steps.
         for step in range(num_steps):
@@ -801,7 +803,9 @@ class WingMovement:
                 y_le=y_le,
                 z_le=z_le,
                 wing_cross_sections=cross_sections,
+                unit_normal_vector=unit_normal_vector,
                 symmetric=symmetric,
+                unit_chordwise_vector=unit_chordwise_vector,
                 num_chordwise_panels=num_chordwise_panels,
                 chordwise_spacing=chordwise_spacing,
             )
@@ -1185,6 +1189,7 @@ class WingCrossSectionMovement:
 
         # Generate the non-changing wing cross section attributes.
         chord = self.base_wing_cross_section.chord
+        unit_normal_vector = self.base_wing_cross_section.unit_normal_vector
         airfoil = self.base_wing_cross_section.airfoil
         control_surface_deflection = self.control_surface_deflection_base
         control_surface_type = self.base_wing_cross_section.control_surface_type
@@ -1208,6 +1213,7 @@ class WingCrossSectionMovement:
                 y_le=y_le,
                 z_le=z_le,
                 chord=chord,
+                unit_normal_vector=unit_normal_vector,
                 twist=twist,
                 airfoil=airfoil,
                 control_surface_type=control_surface_type,
-- 
2.43.0


From bd2701b197e767110e2db1f201cdf74300ee54b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:24 +0000
Subject: [PATCH 03/37] fix: keep the weight and reference dimensions in
 airplane movements

---
 pterasoftware/movement.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index de40e9a..bb1d99a 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -429,6 +429,12 @@ class AirplaneMovement:
         # Generate the airplane name.
         name = self.base_airplane.name
 
+        # Generate the non-changing airplane attributes.
+        weight = self.base_airplane.weight
+        s_ref = self.base_airplane.s_ref
+        c_ref = self.base_airplane.c_ref
+        b_ref = self.base_airplane.b_ref
+
         # Iterate through the time steps.
         for step in range(num_steps):
             # Get the reference position at this time step.
@@ -439,7 +445,15 @@ class AirplaneMovement:
 
             # Make a new airplane object for this time step.
             this_airplane = geometry.Airplane(
-                name=name, x_ref=x_ref, y_ref=y_ref, z_ref=z_ref, wings=these_wings
+                name=name,
+                x_ref=x_ref,
+                y_ref=y_ref,
+                z_ref=z_ref,
+                weight=weight,
+                s_ref=s_ref,
+                c_ref=c_ref,
+                b_ref=b_ref,
+                wings=these_wings,
             )
 
             # Add this new object to the list of airplanes.
-- 
2.43.0


From 16138e5d9bdca863df1a24d4b84164cf36099c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:41 +0000
Subject: [PATCH 04/37] fix: find base cross section angles that reproduce the
 base wing

---
 pterasoftware/movement.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index bb1d99a..05b98c0 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -742,8 +742,11 @@ class WingMovement:
                     # Find the base sweep angle of this wing cross section compared
                     # to the inner wing cross section at the first time step.
                     base_wing_cross_section_sweep = (
-                        np.arctan(
-                            (this_z_le - last_z_les[0]) / (this_y_le - last_y_les[0])
+                        np.arctan2(
+                            this_z_le - last_z_les[0],
+                            np.hypot(
+                                this_x_le - last_x_les[0], this_y_le - last_y_les[0]
+                            ),
                         )
                         * 180
                         / np.pi
@@ -752,8 +755,8 @@ class WingMovement:
                     # Find the base heave angle of this wing cross section compared
                     # to the inner wing cross section at the first time step.
                     base_wing_cross_section_heave = (
-                        np.arctan(
-                            (this_x_le - last_x_les[0]) / (this_y_le - last_y_les[0])
+                        np.arctan2(
+                            this_x_le - last_x_les[0], this_y_le - last_y_les[0]
                         )
                         * 180
                         / np.pi
-- 
2.43.0


From 9a51fed724147e9a03449d2cc76f0b4a612ec5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:41 +0000
Subject: [PATCH 05/37] fix: measure base cross section spans and angles on the
 base wing

---
 pterasoftware/movement.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index 05b98c0..2650d49 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -730,22 +730,30 @@ class WingMovement:
                     last_y_les.append(last_wing_cross_section.y_le)
                     last_z_les.append(last_wing_cross_section.z_le)
 
+                # Get the inner wing cross section's base position.
+                last_base_wing_cross_section = self.wing_cross_section_movements[
+                    wing_cross_section_movement_location - 1
+                ].base_wing_cross_section
+                last_x_le = last_base_wing_cross_section.x_le
+                last_y_le = last_base_wing_cross_section.y_le
+                last_z_le = last_base_wing_cross_section.z_le
+
                 # Find the span between this wing cross section and the inner wing
                 # cross section.
                 wing_cross_section_span = np.sqrt(
-                    (this_x_le - last_x_les[0]) ** 2
-                    + (this_y_le - last_y_les[0]) ** 2
-                    + (this_z_le - last_z_les[0]) ** 2
+                    (this_x_le - last_x_le) ** 2
+                    + (this_y_le - last_y_le) ** 2
+                    + (this_z_le - last_z_le) ** 2
                 )
 
-                if this_y_le != last_y_les[0]:
+                if this_y_le != last_y_le:
                     # Find the base sweep angle of this wing cross section compared
-                    # to the inner wing cross section at the first time step.
+                    # to the inner wing cross section.
                     base_wing_cross_section_sweep = (
                         np.arctan2(
-                            this_z_le - last_z_les[0],
+                            this_z_le - last_z_le,
                             np.hypot(
-                                this_x_le - last_x_les[0], this_y_le - last_y_les[0]
+                                this_x_le - last_x_le, this_y_le - last_y_le
                             ),
                         )
                         * 180
@@ -753,10 +761,10 @@ class WingMovement:
                     )
 
                     # Find the base heave angle of this wing cross section compared
-                    # to the inner wing cross section at the first time step.
+                    # to the inner wing cross section.
                     base_wing_cross_section_heave = (
                         np.arctan2(
-                            this_x_le - last_x_les[0], this_y_le - last_y_les[0]
+                            this_x_le - last_x_le, this_y_le - last_y_le
                         )
                         * 180
                         / np.pi
-- 
2.43.0


From 42164c9826aca75a7166d03c8d4dfe845c06db9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:44 +0000
Subject: [PATCH 06/37] fix: start every run of the steady solvers from a clean
 state

---
 pterasoftware/steady_horseshoe_vortex_lattice_method.py | 3 +++
 pterasoftware/steady_ring_vortex_lattice_method.py      | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/pterasoftware/steady_horseshoe_vortex_lattice_method.py b/pterasoftware/steady_horseshoe_vortex_lattice_method.py
index 597273b..dfb3ef4 100644
--- a/pterasoftware/steady_horseshoe_vortex_lattice_method.py
+++ b/pterasoftware/steady_horseshoe_vortex_lattice_method.py
@@ -115,6 +115,9 @@ class SteadyHorseshoeVortexLatticeMethodSolver:
         )
         logging.basicConfig(level=logging_level_value)
 
+        # Clear the streamline seed points left by any previous run.
+        self.seed_points = np.empty((0, 3))
+
         # Initialize this problem's panels to have vortices congruent with this
         # solver type.
         logging.info("Initializing the panel vortices.")
diff --git a/pterasoftware/steady_ring_vortex_lattice_method.py b/pterasoftware/steady_ring_vortex_lattice_method.py
index d392b07..f95cec9 100644
--- a/pterasoftware/steady_ring_vortex_lattice_method.py
+++ b/pterasoftware/steady_ring_vortex_lattice_method.py
@@ -137,6 +137,11 @@ class SteadyRingVortexLatticeMethodSolver:
         )
         logging.basicConfig(level=logging_level_value)
 
+        # Clear the vortex strengths and streamline seed points left by any previous
+        # run.
+        self.vortex_strengths = np.ones(self.num_panels)
+        self.seed_points = np.empty((0, 3))
+
         # Initialize this problem's panels to have vortices congruent with this
         # solver type.
         logging.info("Initializing panel vortices.")
-- 
2.43.0


From 599e1acde670405529bb8481442885b2fd44f68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:44 +0000
Subject: [PATCH 07/37] fix: discard the results of earlier runs when solving
 an unsteady problem again

---
 .../unsteady_ring_vortex_lattice_method.py    | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pterasoftware/unsteady_ring_vortex_lattice_method.py b/pterasoftware/unsteady_ring_vortex_lattice_method.py
index 5f48792..41c765d 100644
--- a/pterasoftware/unsteady_ring_vortex_lattice_method.py
+++ b/pterasoftware/unsteady_ring_vortex_lattice_method.py
@@ -205,6 +205,15 @@ class UnsteadyRingVortexLatticeMethodSolver:
         )
         logging.basicConfig(level=logging_level_value)
 
+        # Clear the wake histories left by any previous run.
+        self.num_wake_ring_vortices_list = []
+        self.wake_ring_vortex_strengths_list = []
+        self.wake_ring_vortex_ages_list = []
+        self.wake_ring_vortex_front_right_vertices_list = []
+        self.wake_ring_vortex_front_left_vertices_list = []
+        self.wake_ring_vortex_back_left_vertices_list = []
+        self.wake_ring_vortex_back_right_vertices_list = []
+
         # The following loop iterates through the steps to populate currently empty
         # attributes with lists of pre-allocated arrays. During the simulation,
         # these arrays will be filled with data that describe the wake. Using this
@@ -1640,6 +1649,20 @@ class UnsteadyRingVortexLatticeMethodSolver:
 
             results_step += 1
 
+        # Clear any results from a previous solution of this problem.
+        self.unsteady_problem.final_near_field_forces_wind_axes = []
+        self.unsteady_problem.final_near_field_force_coefficients_wind_axes = []
+        self.unsteady_problem.final_near_field_moments_wind_axes = []
+        self.unsteady_problem.final_near_field_moment_coefficients_wind_axes = []
+        self.unsteady_problem.final_mean_near_field_forces_wind_axes = []
+        self.unsteady_problem.final_mean_near_field_force_coefficients_wind_axes = []
+        self.unsteady_problem.final_mean_near_field_moments_wind_axes = []
+        self.unsteady_problem.final_mean_near_field_moment_coefficients_wind_axes = []
+        self.unsteady_problem.final_rms_near_field_forces_wind_axes = []
+        self.unsteady_problem.final_rms_near_field_force_coefficients_wind_axes = []
+        self.unsteady_problem.final_rms_near_field_moments_wind_axes = []
+        self.unsteady_problem.final_rms_near_field_moment_coefficients_wind_axes = []
+
         # For each airplane object, calculate and then save the final or
         # cycle-averaged forces, moments, force coefficients, and moment coefficients.
         for airplane_id, airplane in enumerate(self.steady_problems[0].airplanes):
-- 
2.43.0


From 035eb94f720e186329ebede3c284f38d8a200d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:44 +0000
Subject: [PATCH 08/37] fix: read the unsteady solver's final loads in the
 unsteady trim analysis

---
 pterasoftware/trim.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pterasoftware/trim.py b/pterasoftware/trim.py
index d4e6bb9..4577cc5 100644
--- a/pterasoftware/trim.py
+++ b/pterasoftware/trim.py
@@ -283,12 +283,20 @@ def analyze_unsteady_trim(
 
         this_solver.run(logging_level="Critical")
 
-        force_coefficients = (
-            this_solver.unsteady_problem.final_total_near_field_force_coefficients_wind_axes
-        )
-        moment_coefficients = (
-            this_solver.unsteady_problem.final_total_near_field_moment_coefficients_wind_axes
-        )
+        if this_problem.max_period == 0:
+            force_coefficients = (
+                this_problem.final_near_field_force_coefficients_wind_axes[0]
+            )
+            moment_coefficients = (
+                this_problem.final_near_field_moment_coefficients_wind_axes[0]
+            )
+        else:
+            force_coefficients = (
+                this_problem.final_mean_near_field_force_coefficients_wind_axes[0]
+            )
+            moment_coefficients = (
+                this_problem.final_mean_near_field_moment_coefficients_wind_axes[0]
+            )
 
         net_force_coefficients = np.linalg.norm(
             force_coefficients - external_force_coefficients
-- 
2.43.0


From 0344520c77253d6e885f6be80e6997b978f767c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:12 +0000
Subject: [PATCH 09/37] fix: keep the trim analyses' global search inside the
 bounds

---
 pterasoftware/trim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pterasoftware/trim.py b/pterasoftware/trim.py
index 4577cc5..14b37a0 100644
--- a/pterasoftware/trim.py
+++ b/pterasoftware/trim.py
@@ -187,6 +187,7 @@ def analyze_steady_trim(
             maxfun=num_calls,
             minimizer_kwargs={
                 "method": "L-BFGS-B",
+                "bounds": bounds,
                 "options": {"maxfun": num_calls, "eps": 0.01},
             },
         )
@@ -353,6 +354,7 @@ def analyze_unsteady_trim(
             maxfun=num_calls,
             minimizer_kwargs={
                 "method": "L-BFGS-B",
+                "bounds": bounds,
                 "options": {"maxfun": num_calls, "eps": 0.01},
             },
         )
-- 
2.43.0


From d231e422f8f5de3cce2700292e62b05d0a45b009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:41 +0000
Subject: [PATCH 10/37] fix: keep at least one spanwise panel per section in
 convergence analyses

---
 pterasoftware/convergence.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pterasoftware/convergence.py b/pterasoftware/convergence.py
index 9d8bdea..0d9ad66 100644
--- a/pterasoftware/convergence.py
+++ b/pterasoftware/convergence.py
@@ -15,7 +15,6 @@ This module contains the following functions:
     unsteady problem."""
 
 import logging
-import math
 import time
 
 import numpy as np
@@ -204,9 +203,7 @@ def analyze_steady_convergence(
                                 / (section_standard_mean_chord * panel_aspect_ratio)
                             )
 
-                            this_num_spanwise_panels = math.ceil(
-                                this_num_spanwise_panels
-                            )
+                            this_num_spanwise_panels = max(this_num_spanwise_panels, 1)
                         else:
                             this_num_spanwise_panels = 0
 
@@ -778,9 +775,7 @@ def analyze_unsteady_convergence(
                                         )
                                     )
 
-                                    this_num_spanwise_panels = math.ceil(
-                                        this_num_spanwise_panels
-                                    )
+                                    this_num_spanwise_panels = max(this_num_spanwise_panels, 1)
                                 else:
                                     this_num_spanwise_panels = 0
 
-- 
2.43.0


From bb6654c0e724f49e26d01f3ab325b5381bbc8689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:41 +0000
Subject: [PATCH 11/37] fix: print the final loads of static unsteady problems

---
 pterasoftware/output.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/pterasoftware/output.py b/pterasoftware/output.py
index 23baf45..4ce9524 100644
--- a/pterasoftware/output.py
+++ b/pterasoftware/output.py
@@ -979,14 +979,27 @@ def print_unsteady_results(unsteady_solver):
         This is the solver object with the results to be printed.
     :return: None
     """
-    forces = unsteady_solver.unsteady_problem.final_mean_near_field_forces_wind_axes
-    moments = unsteady_solver.unsteady_problem.final_mean_near_field_moments_wind_axes
-    force_coefficients = (
-        unsteady_solver.unsteady_problem.final_mean_near_field_force_coefficients_wind_axes
-    )
-    moment_coefficients = (
-        unsteady_solver.unsteady_problem.final_mean_near_field_moment_coefficients_wind_axes
-    )
+    unsteady_problem = unsteady_solver.unsteady_problem
+
+    # Static problems have final loads instead of final cycle-averaged loads.
+    if unsteady_problem.max_period == 0:
+        forces = unsteady_problem.final_near_field_forces_wind_axes
+        moments = unsteady_problem.final_near_field_moments_wind_axes
+        force_coefficients = (
+            unsteady_problem.final_near_field_force_coefficients_wind_axes
+        )
+        moment_coefficients = (
+            unsteady_problem.final_near_field_moment_coefficients_wind_axes
+        )
+    else:
+        forces = unsteady_problem.final_mean_near_field_forces_wind_axes
+        moments = unsteady_problem.final_mean_near_field_moments_wind_axes
+        force_coefficients = (
+            unsteady_problem.final_mean_near_field_force_coefficients_wind_axes
+        )
+        moment_coefficients = (
+            unsteady_problem.final_mean_near_field_moment_coefficients_wind_axes
+        )
 
     # For each airplane object, calculate and print the average force, moment,
     # force coefficient, and moment coefficient values.
-- 
2.43.0


From ef5006c0d374a533156713556212bbf955adfb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:41 +0000
Subject: [PATCH 12/37] fix: animate scalars when only the final results were
 calculated

---
 pterasoftware/output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pterasoftware/output.py b/pterasoftware/output.py
index 4ce9524..18a9350 100644
--- a/pterasoftware/output.py
+++ b/pterasoftware/output.py
@@ -378,9 +378,9 @@ def animate(
     # Check if the user wants to show scalars on the wing panels.
     if show_scalars:
 
-        # Now iterate through each time step and gather all the scalars for its list
+        # Now iterate through each time step with results and gather all the scalars for its list
         # of airplanes. These values will be used to configure the color map.
-        for airplanes in step_airplanes:
+        for airplanes in step_airplanes[first_results_step:]:
             scalars_to_add = get_scalars(airplanes, scalar_type)
             all_scalars = np.hstack((all_scalars, scalars_to_add))
 
-- 
2.43.0


From b04df729fc01920f193b8497079b211a4b2b6b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:41 +0000
Subject: [PATCH 13/37] fix: find database airfoils whose file names have
 upper-case letters

---
 pterasoftware/geometry.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pterasoftware/geometry.py b/pterasoftware/geometry.py
index 7ed0784..287f16c 100644
--- a/pterasoftware/geometry.py
+++ b/pterasoftware/geometry.py
@@ -886,8 +886,14 @@ class Airfoil:
                 package="pterasoftware",
             )
 
+            # Find the airfoil file, whose name may have upper-case letters.
+            file_name = name + ".dat"
+            for resource in importlib.resources.files(airfoils).iterdir():
+                if resource.name.lower() == file_name:
+                    file_name = resource.name
+
             # Read the text from the airfoil file.
-            raw_text = importlib.resources.read_text(airfoils, name + ".dat")
+            raw_text = importlib.resources.read_text(airfoils, file_name)
 
             # Trim the text at the return characters.
             trimmed_text = raw_text[raw_text.find("\n") :]
-- 
2.43.0


From 6064b69e50cc8871f1541e4b00673f9c8473c822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:41 +0000
Subject: [PATCH 14/37] fix: read database airfoils whose headers are not UTF-8

---
 pterasoftware/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pterasoftware/geometry.py b/pterasoftware/geometry.py
index 287f16c..8f04c38 100644
--- a/pterasoftware/geometry.py
+++ b/pterasoftware/geometry.py
@@ -893,7 +893,9 @@ class Airfoil:
                     file_name = resource.name
 
             # Read the text from the airfoil file.
-            raw_text = importlib.resources.read_text(airfoils, file_name)
+            raw_text = importlib.resources.read_text(
+                airfoils, file_name, encoding="latin-1"
+            )
 
             # Trim the text at the return characters.
             trimmed_text = raw_text[raw_text.find("\n") :]
-- 
2.43.0


From 1b549a8226b3a1b2179d1c9edebf660c41e63631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:24 +0000
Subject: [PATCH 15/37] fix: animate scalars when only the final results were
 calculated (comment)

---
 pterasoftware/output.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pterasoftware/output.py b/pterasoftware/output.py
index 18a9350..e6fd1a2 100644
--- a/pterasoftware/output.py
+++ b/pterasoftware/output.py
@@ -378,8 +378,9 @@ def animate(
     # Check if the user wants to show scalars on the wing panels.
     if show_scalars:
 
-        # Now iterate through each time step with results and gather all the scalars for its list
-        # of airplanes. These values will be used to configure the color map.
+        # Now iterate through each time step with results and gather all the scalars
+        # for its list of airplanes. These values will be used to configure the color
+        # map.
         for airplanes in step_airplanes[first_results_step:]:
             scalars_to_add = get_scalars(airplanes, scalar_type)
             all_scalars = np.hstack((all_scalars, scalars_to_add))
-- 
2.43.0


From c4a666c716e4d3a8ad3a7eb4853f6d0f0d8274d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:01 +0000
Subject: [PATCH 16/37] fix: don't extrapolate airfoil coordinates while
 repaneling

---
 pterasoftware/geometry.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pterasoftware/geometry.py b/pterasoftware/geometry.py
index 8f04c38..3d3b47d 100644
--- a/pterasoftware/geometry.py
+++ b/pterasoftware/geometry.py
@@ -1117,6 +1117,15 @@ class Airfoil:
             x=lower_original_coordinates[:, 0], y=lower_original_coordinates[:, 1]
         )
 
+        # The interpolating functions can't be trusted outside of the airfoil's own
+        # coordinates.
+        upper_x_values = np.clip(
+            cosine_spaced_x_values, upper_func.x[0], upper_func.x[-1]
+        )
+        lower_x_values = np.clip(
+            cosine_spaced_x_values, lower_func.x[0], lower_func.x[-1]
+        )
+
         # Find the x and y coordinates of the upper and lower surfaces at each of the
         # cosine-spaced x values.
         x_coordinates = np.hstack(
@@ -1124,8 +1133,8 @@ class Airfoil:
         )
         y_coordinates = np.hstack(
             (
-                upper_func(np.flip(cosine_spaced_x_values)),
-                lower_func(cosine_spaced_x_values[1:]),
+                upper_func(np.flip(upper_x_values)),
+                lower_func(lower_x_values[1:]),
             )
         )
 
-- 
2.43.0


From 95adfae079634054b66b9dbf7fc21575472c725d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:32 +0000
Subject: [PATCH 17/37] fix: skip singular vortex influences relative to the
 geometry's scale

---
 pterasoftware/aerodynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pterasoftware/aerodynamics.py b/pterasoftware/aerodynamics.py
index 48d4ce8..06ec58d 100644
--- a/pterasoftware/aerodynamics.py
+++ b/pterasoftware/aerodynamics.py
@@ -880,7 +880,7 @@ def collapsed_velocities_from_line_vortices(
             # within machine epsilon), there is a removable discontinuity. In this
             # case, continue to the next point because there is no velocity induced
             # by the current vortex at this point.
-            if r_1 < eps or r_2 < eps or r_3**2 < eps:
+            if r_1 < eps or r_2 < eps or r_3**2 < eps * (r_1 * r_2) ** 2:
                 continue
             else:
                 c_4 = (
@@ -1011,7 +1011,7 @@ def expanded_velocities_from_line_vortices(
             # within machine epsilon), there is a removable discontinuity. In this
             # case, set the velocity components to their true values, which are 0.0
             # meters per second.
-            if r_1 < eps or r_2 < eps or r_3**2 < eps:
+            if r_1 < eps or r_2 < eps or r_3**2 < eps * (r_1 * r_2) ** 2:
                 continue
             else:
                 c_4 = (
-- 
2.43.0


From 3125237314770dc1b055eb5659dc0efb5523cf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:56 +0000
Subject: [PATCH 18/37] fix: repanel airfoils that repeat a chordwise position

---
 pterasoftware/geometry.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pterasoftware/geometry.py b/pterasoftware/geometry.py
index 3d3b47d..f49ed1a 100644
--- a/pterasoftware/geometry.py
+++ b/pterasoftware/geometry.py
@@ -1107,11 +1107,23 @@ class Airfoil:
         # Generate a cosine-spaced list of points from 0 to 1.
         cosine_spaced_x_values = functions.cosspace(0, 1, n_points_per_side)
 
+        # Some airfoils repeat a chordwise position (often at the leading edge). The
+        # interpolating functions can only use the points that lie behind all the
+        # points before them.
+        upper_original_coordinates = np.flip(upper_original_coordinates, axis=0)
+        upper_furthest_x = np.maximum.accumulate(upper_original_coordinates[:, 0])
+        lower_furthest_x = np.maximum.accumulate(lower_original_coordinates[:, 0])
+        upper_original_coordinates = upper_original_coordinates[
+            np.append(True, np.diff(upper_furthest_x) > 0)
+        ]
+        lower_original_coordinates = lower_original_coordinates[
+            np.append(True, np.diff(lower_furthest_x) > 0)
+        ]
+
         # Create interpolated functions for the x and y values of the upper and lower
         # surfaces as a function of the chord fractions
         upper_func = sp_interp.PchipInterpolator(
-            x=np.flip(upper_original_coordinates[:, 0]),
-            y=np.flip(upper_original_coordinates[:, 1]),
+            x=upper_original_coordinates[:, 0], y=upper_original_coordinates[:, 1]
         )
         lower_func = sp_interp.PchipInterpolator(
             x=lower_original_coordinates[:, 0], y=lower_original_coordinates[:, 1]
-- 
2.43.0


From 393b917b5a6490ad4ce1a533e1e8d84acefbc34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:17 +0000
Subject: [PATCH 19/37] fix: make seven malformed airfoil files readable

---
 pterasoftware/airfoils/e850.dat         |  70 ++++++++--------
 pterasoftware/airfoils/n642415.dat      | 102 ++++++++++++------------
 pterasoftware/airfoils/naca23015.dat    |   7 +-
 pterasoftware/airfoils/naca23018.dat    |   7 +-
 pterasoftware/airfoils/naca23021.dat    |   6 +-
 pterasoftware/airfoils/naca23024.dat    |   1 -
 pterasoftware/airfoils/nasasc2-0714.dat |   4 +-
 pterasoftware/airfoils/s1020.dat        |   3 +-
 8 files changed, 92 insertions(+), 108 deletions(-)

diff --git a/pterasoftware/airfoils/e850.dat b/pterasoftware/airfoils/e850.dat
index 2060f1a..e0d5da4 100644
--- a/pterasoftware/airfoils/e850.dat
+++ b/pterasoftware/airfoils/e850.dat
@@ -1,42 +1,38 @@
 EPPLER E850 AIRFOIL
-      33.0      35.0
-
- 0.0000000 0.0000000
- 0.0001300 0.0006500
- 0.0008100 0.0017900
- 0.0024400 0.0034900
- 0.0063500 0.0062100
- 0.0084500 0.0073500
- 0.0202500 0.0122400
- 0.0369200 0.0171500
- 0.0583900 0.0219600
- 0.0844500 0.0266100
- 0.1148000 0.0310500
- 0.1491300 0.0351800
- 0.1870800 0.0389400
- 0.2282200 0.0422700
- 0.2721500 0.0451100
- 0.3183900 0.0474100
- 0.3664500 0.0491400
- 0.4158300 0.0502600
- 0.4660000 0.0507500
- 0.5164400 0.0505900
- 0.5666100 0.0497800
- 0.6159700 0.0483200
- 0.6640200 0.0461800
- 0.7102301 0.0433500
- 0.7542000 0.0397600
- 0.7956300 0.0354400
- 0.8342700 0.0305100
- 0.8698900 0.0252700
- 0.9020700 0.0200700
- 0.9302700 0.0152000
- 0.9539900 0.0107000
- 0.9730200 0.0065200
- 0.9874000 0.0029700
- 0.9967200 0.0007700
  1.0000000 0.0000800
-
+ 0.9967200 0.0007700
+ 0.9874000 0.0029700
+ 0.9730200 0.0065200
+ 0.9539900 0.0107000
+ 0.9302700 0.0152000
+ 0.9020700 0.0200700
+ 0.8698900 0.0252700
+ 0.8342700 0.0305100
+ 0.7956300 0.0354400
+ 0.7542000 0.0397600
+ 0.7102301 0.0433500
+ 0.6640200 0.0461800
+ 0.6159700 0.0483200
+ 0.5666100 0.0497800
+ 0.5164400 0.0505900
+ 0.4660000 0.0507500
+ 0.4158300 0.0502600
+ 0.3664500 0.0491400
+ 0.3183900 0.0474100
+ 0.2721500 0.0451100
+ 0.2282200 0.0422700
+ 0.1870800 0.0389400
+ 0.1491300 0.0351800
+ 0.1148000 0.0310500
+ 0.0844500 0.0266100
+ 0.0583900 0.0219600
+ 0.0369200 0.0171500
+ 0.0202500 0.0122400
+ 0.0084500 0.0073500
+ 0.0063500 0.0062100
+ 0.0024400 0.0034900
+ 0.0008100 0.0017900
+ 0.0001300 0.0006500
  0.0000000 0.0000000
  0.0002100 -.0006400
  0.0010500 -.0017100
diff --git a/pterasoftware/airfoils/n642415.dat b/pterasoftware/airfoils/n642415.dat
index 8b5053a..246f7d2 100644
--- a/pterasoftware/airfoils/n642415.dat
+++ b/pterasoftware/airfoils/n642415.dat
@@ -1,52 +1,52 @@
 NACA 64(2)-415 [NACA 6a series from Theory of Wing Sections]
-100.000 0
-95.032 0.976
-90.066 1.982
-85.092 3.020
-80.109 4.062
-75.115 5.084
-70.111 6.055
-65.096 6.954
-60.072 7.762
-55.040 8.456
-50.000 9.016
-44.954 9.414
-39.904 9.614
-34.853 9.541
-29.803 9.260
-24.756 8.771
-19.714 8.066
-14.681 7.122
-9.662 5.864
-7.162 5.075
-4.673 4.121
-2.207 2.883
-0.996 2.038
-0.526 1.579
-0.299 1.291
-0 0
-0.701 -1.091
-0.974 -1.299
-1.504 -1.610
-2.793 -2.139
-5.327 -2.857
-7.838 -3.379
-10.338 -3.796
-15.319 -4.430
-20.286 -4.882
-25.244 -5.191
-30.197 -5.372
-35.147 -5.421
-40.096 -5.330
-45.046 -5.034
-50.000 -4.604
-54.960 -4.076
-59.928 -3.478
-64.904 -2.834
-69.889 -2.167
-74.885 -1.504
-79.891 -0.878
-84.908 -0.328
-89.934 0.086
-94.968 0.288
-100.000 0
+1.00000 0.00000
+0.95032 0.00976
+0.90066 0.01982
+0.85092 0.03020
+0.80109 0.04062
+0.75115 0.05084
+0.70111 0.06055
+0.65096 0.06954
+0.60072 0.07762
+0.55040 0.08456
+0.50000 0.09016
+0.44954 0.09414
+0.39904 0.09614
+0.34853 0.09541
+0.29803 0.09260
+0.24756 0.08771
+0.19714 0.08066
+0.14681 0.07122
+0.09662 0.05864
+0.07162 0.05075
+0.04673 0.04121
+0.02207 0.02883
+0.00996 0.02038
+0.00526 0.01579
+0.00299 0.01291
+0.00000 0.00000
+0.00701 -0.01091
+0.00974 -0.01299
+0.01504 -0.01610
+0.02793 -0.02139
+0.05327 -0.02857
+0.07838 -0.03379
+0.10338 -0.03796
+0.15319 -0.04430
+0.20286 -0.04882
+0.25244 -0.05191
+0.30197 -0.05372
+0.35147 -0.05421
+0.40096 -0.05330
+0.45046 -0.05034
+0.50000 -0.04604
+0.54960 -0.04076
+0.59928 -0.03478
+0.64904 -0.02834
+0.69889 -0.02167
+0.74885 -0.01504
+0.79891 -0.00878
+0.84908 -0.00328
+0.89934 0.00086
+0.94968 0.00288
+1.00000 0.00000
diff --git a/pterasoftware/airfoils/naca23015.dat b/pterasoftware/airfoils/naca23015.dat
index b65ca98..f2fa967 100644
--- a/pterasoftware/airfoils/naca23015.dat
+++ b/pterasoftware/airfoils/naca23015.dat
@@ -1,6 +1,5 @@
 NACA 23015
-1.0000     ......
-1.0000     (0.0016)
+1.0000     0.0016
 0.9500     0.0112
 0.9000     0.0204
 0.8000     0.0373
@@ -17,7 +16,6 @@ NACA 23015
 0.0500     0.0589
 0.0250     0.0444
 0.0125     0.0334
-0.0000     ......
 0.0000     0.0000
 0.0125     -0.0154
 0.0250     -0.0225
@@ -35,5 +33,4 @@ NACA 23015
 0.8000     -0.0283
 0.9000     -0.0159
 0.9500     -0.0090
-1.0000     (-0.0016)
-100.00     0.0000
+1.0000     -0.0016
diff --git a/pterasoftware/airfoils/naca23018.dat b/pterasoftware/airfoils/naca23018.dat
index 176227c..57f94d6 100644
--- a/pterasoftware/airfoils/naca23018.dat
+++ b/pterasoftware/airfoils/naca23018.dat
@@ -1,6 +1,5 @@
 NACA 23018
-1.0000     ......
-1.0000     (0.0019)
+1.0000     0.0019
 0.9500     0.0132
 0.9000     0.0239
 0.8000     0.0440
@@ -17,7 +16,6 @@ NACA 23018
 0.0500     0.0692
 0.0250     0.0529
 0.0125     0.0409
-0.0000     ......
 0.0000     0.0000
 0.0125     -0.0183
 0.0250     -0.0271
@@ -35,5 +33,4 @@ NACA 23018
 0.8000     -0.0348
 0.9000     -0.0194
 0.9500     -0.0109
-1.0000     (-0.0019)
-100.00     0.0000
+1.0000     -0.0019
diff --git a/pterasoftware/airfoils/naca23021.dat b/pterasoftware/airfoils/naca23021.dat
index c5a35c7..a0d7b58 100644
--- a/pterasoftware/airfoils/naca23021.dat
+++ b/pterasoftware/airfoils/naca23021.dat
@@ -1,6 +1,5 @@
 NACA 23021
-1.0000     ......
-1.0000     (0.0022)
+1.0000     0.0022
 0.9500     0.0153
 0.9000     0.0276
 0.8000     0.0505
@@ -17,7 +16,6 @@ NACA 23021
 0.0500     0.0793
 0.0250     0.0641
 0.0125     0.0487
-0.0000     ......
 0.0000     0.0000
 0.0125     -0.0208
 0.0250     -0.0314
@@ -35,5 +33,5 @@ NACA 23021
 0.8000     -0.0413
 0.9000     -0.0230
 0.9500     -0.0130
-1.0000     (-0.0022)
+1.0000     -0.0022
 1.0000     0.0000
diff --git a/pterasoftware/airfoils/naca23024.dat b/pterasoftware/airfoils/naca23024.dat
index e388c98..abdedc4 100644
--- a/pterasoftware/airfoils/naca23024.dat
+++ b/pterasoftware/airfoils/naca23024.dat
@@ -1,5 +1,4 @@
 NACA 23024
-1.00000     .......
 0.95036     0.01724
 0.90064     0.03115
 0.80116     0.05687
diff --git a/pterasoftware/airfoils/nasasc2-0714.dat b/pterasoftware/airfoils/nasasc2-0714.dat
index f73bbff..3f8b7c5 100644
--- a/pterasoftware/airfoils/nasasc2-0714.dat
+++ b/pterasoftware/airfoils/nasasc2-0714.dat
@@ -1,6 +1,4 @@
-SC(2)-0714 Supercritical airfoil (coordinates from Raymer w/ one correction)
-These coordinates are actual model coordinates, not coordinates as designed.
-From NASA TP-2890 
+SC(2)-0714 Supercritical airfoil (coordinates from Raymer w/ one correction) These coordinates are actual model coordinates, not coordinates as designed. From NASA TP-2890
 1.000  -.0104
 0.99    -.0071
 0.98    -.0039
diff --git a/pterasoftware/airfoils/s1020.dat b/pterasoftware/airfoils/s1020.dat
index c057b68..6f434ea 100644
--- a/pterasoftware/airfoils/s1020.dat
+++ b/pterasoftware/airfoils/s1020.dat
@@ -1,5 +1,4 @@
-Ornithopter airfoil.
-S1020
+S1020 Ornithopter airfoil.
      1.00000   0.00000
      0.99637   0.00132
      0.98633   0.00544
-- 
2.43.0


From 101b1b30bddd868342e035b494c0887fd34cefc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:10 +0000
Subject: [PATCH 20/37] fix: count the force on each chordwise ring vortex leg
 once

Both panels beside a chordwise leg took the full force on it, so the total
force differed from the Kutta-Joukowski force on the wing's net circulation.
---
 .../steady_ring_vortex_lattice_method.py          | 15 +++++++++------
 .../unsteady_ring_vortex_lattice_method.py        | 15 +++++++++------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/pterasoftware/steady_ring_vortex_lattice_method.py b/pterasoftware/steady_ring_vortex_lattice_method.py
index f95cec9..1c2e324 100644
--- a/pterasoftware/steady_ring_vortex_lattice_method.py
+++ b/pterasoftware/steady_ring_vortex_lattice_method.py
@@ -499,13 +499,14 @@ class SteadyRingVortexLatticeMethodSolver:
                         ]
 
                         # Change the effective right vortex line strength from zero
-                        # to the difference between this panel's ring vortex's
+                        # to half of the difference between this panel's ring vortex's
                         # strength, and the ring vortex strength of the panel to the
-                        # right of it.
+                        # right of it. The panel to the right accounts for the other
+                        # half of the force on the leg that they share.
                         effective_right_vortex_line_strengths[global_panel_position] = (
                             self.vortex_strengths[global_panel_position]
                             - panel_to_right.ring_vortex.strength
-                        )
+                        ) / 2
 
                     # Check if this panel is on its wing's leading edge.
                     if panel.is_leading_edge:
@@ -549,12 +550,14 @@ class SteadyRingVortexLatticeMethodSolver:
                         ]
 
                         # Change the effective left vortex line strength from zero to
-                        # the difference between this panel's ring vortex's strength,
-                        # and the ring vortex strength of the panel to the left of it.
+                        # half of the difference between this panel's ring vortex's
+                        # strength, and the ring vortex strength of the panel to the
+                        # left of it. The panel to the left accounts for the other
+                        # half of the force on the leg that they share.
                         effective_left_vortex_line_strengths[global_panel_position] = (
                             self.vortex_strengths[global_panel_position]
                             - panel_to_left.ring_vortex.strength
-                        )
+                        ) / 2
 
                     # Increment the global panel position.
                     global_panel_position += 1
diff --git a/pterasoftware/unsteady_ring_vortex_lattice_method.py b/pterasoftware/unsteady_ring_vortex_lattice_method.py
index 41c765d..76ada00 100644
--- a/pterasoftware/unsteady_ring_vortex_lattice_method.py
+++ b/pterasoftware/unsteady_ring_vortex_lattice_method.py
@@ -912,13 +912,14 @@ class UnsteadyRingVortexLatticeMethodSolver:
                         ]
 
                         # Change the effective right vortex line strength from zero
-                        # to the difference between this panel's ring vortex's
+                        # to half of the difference between this panel's ring vortex's
                         # strength, and the ring vortex strength of the panel to the
-                        # right of it.
+                        # right of it. The panel to the right accounts for the other
+                        # half of the force on the leg that they share.
                         effective_right_vortex_line_strengths[global_panel_position] = (
                             self.current_vortex_strengths[global_panel_position]
                             - panel_to_right.ring_vortex.strength
-                        )
+                        ) / 2
 
                     # Check if this panel is on its wing's leading edge.
                     if panel.is_leading_edge:
@@ -962,12 +963,14 @@ class UnsteadyRingVortexLatticeMethodSolver:
                         ]
 
                         # Change the effective left vortex line strength from zero to
-                        # the difference between this panel's ring vortex's strength,
-                        # and the ring vortex strength of the panel to the left of it.
+                        # half of the difference between this panel's ring vortex's
+                        # strength, and the ring vortex strength of the panel to the
+                        # left of it. The panel to the left accounts for the other
+                        # half of the force on the leg that they share.
                         effective_left_vortex_line_strengths[global_panel_position] = (
                             self.current_vortex_strengths[global_panel_position]
                             - panel_to_left.ring_vortex.strength
-                        )
+                        ) / 2
 
                     # Increment the global panel position.
                     global_panel_position += 1
-- 
2.43.0


From 7f0ca173429daa3bcdd24ecaa07adeabb30b7cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:36 +0000
Subject: [PATCH 21/37] fix: skip singular vortex influences at points within
 rounding of a vortex's end

With a free wake, a wake vertex that missed the end of a neighbouring vortex by
rounding errors was thrown up to 1e14 meters away.
---
 pterasoftware/aerodynamics.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pterasoftware/aerodynamics.py b/pterasoftware/aerodynamics.py
index 06ec58d..a6e8b5f 100644
--- a/pterasoftware/aerodynamics.py
+++ b/pterasoftware/aerodynamics.py
@@ -66,6 +66,7 @@ lamb = 1.25643
 # Set the value of the local machine error. This will be used to fix removable
 # discontinuities in the induced velocity functions.
 eps = np.finfo(float).eps
+sqrt_eps = math.sqrt(eps)
 
 
 class LineVortex:
@@ -880,7 +881,11 @@ def collapsed_velocities_from_line_vortices(
             # within machine epsilon), there is a removable discontinuity. In this
             # case, continue to the next point because there is no velocity induced
             # by the current vortex at this point.
-            if r_1 < eps or r_2 < eps or r_3**2 < eps * (r_1 * r_2) ** 2:
+            if (
+                r_1 <= sqrt_eps * r_0
+                or r_2 <= sqrt_eps * r_0
+                or r_3**2 < eps * (r_1 * r_2) ** 2
+            ):
                 continue
             else:
                 c_4 = (
@@ -1011,7 +1016,11 @@ def expanded_velocities_from_line_vortices(
             # within machine epsilon), there is a removable discontinuity. In this
             # case, set the velocity components to their true values, which are 0.0
             # meters per second.
-            if r_1 < eps or r_2 < eps or r_3**2 < eps * (r_1 * r_2) ** 2:
+            if (
+                r_1 <= sqrt_eps * r_0
+                or r_2 <= sqrt_eps * r_0
+                or r_3**2 < eps * (r_1 * r_2) ** 2
+            ):
                 continue
             else:
                 c_4 = (
-- 
2.43.0


From 3f97985a340634bc20ba65b134a6b82e38b6f5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:29 +0000
Subject: [PATCH 22/37] fix: analyze convergence on wings with the reference
 wings' planes and chordwise directions

---
 pterasoftware/convergence.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pterasoftware/convergence.py b/pterasoftware/convergence.py
index 0d9ad66..c690323 100644
--- a/pterasoftware/convergence.py
+++ b/pterasoftware/convergence.py
@@ -215,6 +215,9 @@ def analyze_steady_convergence(
                                 y_le=ref_wing_cross_section.y_le,
                                 z_le=ref_wing_cross_section.z_le,
                                 chord=ref_wing_cross_section.chord,
+                                unit_normal_vector=(
+                                    ref_wing_cross_section.unit_normal_vector
+                                ),
                                 twist=ref_wing_cross_section.twist,
                                 control_surface_type=ref_wing_cross_section.control_surface_type,
                                 control_surface_hinge_point=ref_wing_cross_section.control_surface_hinge_point,
@@ -238,7 +241,11 @@ def analyze_steady_convergence(
                             x_le=ref_wing.x_le,
                             y_le=ref_wing.y_le,
                             z_le=ref_wing.z_le,
+                            unit_normal_vector=ref_wing.unit_normal_vector,
                             symmetric=ref_wing.symmetric,
+                            unit_chordwise_vector=(
+                                ref_wing.unit_chordwise_vector
+                            ),
                             chordwise_spacing=ref_wing.chordwise_spacing,
                             # These values change.
                             num_chordwise_panels=num_chordwise_panels,
@@ -801,6 +808,9 @@ def analyze_unsteady_convergence(
                                     y_le=ref_base_wing_cross_section.y_le,
                                     z_le=ref_base_wing_cross_section.z_le,
                                     chord=ref_base_wing_cross_section.chord,
+                                    unit_normal_vector=(
+                                        ref_base_wing_cross_section.unit_normal_vector
+                                    ),
                                     twist=ref_base_wing_cross_section.twist,
                                     control_surface_type=ref_base_wing_cross_section.control_surface_type,
                                     control_surface_hinge_point=ref_base_wing_cross_section.control_surface_hinge_point,
@@ -856,7 +866,11 @@ def analyze_unsteady_convergence(
                                 x_le=ref_base_wing.x_le,
                                 y_le=ref_base_wing.y_le,
                                 z_le=ref_base_wing.z_le,
+                                unit_normal_vector=ref_base_wing.unit_normal_vector,
                                 symmetric=ref_base_wing.symmetric,
+                                unit_chordwise_vector=(
+                                    ref_base_wing.unit_chordwise_vector
+                                ),
                                 chordwise_spacing=ref_base_wing.chordwise_spacing,
                                 # These values change.
                                 num_chordwise_panels=num_chordwise_panels,
-- 
2.43.0


From 938868de80a37e456ad4539991656deb5281b903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:37 +0000
Subject: [PATCH 23/37] fix: save animations of simulations with time steps
 longer than a second

The frame rate was rounded down to a whole number, so it was zero for time steps
longer than a second, and the labelled speed was not the true one otherwise.
---
 pterasoftware/output.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pterasoftware/output.py b/pterasoftware/output.py
index e6fd1a2..7585d05 100644
--- a/pterasoftware/output.py
+++ b/pterasoftware/output.py
@@ -35,7 +35,6 @@ This module contains the following functions:
     plot_scalars: This function plots a scalar bar, the mesh panels with a particular
     set of scalars, and labels for the minimum and maximum scalar values."""
 
-import math
 import time
 
 import matplotlib.pyplot as plt
@@ -340,7 +339,7 @@ def animate(
     speed = 1
     if requested_fps > 50:
         speed = 50 / requested_fps
-    actual_fps = math.floor(requested_fps * speed)
+    actual_fps = requested_fps * speed
 
     # Initialize the plotter and get the color map.
     plotter = pv.Plotter(window_size=window_size, lighting=None)
-- 
2.43.0


From abc8d2dc5ca3e04809cd0f82d8d70f547c36b25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:46 +0000
Subject: [PATCH 24/37] fix: draw simulations with a single time step and no
 wake yet

---
 pterasoftware/output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pterasoftware/output.py b/pterasoftware/output.py
index 7585d05..e21042f 100644
--- a/pterasoftware/output.py
+++ b/pterasoftware/output.py
@@ -155,8 +155,8 @@ def draw(
         airplanes = solver.steady_problems[draw_step].airplanes
 
         # If the user wants to show the wake ring vortices, then get their surfaces and
-        # plot them.
-        if show_wake_vortices:
+        # plot them. There are none yet if the simulation only has one time step.
+        if show_wake_vortices and draw_step > 0:
             wake_ring_vortex_surfaces = get_wake_ring_vortex_surfaces(solver, draw_step)
             plotter.add_mesh(
                 wake_ring_vortex_surfaces,
-- 
2.43.0


From aef084ddb6acae87e0ad29ea48f5cd8ec0c5144d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:42 +0000
Subject: [PATCH 25/37] fix: accept wings whose directions are perpendicular to
 within rounding

The plane checks compared products of floats with exactly zero, so almost every
wing whose symmetry plane or chordwise direction isn't aligned with the axes was
refused.
---
 pterasoftware/geometry.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pterasoftware/geometry.py b/pterasoftware/geometry.py
index f49ed1a..37eead2 100644
--- a/pterasoftware/geometry.py
+++ b/pterasoftware/geometry.py
@@ -291,8 +291,11 @@ class Wing:
                 "the wing's leading edge."
             )
 
-        # Check that the wing's chordwise and normal directions are perpendicular.
-        if np.dot(self.unit_chordwise_vector, self.unit_normal_vector) != 0:
+        # Check that the wing's chordwise and normal directions are perpendicular (to
+        # within rounding).
+        if not np.isclose(
+            np.dot(self.unit_chordwise_vector, self.unit_normal_vector), 0
+        ):
             raise Exception(
                 "Every wing cross section's plane must intersect with the wing's "
                 "symmetry plane along a line that is parallel with the wing's "
@@ -318,9 +321,11 @@ class Wing:
                 self.unit_normal_vector, wing_cross_section.unit_normal_vector
             )
 
-            # If this vector is not parallel to the wing's chordwise vector, raise an
-            # exception.
-            if np.any(np.cross(plane_intersection_vector, self.unit_chordwise_vector)):
+            # If this vector is not parallel to the wing's chordwise vector (to within
+            # rounding), raise an exception.
+            if not np.allclose(
+                np.cross(plane_intersection_vector, self.unit_chordwise_vector), 0
+            ):
                 raise Exception(
                     "Every wing cross section's plane must intersect with the wing's "
                     "symmetry plane along a line that is parallel with the wing's "
-- 
2.43.0


From 152ea42a819a3185af4d7ba3408187723f7e3714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:45 +0000
Subject: [PATCH 26/37] fix: Use the documented defaults of the previous cross
 section's leading edge

WingCrossSectionMovement.generate_wing_cross_sections documents 0.0 meters as the
default of last_x_les, last_y_les and last_z_les, but leaving any of them out raised
a TypeError because None can't be added to an array.
---
 pterasoftware/movement.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index 2650d49..c76e77b 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -1003,9 +1003,9 @@ class WingCrossSectionMovement:
         self,
         num_steps=10,
         delta_time=0.1,
-        last_x_les=None,
-        last_y_les=None,
-        last_z_les=None,
+        last_x_les=0.0,
+        last_y_les=0.0,
+        last_z_les=0.0,
         wing_is_vertical=False,
         cross_section_span=0.0,
         cross_section_sweep=0.0,
-- 
2.43.0


From 6cc23b2f696cd958c9853efb64ee8809c9f2ce85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:45 +0000
Subject: [PATCH 27/37] fix: State the actual defaults of the unsteady
 convergence bounds

---
 pterasoftware/convergence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pterasoftware/convergence.py b/pterasoftware/convergence.py
index c690323..d679e25 100644
--- a/pterasoftware/convergence.py
+++ b/pterasoftware/convergence.py
@@ -547,7 +547,7 @@ def analyze_unsteady_convergence(
         and the num_chords_bounds parameter will control the wake lengths instead.
         Reasonable values range from 1 to 10, depending strongly on the Strouhal
         number. The first value must be less than or equal to the second value. The
-        default value is (1, 4).
+        default value is (2, 4).
     :param num_chords_bounds: tuple, optional
         This parameter determines the range of wake lengths, measured in number of
         reference chords the wake should extend to. If the problem has variable
@@ -561,7 +561,7 @@ def analyze_unsteady_convergence(
         body-frame-y length divided by the average body-frame-x width. Historically,
         these values range between 5 and 1. Values above 5 can be uses for a coarser
         mesh, but the minimum value should not be less than 1. The first value must
-        be greater than or equal to the second value. The default value is ( , 1).
+        be greater than or equal to the second value. The default value is (4, 1).
     :param num_chordwise_panels_bounds: tuple, optional
         This parameter determines the range of each wing section's number of
         chordwise panels from smallest to largest. The first value must be less than
-- 
2.43.0


From f05ace2e73db765733c2cb6d5f7181a40be9b8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:17 +0000
Subject: [PATCH 28/37] fix: measure section lengths along the wing's span in
 the convergence analyses

---
 pterasoftware/convergence.py | 40 +++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/pterasoftware/convergence.py b/pterasoftware/convergence.py
index d679e25..ad251c9 100644
--- a/pterasoftware/convergence.py
+++ b/pterasoftware/convergence.py
@@ -183,17 +183,19 @@ def analyze_steady_convergence(
                             next_ref_wing_cross_section = ref_wing_cross_sections[
                                 ref_wing_cross_section_id + 1
                             ]
-                            # ToDo: Modify this to allow for new geometry with custom
-                            #  planes for the wing cross sections. As of now,
-                            #  it fails for vertical wings.
-                            section_length = (
-                                next_ref_wing_cross_section.y_le
-                                - ref_wing_cross_section.y_le
+                            # The section's length is measured along the wing's
+                            # span, so that it's positive for wings to either side
+                            # and for vertical wings.
+                            section_length = abs(
+                                np.dot(
+                                    next_ref_wing_cross_section.leading_edge
+                                    - ref_wing_cross_section.leading_edge,
+                                    ref_wing.unit_normal_vector,
+                                )
                             )
                             root_chord = ref_wing_cross_section.chord
                             tip_chord = next_ref_wing_cross_section.chord
-                            section_area = section_length * (root_chord + tip_chord) / 2
-                            section_standard_mean_chord = section_area / section_length
+                            section_standard_mean_chord = (root_chord + tip_chord) / 2
 
                             # As we can't directly specify the panel aspect ratio,
                             # calculate the number of spanwise panels that
@@ -758,21 +760,21 @@ def analyze_unsteady_convergence(
                                             ref_wing_cross_section_movement_id + 1
                                         ].base_wing_cross_section
                                     )
-                                    # ToDo: Modify this to allow for new geometry
-                                    #  with custom planes for the wing cross
-                                    #  sections. As of now, it fails for vertical wings.
-                                    section_length = (
-                                        next_ref_base_wing_cross_section.y_le
-                                        - ref_base_wing_cross_section.y_le
+                                    # The section's length is measured along the
+                                    # wing's span, so that it's positive for wings to
+                                    # either side and for vertical wings.
+                                    section_length = abs(
+                                        np.dot(
+                                            next_ref_base_wing_cross_section.leading_edge
+                                            - ref_base_wing_cross_section.leading_edge,
+                                            ref_base_wing.unit_normal_vector,
+                                        )
                                     )
                                     root_chord = ref_base_wing_cross_section.chord
                                     tip_chord = next_ref_base_wing_cross_section.chord
-                                    section_area = (
-                                        section_length * (root_chord + tip_chord) / 2
-                                    )
                                     section_standard_mean_chord = (
-                                        section_area / section_length
-                                    )
+                                        root_chord + tip_chord
+                                    ) / 2
 
                                     this_num_spanwise_panels = round(
                                         (section_length * num_chordwise_panels)
-- 
2.43.0


From dc18fa60c589f9c9c0dec78a30e21992aa9647de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:02 +0000
Subject: [PATCH 29/37] fix: run the example that the GUI's menu entry names

---
 main.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/main.py b/main.py
index 36000a0..eea724c 100644
--- a/main.py
+++ b/main.py
@@ -48,12 +48,13 @@ class MainWindow(QMainWindow, Ui_MainWindowDesign):
         self.displayText = ""
 
     def exampleMenu(self, ex_num):
+        # The menu lists the examples in alphabetical order. The order of os.listdir is
+        # arbitrary, and it also lists what isn't an example, such as __init__.py.
         files = []
-        for i, filename in enumerate(os.listdir("examples")):
-            f = "examples." + filename
-            files.append(f)
+        for filename in sorted(os.listdir("examples")):
+            if filename.endswith(".py") and filename != "__init__.py":
+                files.append("examples." + filename[: -len(".py")])
         file = files[ex_num]
-        file = file.replace(".py", "")
         self.printTerminalOutput(f"Example {ex_num + 1} executed")
         print(file)
         importlib.import_module(file)
-- 
2.43.0


From 2737f83ccc4c563121f42b02baf0d29e14a64f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:02 +0000
Subject: [PATCH 30/37] fix: run an example again when it is chosen again in
 the GUI

---
 main.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/main.py b/main.py
index eea724c..4e83dde 100644
--- a/main.py
+++ b/main.py
@@ -57,7 +57,11 @@ class MainWindow(QMainWindow, Ui_MainWindowDesign):
         file = files[ex_num]
         self.printTerminalOutput(f"Example {ex_num + 1} executed")
         print(file)
-        importlib.import_module(file)
+        # Importing a module a second time doesn't run it again, so reload it.
+        if file in sys.modules:
+            importlib.reload(sys.modules[file])
+        else:
+            importlib.import_module(file)
 
     def printTerminalOutput(self, text):
         print("Printing terminal output")
-- 
2.43.0


From 06e44b308dacbd9796e078d97c2b0e19e36ddd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:02 +0000
Subject: [PATCH 31/37] fix: pass only the text to the GUI's terminal list

---
 main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.py b/main.py
index 4e83dde..bb09594 100644
--- a/main.py
+++ b/main.py
@@ -70,7 +70,7 @@ class MainWindow(QMainWindow, Ui_MainWindowDesign):
 
     def updateDisplayText(self, text):
         self.displayText = text
-        self.printTerminalOutput(self, text)
+        self.printTerminalOutput(text)
 
     def menuREADME(self):
         from PySide6.QtGui import QTextDocument
-- 
2.43.0


From 35164f85c5cd2f9c97b637c3402b0ccbca7ea8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:02 +0000
Subject: [PATCH 32/37] fix: load the splash picture under its file's name

---
 main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.py b/main.py
index bb09594..bceaf91 100644
--- a/main.py
+++ b/main.py
@@ -95,7 +95,7 @@ class MainWindow(QMainWindow, Ui_MainWindowDesign):
 
 if __name__ == "__main__":
     app = QApplication(sys.argv)
-    pixmap = QPixmap("docs/logo.png")
+    pixmap = QPixmap("docs/Logo.png")
     splash = QSplashScreen(pixmap)
     splash.setWindowFlags(Qt.WindowStaysOnTopHint)
     splash.setEnabled(False)
-- 
2.43.0


From 707f35c5de0c41697edf9f8d649bb66119db63c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:44 +0000
Subject: [PATCH 33/37] fix: base the length of the horseshoe vortices' legs on
 the wing's leading edge

---
 pterasoftware/functions.py                    | 34 +++++++++++++++++++
 .../steady_horseshoe_vortex_lattice_method.py |  5 ++-
 .../steady_ring_vortex_lattice_method.py      |  5 ++-
 3 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/pterasoftware/functions.py b/pterasoftware/functions.py
index 13dfa83..c3ec442 100644
--- a/pterasoftware/functions.py
+++ b/pterasoftware/functions.py
@@ -47,6 +47,9 @@ This module contains the following functions:
 
     interp_between_points: This function finds the MxN points between M pairs of
     points in 3D space given an array of N normalized spacings.
+
+    calculate_infinite_leg_length: This function finds a suitable length for the
+    "infinite" legs of the horseshoe vortices on a wing.
 """
 
 import logging
@@ -755,3 +758,34 @@ def interp_between_points(start_points, end_points, norm_spacings):
             points[i, j, :] = start_point + spacing
 
     return points
+
+
+def calculate_infinite_leg_length(wing):
+    """This function finds a suitable length for the "infinite" legs of the horseshoe
+    vortices on a wing.
+
+    The length is based on the length of the wing's leading edge instead of its span,
+    as the span is zero for wings that don't extend along their unit normal vector (
+    such as vertical wings with the default unit normal vector).
+
+    :param wing: Wing
+        This is the wing with the horseshoe vortices.
+    :return infinite_leg_length: float
+        This is the length of the legs. At twenty-times the length of the wing's
+        leading edge, these legs are essentially infinite. The units are meters.
+    """
+    leading_edge_length = 0
+
+    for inner_wing_cross_section, outer_wing_cross_section in zip(
+        wing.wing_cross_sections[:-1], wing.wing_cross_sections[1:]
+    ):
+        leading_edge_length += np.linalg.norm(
+            outer_wing_cross_section.leading_edge
+            - inner_wing_cross_section.leading_edge
+        )
+
+    # If the wing is symmetric, include the mirrored half's leading edge.
+    if wing.symmetric:
+        leading_edge_length *= 2
+
+    return leading_edge_length * 20
diff --git a/pterasoftware/steady_horseshoe_vortex_lattice_method.py b/pterasoftware/steady_horseshoe_vortex_lattice_method.py
index dfb3ef4..9d0fb2b 100644
--- a/pterasoftware/steady_horseshoe_vortex_lattice_method.py
+++ b/pterasoftware/steady_horseshoe_vortex_lattice_method.py
@@ -169,9 +169,8 @@ class SteadyHorseshoeVortexLatticeMethodSolver:
             for wing in airplane.wings:
 
                 # Find a suitable length for the "infinite" legs of the horseshoe
-                # vortices on this wing. At twenty-times the wing's span, these legs
-                # are essentially infinite.
-                infinite_leg_length = wing.span * 20
+                # vortices on this wing.
+                infinite_leg_length = functions.calculate_infinite_leg_length(wing)
 
                 # Iterate through the wing's chordwise and spanwise panel positions.
                 for chordwise_position in range(wing.num_chordwise_panels):
diff --git a/pterasoftware/steady_ring_vortex_lattice_method.py b/pterasoftware/steady_ring_vortex_lattice_method.py
index 1c2e324..fef7406 100644
--- a/pterasoftware/steady_ring_vortex_lattice_method.py
+++ b/pterasoftware/steady_ring_vortex_lattice_method.py
@@ -204,9 +204,8 @@ class SteadyRingVortexLatticeMethodSolver:
             for wing in airplane.wings:
 
                 # Find a suitable length for the "infinite" legs of the horseshoe
-                # vortices on this wing. At twenty-times the wing's span, these legs
-                # are essentially infinite.
-                infinite_leg_length = wing.span * 20
+                # vortices on this wing.
+                infinite_leg_length = functions.calculate_infinite_leg_length(wing)
 
                 # Iterate through the wing's chordwise and spanwise positions.
                 for chordwise_position in range(wing.num_chordwise_panels):
-- 
2.43.0


From 0a81fc0cb5d407ea619187ac4aabadece0f6f7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:25 +0000
Subject: [PATCH 34/37] fix: oppose the unsteady force on each panel to the
 growth of its vortex's strength

A positive ring vortex induces flow along the panel's normal, so the potential above the
panel is lower than below it by the strength, and by the unsteady Bernoulli equation
growing strength pushes the panel against its normal. The lift of a plunging slender wing
now follows Theodorsen's theory.
---
 pterasoftware/unsteady_ring_vortex_lattice_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pterasoftware/unsteady_ring_vortex_lattice_method.py b/pterasoftware/unsteady_ring_vortex_lattice_method.py
index 76ada00..a4e701d 100644
--- a/pterasoftware/unsteady_ring_vortex_lattice_method.py
+++ b/pterasoftware/unsteady_ring_vortex_lattice_method.py
@@ -1021,7 +1021,7 @@ class UnsteadyRingVortexLatticeMethodSolver:
         unsteady_near_field_forces_geometry_axes = (
             self.current_operating_point.density
             * np.expand_dims(
-                (self.current_vortex_strengths - self.last_panel_vortex_strengths),
+                (self.last_panel_vortex_strengths - self.current_vortex_strengths),
                 axis=1,
             )
             * np.expand_dims(self.panel_areas, axis=1)
-- 
2.43.0


From fbb7b2b5c2dd37f41333eaa1b7e34e158a0c295c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:41 +0000
Subject: [PATCH 35/37] fix: let panels calculate the velocity that their
 vortices induce

Panel.calculate_normalized_induced_velocity and Panel.calculate_induced_velocity called
methods that vortices did not have.
---
 pterasoftware/aerodynamics.py | 84 +++++++++++++++++++++++++++++++++++
 1 file changed, 84 insertions(+)

diff --git a/pterasoftware/aerodynamics.py b/pterasoftware/aerodynamics.py
index a6e8b5f..ef23380 100644
--- a/pterasoftware/aerodynamics.py
+++ b/pterasoftware/aerodynamics.py
@@ -111,6 +111,12 @@ class HorseshoeVortex:
         update_strength: This method updates the strength of this horseshoe vortex
         object, and the strength of its legs line vortex objects.
 
+        calculate_normalized_induced_velocity: This method calculates the velocity
+        induced at a point by this vortex, assuming a unit vortex strength.
+
+        calculate_induced_velocity: This method calculates the velocity induced at a
+        point by this vortex with its given vortex strength.
+
     This class contains the following class attributes:
         None
 
@@ -188,6 +194,43 @@ class HorseshoeVortex:
         self.finite_leg.strength = strength
         self.left_leg.strength = strength
 
+    def calculate_normalized_induced_velocity(self, point):
+        """This method calculates the velocity induced at a point by this vortex,
+        assuming a unit vortex strength.
+
+        :param point: 1D array of floats
+            This is a vector containing the x, y, and z coordinates of the point to
+            find the induced velocity at. The units are meters.
+        :return: 1D array of floats
+            This is a vector containing the x, y, and z components of the induced
+            velocity. The units are 1 / meters.
+        """
+        return collapsed_velocities_from_horseshoe_vortices(
+            points=np.array([point], dtype=float),
+            back_right_vortex_vertices=np.array([self.right_leg_origin], dtype=float),
+            front_right_vortex_vertices=np.array([self.finite_leg_origin], dtype=float),
+            front_left_vortex_vertices=np.array(
+                [self.finite_leg_termination], dtype=float
+            ),
+            back_left_vortex_vertices=np.array(
+                [self.left_leg_termination], dtype=float
+            ),
+            strengths=np.ones(1),
+        )[0]
+
+    def calculate_induced_velocity(self, point):
+        """This method calculates the velocity induced at a point by this vortex with
+        its given vortex strength.
+
+        :param point: 1D array of floats
+            This is a vector containing the x, y, and z coordinates of the point to
+            find the induced velocity at. The units are meters.
+        :return: 1D array of floats
+            This is a vector containing the x, y, and z components of the induced
+            velocity. The units are meters per second.
+        """
+        return self.strength * self.calculate_normalized_induced_velocity(point=point)
+
 
 class RingVortex:
     """This class is used to contain ring vortices.
@@ -199,6 +242,12 @@ class RingVortex:
         update_position: This method updates the position of the ring vortex, and the
         positions of all its attributes.
 
+        calculate_normalized_induced_velocity: This method calculates the velocity
+        induced at a point by this vortex, assuming a unit vortex strength.
+
+        calculate_induced_velocity: This method calculates the velocity induced at a
+        point by this vortex with its given vortex strength.
+
     This class contains the following class attributes:
         None
 
@@ -340,6 +389,41 @@ class RingVortex:
             self.back_right_vertex,
         )
 
+    def calculate_normalized_induced_velocity(self, point):
+        """This method calculates the velocity induced at a point by this vortex,
+        assuming a unit vortex strength.
+
+        :param point: 1D array of floats
+            This is a vector containing the x, y, and z coordinates of the point to
+            find the induced velocity at. The units are meters.
+        :return: 1D array of floats
+            This is a vector containing the x, y, and z components of the induced
+            velocity. The units are 1 / meters.
+        """
+        return collapsed_velocities_from_ring_vortices(
+            points=np.array([point], dtype=float),
+            back_right_vortex_vertices=np.array([self.back_right_vertex], dtype=float),
+            front_right_vortex_vertices=np.array(
+                [self.front_right_vertex], dtype=float
+            ),
+            front_left_vortex_vertices=np.array([self.front_left_vertex], dtype=float),
+            back_left_vortex_vertices=np.array([self.back_left_vertex], dtype=float),
+            strengths=np.ones(1),
+        )[0]
+
+    def calculate_induced_velocity(self, point):
+        """This method calculates the velocity induced at a point by this vortex with
+        its given vortex strength.
+
+        :param point: 1D array of floats
+            This is a vector containing the x, y, and z coordinates of the point to
+            find the induced velocity at. The units are meters.
+        :return: 1D array of floats
+            This is a vector containing the x, y, and z components of the induced
+            velocity. The units are meters per second.
+        """
+        return self.strength * self.calculate_normalized_induced_velocity(point=point)
+
 
 @njit(cache=True, fastmath=False)
 def collapsed_velocities_from_horseshoe_vortices(
-- 
2.43.0


From aff6c77b9f2ab097f3540f0fbd3494b9c33ead9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:17 +0000
Subject: [PATCH 36/37] fix: solve the current flight state when a steady
 solver runs again

---
 pterasoftware/steady_horseshoe_vortex_lattice_method.py | 6 ++++++
 pterasoftware/steady_ring_vortex_lattice_method.py      | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/pterasoftware/steady_horseshoe_vortex_lattice_method.py b/pterasoftware/steady_horseshoe_vortex_lattice_method.py
index 9d0fb2b..8ef76d5 100644
--- a/pterasoftware/steady_horseshoe_vortex_lattice_method.py
+++ b/pterasoftware/steady_horseshoe_vortex_lattice_method.py
@@ -118,6 +118,12 @@ class SteadyHorseshoeVortexLatticeMethodSolver:
         # Clear the streamline seed points left by any previous run.
         self.seed_points = np.empty((0, 3))
 
+        # Find the freestream velocity of the current flight state, which may have
+        # changed since this solver was created or last run.
+        self.freestream_velocity = (
+            self.operating_point.calculate_freestream_velocity_geometry_axes()
+        )
+
         # Initialize this problem's panels to have vortices congruent with this
         # solver type.
         logging.info("Initializing the panel vortices.")
diff --git a/pterasoftware/steady_ring_vortex_lattice_method.py b/pterasoftware/steady_ring_vortex_lattice_method.py
index fef7406..92cd147 100644
--- a/pterasoftware/steady_ring_vortex_lattice_method.py
+++ b/pterasoftware/steady_ring_vortex_lattice_method.py
@@ -142,6 +142,12 @@ class SteadyRingVortexLatticeMethodSolver:
         self.vortex_strengths = np.ones(self.num_panels)
         self.seed_points = np.empty((0, 3))
 
+        # Find the freestream velocity of the current flight state, which may have
+        # changed since this solver was created or last run.
+        self.freestream_velocity = (
+            self.operating_point.calculate_freestream_velocity_geometry_axes()
+        )
+
         # Initialize this problem's panels to have vortices congruent with this
         # solver type.
         logging.info("Initializing panel vortices.")
-- 
2.43.0


From cbe45a031519fae4ee598b35bdbf27c835c458cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:18 +0000
Subject: [PATCH 37/37] fix: discard the vortices that another solver left on
 the panels

---
 pterasoftware/steady_horseshoe_vortex_lattice_method.py | 3 +++
 pterasoftware/steady_ring_vortex_lattice_method.py      | 3 +++
 pterasoftware/unsteady_ring_vortex_lattice_method.py    | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/pterasoftware/steady_horseshoe_vortex_lattice_method.py b/pterasoftware/steady_horseshoe_vortex_lattice_method.py
index 8ef76d5..5871dd2 100644
--- a/pterasoftware/steady_horseshoe_vortex_lattice_method.py
+++ b/pterasoftware/steady_horseshoe_vortex_lattice_method.py
@@ -184,6 +184,9 @@ class SteadyHorseshoeVortexLatticeMethodSolver:
                         # Pull the panel object out of the wing's list of panels.
                         panel = wing.panels[chordwise_position, spanwise_position]
 
+                        # Discard the ring vortex left by another solver.
+                        panel.ring_vortex = None
+
                         # Find the location of the panel's front and right vortex
                         # vertices.
                         front_left_vortex_vertex = panel.front_left_vortex_vertex
diff --git a/pterasoftware/steady_ring_vortex_lattice_method.py b/pterasoftware/steady_ring_vortex_lattice_method.py
index 92cd147..5897aa9 100644
--- a/pterasoftware/steady_ring_vortex_lattice_method.py
+++ b/pterasoftware/steady_ring_vortex_lattice_method.py
@@ -220,6 +220,9 @@ class SteadyRingVortexLatticeMethodSolver:
                         # Pull the panel object out of the wing's list of panels.
                         panel = wing.panels[chordwise_position, spanwise_position]
 
+                        # Discard the horseshoe vortex left by another solver.
+                        panel.horseshoe_vortex = None
+
                         # Find the location of the panel's front left and right
                         # vortex vertices.
                         front_left_vortex_vertex = panel.front_left_vortex_vertex
diff --git a/pterasoftware/unsteady_ring_vortex_lattice_method.py b/pterasoftware/unsteady_ring_vortex_lattice_method.py
index a4e701d..5e88f13 100644
--- a/pterasoftware/unsteady_ring_vortex_lattice_method.py
+++ b/pterasoftware/unsteady_ring_vortex_lattice_method.py
@@ -517,6 +517,9 @@ class UnsteadyRingVortexLatticeMethodSolver:
                             # Get the panel object from the wing's list of panels.
                             panel = wing.panels[chordwise_position, spanwise_position]
 
+                            # Discard the horseshoe vortex left by another solver.
+                            panel.horseshoe_vortex = None
+
                             # Find the location of the panel's front left and right
                             # vortex vertices.
                             front_left_vortex_vertex = panel.front_left_vortex_vertex
-- 
2.43.0

