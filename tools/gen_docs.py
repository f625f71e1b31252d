"""Writes properties.jsonl and MANIFEST.json from the list below and the check modules."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, "/repo"]
P = "pterasoftware/"
G, M, A, MV, OP = P + "geometry.py", P + "meshing.py", P + "aerodynamics.py", P + "movement.py", P + "operating_point.py"
PN, PR, SH, SR, UR = (P + "panel.py", P + "problems.py", P + "steady_horseshoe_vortex_lattice_method.py",
                      P + "steady_ring_vortex_lattice_method.py", P + "unsteady_ring_vortex_lattice_method.py")
F, O, T, C = P + "functions.py", P + "output.py", P + "trim.py", P + "convergence.py"
TESTS = "The unit tests construct three vortex objects; the integration tests run about ten fixed scenes and compare lift and drag with loose (5 to 15 %) references. "

# id: title, statement, over, text, why, anchors [(file, name)], observe_at
PROPS = {
    "C01": ("Wing meshes reproduce the defined geometry",
            "The panels of every wing reproduce the wing defined by its sections: leading-edge positions, chords, twists, section planes, camber lines and symmetry plane, with the requested number and spacing (uniform or cosine) of chordwise and spanwise panels. "
            "Neighbouring panels share their corners exactly where the surface is continuous, and the edge flags mark exactly the leading, trailing, left and right edges.",
            ["inputs"], "every wing: any sections, twists, offsets, spacings, panel counts, symmetry plane, airfoils",
            TESTS + "No test looks at a mesh; fixtures have two or three wings without twist about arbitrary planes.",
            [(M, "mesh_wing"), (M, "get_wing_section_panel_vertices"), (G, "Wing")], ["Wing.panels", "Panel corner attributes and edge flags"]),
    "C02": ("Symmetric wings mesh as exact mirror images",
            "The two halves of a symmetric wing are mirror images of one another about the wing's symmetry plane, wherever that plane is. "
            "Control surfaces of the symmetric kind deflect alike on both halves and those of the asymmetric kind deflect oppositely.",
            ["inputs"], "every symmetric wing and every mix of control surface types",
            TESTS + "No fixture uses an asymmetric control surface or an inclined plane, and no test compares the halves.",
            [(M, "mesh_wing"), (F, "reflect_point_across_plane"), (G, "Airfoil.add_control_surface")], ["Wing.panels"]),
    "C03": ("Panel geometry follows from its four corners",
            "Every quantity a panel derives (legs, vortex and collocation points, area, normal, average span and chord, projected area) is the stated function of its four corners. "
            "It moves, turns and scales with them.",
            ["inputs"], "every quadrilateral panel, planar or warped, of any size and position",
            TESTS + "No test constructs a panel directly.", [(PN, "Panel")], ["Panel properties"]),
    "C04": ("Reference areas, spans and chords describe the main wing",
            "Projected and wetted areas, span, standard and aerodynamic mean chords of a wing equal those of the geometry that was defined, symmetric or not. "
            "An airplane takes its reference dimensions from its first wing, the main wing, unless they are given, and then exactly those given are used.",
            ["inputs", "configurations"], "every wing, every order of wings in an airplane, every subset of overridden references",
            TESTS + "Reference dimensions enter only through loose coefficient bounds of two fixtures.",
            [(G, "Wing.projected_area"), (G, "Wing.span"), (G, "Wing.mean_aerodynamic_chord"), (G, "Airplane.set_reference_dimensions_from_main_wing")], ["Wing and Airplane attributes"]),
    "C05": ("Airfoil names yield the named outline",
            "Every valid four-digit code yields the published NACA outline and mean camber line, and every shipped airfoil name, in any letter case, yields the outline of that file. "
            "Repaneling keeps the shape and gives the requested number of points, and names that exist nowhere are refused.",
            ["inputs"], "all four-digit codes, all shipped airfoil files, all point counts",
            TESTS + "The fixtures use four airfoils.",
            [(G, "Airfoil.populate_coordinates"), (G, "Airfoil.populate_mcl_coordinates"), (G, "Airfoil.repanel_current_airfoil"), (G, "Airfoil.get_downsampled_mcl")], ["Airfoil.coordinates", "Airfoil.mcl_coordinates"]),
    "C06": ("Control surfaces rotate rigidly about their hinge",
            "Deflecting a control surface turns the outline aft of the hinge rigidly about the camber line's hinge point by the deflection, positive down, and leaves the part ahead of the hinge as it was. "
            "The original airfoil is not changed, and zero deflection changes nothing.",
            ["inputs", "histories"], "every airfoil, deflection and hinge position, and deflections applied in sequence",
            TESTS + "No test deflects a control surface and looks at the result.",
            [(G, "Airfoil.add_control_surface")], ["Airfoil.coordinates", "Airfoil.mcl_coordinates"]),
    "C07": ("Induced velocities follow the Biot-Savart law",
            "The velocity that line, horseshoe and ring vortices induce at any point is the Biot-Savart sum of their straight segments, with the stated finite core where age and viscosity are given, and stays finite everywhere. "
            "The expanded and collapsed forms agree, velocities are linear in strength and independent of the frame and unit of length, and a panel's own induced velocity is that of the vortices it holds.",
            ["inputs"], "every vortex shape, point (on, near, far), strength, age and viscosity",
            TESTS + "The vortex unit tests check constructor attributes, not velocities.",
            [(A, "collapsed_velocities_from_line_vortices"), (A, "expanded_velocities_from_line_vortices"), (A, "collapsed_velocities_from_ring_vortices"), (A, "collapsed_velocities_from_horseshoe_vortices"), (A, "collapsed_velocities_from_ring_vortices_chordwise_segments")], ["velocities returned by pterasoftware.aerodynamics"]),
    "C08": ("Vortex objects stay consistent under any updates",
            "After any sequence of strength and position updates a vortex object is indistinguishable from one newly built with the latest values. "
            "All of its legs share its strength and corners, and its centre, centres and vectors follow.",
            ["histories"], "every sequence of updates of every vortex object",
            "The unit tests try one strength update and one position update each from one construction, never a sequence.",
            [(A, "HorseshoeVortex.update_strength"), (A, "RingVortex.update_strength"), (A, "RingVortex.update_position")], ["RingVortex and HorseshoeVortex attributes"]),
    "C09": ("Operating points define consistent wind axes",
            "The freestream direction and velocity and the wind-to-geometry rotation are the stated functions of speed, angle of attack and sideslip; the rotation is proper and orthogonal, and the dynamic pressure is half density times speed squared. "
            "They follow when the operating point is changed.",
            ["inputs", "histories"], "every speed, density, angle of attack and sideslip, and every order of changing them",
            TESTS + "Fixtures fly at two small angles of attack and no test uses large sideslip.",
            [(OP, "OperatingPoint.calculate_rotation_matrix_wind_to_geometry"), (OP, "OperatingPoint.calculate_freestream_direction_geometry_axes"), (OP, "OperatingPoint.calculate_dynamic_pressure")], ["OperatingPoint methods"]),
    "C10": ("Steady horseshoe solutions satisfy the flow equations",
            "At the steady horseshoe solver's solution no flow passes through any panel at its collocation point, whatever airplanes, wings and flight state are solved. "
            "Every wing, vertical ones included, trails legs along the wind far downstream, and every panel's force and moment is that of the Kutta-Joukowski law on its bound vortex in that flow.",
            ["inputs", "configurations"], "every set of airplanes and every flight state",
            TESTS + "The solver is run on one symmetric airplane and one multi-wing airplane.",
            [(SH, "run"), (SH, "calculate_wing_wing_influences"), (SH, "calculate_near_field_forces_and_moments"), (F, "process_steady_solver_forces")], ["panel forces, moments and strengths after run()"]),
    "C11": ("Steady ring solutions satisfy the flow equations",
            "At the steady ring solver's solution no flow passes through any panel at its collocation point, with trailing edge strengths carried far downstream in the wake of every wing, vertical ones included, whatever airplanes, wings and flight state are solved. "
            "Every panel's force and moment is that of the Kutta-Joukowski law on its ring's legs, each shared leg counted once.",
            ["inputs", "configurations"], "every set of airplanes and every flight state",
            TESTS + "The solver is run on one symmetric airplane and one multi-wing airplane.",
            [(SR, "run"), (SR, "calculate_wing_wing_influences"), (SR, "calculate_near_field_forces_and_moments"), (F, "update_ring_vortex_solvers_panel_attributes"), (F, "process_steady_solver_forces")], ["panel forces, moments and strengths after run()"]),
    "C12": ("Total loads and coefficients add up in wind axes",
            "An airplane's total force and moment are the sums of its own panels' loads in wind axes, the moment about its own moment reference point. "
            "The coefficients are those loads divided by dynamic pressure and its own reference dimensions, for every solver.",
            ["inputs", "configurations"], "every formation, moment reference point and reference dimensions, every solver",
            TESTS + "The tests use a single airplane with default references and check two of six coefficients.",
            [(F, "process_steady_solver_forces"), (F, "process_unsteady_solver_forces"), (PN, "Panel.update_coefficients")], ["Airplane totals and coefficients"]),
    "C13": ("Loads respect the symmetries of physics",
            "Mirroring, shifting or rescaling a problem, turning airplane and wind together, or rescaling speed and density, transforms the loads as physics demands; the order in which wings and airplanes are listed, company too far away to matter, sections inserted where nothing changes and other descriptions of the same panels do not alter them. "
            "Small control deflections change loads only a little.",
            ["inputs", "configurations"], "every configuration, flight state and solver, and every such transformation",
            TESTS + "No test relates two runs to one another.",
            [(SH, "run"), (SR, "run"), (UR, "run"), (A, "collapsed_velocities_from_line_vortices"), (M, "mesh_wing")], ["Airplane loads and coefficients"]),
    "C14": ("Solving again gives the same answer as solving anew",
            "After any sequence of runs of any solvers on shared problem objects, each run's results equal those of the same run on newly built objects. "
            "Logging, streamlines and earlier results leave no trace in later ones.",
            ["histories"], "every sequence of runs, re-runs, flight state changes and streamline drawings",
            TESTS + "Each test runs each solver once on new objects.",
            [(SH, "run"), (SR, "run"), (UR, "run"), (SR, "initialize_panel_vortices")], ["solver and airplane results after each operation"]),
    "C15": ("Motions follow their oscillation laws at every step",
            "At every time step every moving quantity of airplanes, wings, sections and operating points equals its base value plus the stated sine, triangle or custom law of its own amplitude, period and spacing at that time. "
            "Quantities without amplitude keep their base value.",
            ["inputs"], "every amplitude, period, spacing, time step and number of steps, for every moving quantity in any combination",
            TESTS + "Two motions are simulated and no test looks at a snapshot's position.",
            [(MV, "oscillating_sinspace"), (MV, "oscillating_linspace"), (MV, "oscillating_customspace"), (MV, "AirplaneMovement.generate_airplanes"), (MV, "OperatingPointMovement.generate_operating_points")], ["Movement.airplanes", "Movement.operating_points"]),
    "C16": ("Flapping sections move as rigid sections do",
            "At every step each section of a flapping wing sits where its sweeping and heaving put it relative to its inboard neighbour, keeps its spanwise distance and chord and pitches by its own law. "
            "At zero displacement the snapshot reproduces the base wing, and the mesh of each snapshot is the mesh of the displaced wing.",
            ["inputs"], "every planform and every combination of sweep, pitch and heave of the sections",
            TESTS + "One flapping planform is simulated; its geometry is never compared.",
            [(MV, "WingCrossSectionMovement.generate_wing_cross_sections"), (MV, "WingMovement.generate_wings")], ["Movement.airplanes[...][...].wings sections and panels"]),
    "C17": ("Movements keep what does not move and leave the base alone",
            "Every snapshot has every attribute of its base object that no motion changes, and is made of wings, sections and panels of its own. "
            "Building, solving and averaging a movement leave the base objects as they were.",
            ["inputs", "configurations"], "every base definition and every motion",
            TESTS + "No test compares a snapshot with its base; fixtures leave most attributes at their defaults.",
            [(MV, "AirplaneMovement.generate_airplanes"), (MV, "WingMovement.generate_wings"), (MV, "WingCrossSectionMovement.generate_wing_cross_sections"), (MV, "OperatingPointMovement.generate_operating_points")], ["Movement snapshots and base objects"]),
    "C18": ("Time steps follow the documented rules",
            "The number of steps, the time step and the longest period that a movement uses are the requested ones or follow from cycles, chords, airspeed and mesh as documented, whichever moving quantity has the longest period. "
            "Contradictory or insufficient requests are refused.",
            ["inputs", "configurations"], "every combination of requested steps, cycles, chords and time steps, motions and airspeeds",
            TESTS + "The fixtures use three combinations.",
            [(MV, "Movement.__init__"), (MV, "Movement.get_max_period")], ["Movement.num_steps, delta_time, get_max_period()"]),
    "C19": ("Final loads are those of the last step or cycle",
            "A static problem's final loads are those of its last step; a moving problem's final means and root mean squares are taken over exactly the steps of its last full cycle. "
            "They hold for every airplane and do not depend on only keeping final results.",
            ["inputs", "configurations"], "every period, time step, number of steps, moving quantity and formation",
            TESTS + "One period and one time step are simulated and averages compared loosely.",
            [(PR, "UnsteadyProblem.__init__"), (UR, "finalize_near_field_forces_and_moments")], ["UnsteadyProblem.final_*"]),
    "C20": ("The wake is the record of the shed vorticity",
            "At every step each wing's wake has one row of rings per step flown and one ring per spanwise panel, newest first; each new row carries the trailing edge strengths of the previous step, and strengths never change afterwards while ages grow by the time step. "
            "The wake attaches to the current trailing edge and neighbouring rings share corners.",
            ["histories", "configurations"], "every step of every simulation of every formation and motion, prescribed or free wake",
            TESTS + "The wake is only drawn, never compared.",
            [(UR, "populate_next_airplanes_wake"), (UR, "populate_next_airplanes_wake_vortices")], ["solver.wake_ring_vortex_*_list", "Wing.wake_ring_vortices"]),
    "C21": ("Wake vertices convect with the flow",
            "From each step to the next every wake vertex moves by the time step times the flow velocity: the freestream of that step if the wake is prescribed, the full local velocity if it is free. "
            "Every vertex at every step is covered, for all wings and airplanes.",
            ["histories", "configurations"], "every step of every simulation of every formation and motion",
            TESTS + "Wake positions are never compared.",
            [(UR, "populate_next_airplanes_wake_vortex_vertices"), (UR, "calculate_solution_velocity")], ["Wing.wake_ring_vortex_vertices"]),
    "C22": ("Unsteady solutions satisfy no-penetration at every step",
            "At every time step of every simulation no flow passes through any panel at its collocation point, counting freestream, bound and wake vortices and the panel's own motion. "
            "Wings with any motion and any number of airplanes are included.",
            ["histories", "configurations"], "every step of every simulation",
            TESTS + "Six fixed simulations are compared by two averaged coefficients.",
            [(UR, "calculate_vortex_strengths"), (UR, "calculate_wake_wing_influences"), (UR, "calculate_freestream_wing_influences"), (UR, "calculate_current_flapping_velocities_at_collocation_points")], ["ring strengths at every step"]),
    "C23": ("Unsteady loads follow the unsteady Kutta-Joukowski law",
            "At every time step every panel's force is the sum of the vortex forces on its ring's legs in the flow relative to the moving legs, each shared leg counted once, and the apparent-mass force of unsteady Bernoulli, along the panel's normal and opposite to the growth of its strength; its moment follows about the airplane's own reference point. "
            "The first step and every airplane and wing are included.",
            ["histories", "configurations"], "every step of every simulation",
            TESTS + "Six fixed simulations are compared by two averaged coefficients within wide bounds.",
            [(UR, "calculate_near_field_forces_and_moments"), (UR, "calculate_current_flapping_velocities_at_right_leg_centers"), (F, "process_unsteady_solver_forces"), (F, "update_ring_vortex_solvers_panel_attributes")], ["panel and airplane loads at every step"]),
    "C24": ("Keeping only final results changes no result",
            "A simulation told to keep only final results gives the same final loads, wake and strengths as the full simulation, and the same loads at every step it reports. "
            "It reports at least the steps its averages need.",
            ["configurations", "histories"], "every simulation, with and without the restriction",
            TESTS + "No test compares the two modes.",
            [(UR, "run"), (UR, "finalize_near_field_forces_and_moments")], ["loads, wakes and UnsteadyProblem.final_*"]),
    "C25": ("Steady convergence returns the first converged mesh",
            "The steady convergence analysis visits meshes in the documented order, judges each by the largest relative change, from its coarser neighbours, of the magnitude of any airplane's force or moment coefficients, and returns the first mesh that meets the criterion in both parameters, or none. "
            "Every mesh it asks for is the reference geometry with only the panel counts changed.",
            ["histories", "inputs"], "every sequence of answers the solver could give, every bound, criterion and reference problem",
            TESTS + "One reference airplane with one answer sequence per solver is tried.",
            [(C, "analyze_steady_convergence")], ["returned parameters, problems passed to the solver"]),
    "C26": ("Unsteady convergence returns the first converged parameters",
            "The unsteady convergence analysis visits wake models, wake lengths and meshes in the documented order, judges each by the largest unmasked relative change of final coefficients and returns the first combination that meets the criterion in every parameter, or none. "
            "Every simulation it asks for is the reference movement with only those parameters changed.",
            ["histories", "inputs"], "every sequence of answers, every bound, mask, criterion and reference movement",
            TESTS + "Two reference movements with one answer sequence each are tried.",
            [(C, "analyze_unsteady_convergence")], ["returned parameters, problems passed to the solver"]),
    "C27": ("Steady trim returns a trimmed state or nothing",
            "The steady trim analysis evaluates only flight states within the bounds, stops at the first whose net force and moment coefficients (weight and thrust included) meet the criterion and returns exactly that state, or returns no state. "
            "Airplane, thrust and flight state it does not vary stay as given.",
            ["histories", "inputs"], "every sequence of states an optimizer could visit and of loads the solver could answer",
            TESTS + "One trimmable airplane is trimmed once.",
            [(T, "analyze_steady_trim")], ["returned state, states passed to the solver"]),
    "C28": ("Unsteady trim returns a trimmed state or nothing",
            "The unsteady trim analysis evaluates only flight states within the bounds, judges each by the final (static) or cycle-averaged (moving) loads, stops at the first that meets the criterion and returns exactly that state, or returns no state. "
            "The simulated movement is the given one at that flight state.",
            ["histories", "inputs"], "every sequence of states an optimizer could visit and of loads the solver could answer",
            TESTS + "No test runs the unsteady trim analysis.",
            [(T, "analyze_unsteady_trim")], ["returned state, movements passed to the solver"]),
    "C29": ("Drawings and animations show the solved geometry and scalars",
            "Every drawing and every frame of every animation shows exactly the panels, wake rings and streamlines of that step, each panel with its own load coefficient in one colour scale for all frames, and a legend with the true extremes. "
            "Saving writes the stated file once, and drawing changes no result.",
            ["inputs", "configurations", "histories"], "every solver, scene, drawing option and step",
            "Tests draw two scenes with the solvers' outputs and look at nothing but that no error is raised.",
            [(O, "draw"), (O, "animate"), (O, "get_panel_surfaces"), (O, "get_wake_ring_vortex_surfaces"), (O, "get_scalars"), (O, "plot_scalars")], ["meshes, scalars and colour limits handed to the plotter"]),
    "C30": ("Printed and plotted loads are the solved loads",
            "The printed tables and the plotted time histories show, for each airplane and under its own name, exactly the forces, moments and coefficients that the solver found, with the stated signs and units. "
            "Saved figures go to the stated files.",
            ["inputs", "configurations"], "every solver, formation and motion",
            "Tests call the printing and plotting functions on two scenes and look at nothing but that no error is raised.",
            [(O, "plot_results_versus_time"), (O, "print_steady_results"), (O, "print_unsteady_results")], ["text on stdout, lines, titles and labels handed to matplotlib"]),
    "C31": ("Streamlines follow the solved velocity field",
            "Streamlines start at the middle of every trailing edge panel edge and each step moves by the time step times the solved velocity at its point, for every solver and any length and step. "
            "Drawing them changes no result.",
            ["inputs", "configurations"], "every solver, scene, streamline length and time step",
            TESTS + "Streamlines are drawn in one test and never compared.",
            [(F, "calculate_streamlines"), (SH, "calculate_solution_velocity"), (SR, "calculate_solution_velocity"), (UR, "calculate_solution_velocity")], ["solver.streamline_points"]),
    "C32": ("Malformed requests are refused and valid ones accepted",
            "Every documented restriction on wings, sections, movements, analyses and logging is enforced for every combination of arguments: requests that break one are refused before anything is computed, and requests that keep all of them are accepted. "
            "Refusal leaves the given objects as they were.",
            ["inputs", "configurations"], "every combination of valid and invalid arguments of the public constructors and analyses",
            TESTS + "No test passes an invalid argument.",
            [(G, "Wing.__init__"), (G, "WingCrossSection.__init__"), (MV, "WingMovement.__init__"), (MV, "WingCrossSectionMovement.__init__"), (C, "analyze_steady_convergence"), (T, "analyze_steady_trim"), (F, "convert_logging_level_name_to_value")], ["exceptions raised"]),
    "C33": ("Omitted arguments act as their documented defaults",
            "An argument that is left out of a call of a public constructor or function has exactly the effect of its documented default, in any combination with other arguments given or left out. "
            "That stays so after simulations have used objects built with defaults.",
            ["inputs", "configurations", "histories"], "every subset of omitted arguments of the public constructors and functions, before and after simulations",
            TESTS + "No test compares a default with anything.",
            [(G, "Airplane.__init__"), (G, "Wing.__init__"), (G, "WingCrossSection.__init__"), (G, "Airfoil.__init__"), (MV, "Movement.__init__"), (MV, "WingCrossSectionMovement.__init__"), (OP, "OperatingPoint.__init__"),
             (O, "draw"), (O, "animate"), (C, "analyze_unsteady_convergence"), (T, "analyze_steady_trim"), (UR, "run")], ["built objects, returned values, drawings and solver calls"]),
    "C34": ("Public geometric and oscillation helpers do what they state",
            "The rotation matrix about an axis, the reflection across a plane, the interpolation between points, the cross product, the centre of a quadrilateral, the cosine spacing and the sine, triangle and custom oscillation laws are the stated functions of their arguments. "
            "This holds for every input, and their arguments stay as they were.",
            ["inputs"], "every axis, plane, point, spacing and oscillation",
            TESTS + "No test calls these functions directly.",
            [(F, "angle_axis_rotation_matrix"), (F, "reflect_point_across_plane"), (F, "interp_between_points"), (F, "numba_1d_explicit_cross"), (F, "numba_centroid_of_quadrilateral"), (F, "cosspace"),
             (MV, "oscillating_sinspace"), (MV, "oscillating_linspace"), (MV, "oscillating_customspace")], ["returned values"]),
    "C35": ("Each GUI menu entry runs the example it names, every time",
            "Every entry of the GUI's examples menu runs the example script it names, once, each time it is chosen, and the terminal list gains one line with its number; About shows the README, and texts sent to the list appear in it. "
            "This holds for every sequence of choices, every order in which the system lists the examples folder, and whatever else lies in it.",
            ["histories", "inputs"], "every sequence of menu actions, listing order and set of other files in the folder",
            "No test imports main.py. Folder order is arbitrary on most file systems, and what runs may depend on what was chosen before.",
            [("main.py", "MainWindow.exampleMenu"), ("main.py", "MainWindow.printTerminalOutput"), ("main.py", "MainWindow.updateDisplayText"), ("main.py", "MainWindow.menuREADME"),
             (P + "ui_resources/main_window.py", "Ui_MainWindowDesign.retranslateUi")], ["scripts that ran", "the terminal list", "the About dialog"]),
    "C36": ("Solvers reproduce classical theory where it holds",
            "For slender wings at small angles the steady solvers give the lift, induced drag, pitching and rolling moments of lifting-line and thin-airfoil theory, in sign and size, whatever the taper, camber, twist, flap, dihedral and sideslip, and those of Jones's theory for slender triangular wings. "
            "The unsteady solver gives the amplitude and phase of lift and moment, and the mean thrust, of unsteady thin-airfoil theory for plunging, pitching and speed oscillations, and Wagner's growth of lift after an impulsive start, within the discretisation error of the mesh.",
            ["inputs", "configurations", "histories"], "every slender wing at small angles and every slow oscillation of one",
            TESTS + "The tests' reference values come from one other program's results for a few fixed wings, within wide bounds; no oscillation is compared in phase.",
            [(SH, "run"), (SR, "run"), (UR, "run"), (UR, "calculate_near_field_forces_and_moments"), (F, "process_steady_solver_forces"), (F, "process_unsteady_solver_forces"), (OP, "OperatingPoint.calculate_rotation_matrix_wind_axes_to_geometry_axes")],
            ["force and moment coefficients", "load histories"]),
}
NOT_CLAIMED = {}


def main():
    checks, lines = [], []
    for pid, (title, statement, over, text, why, anchors, observe) in sorted(PROPS.items()):
        if not os.path.exists(os.path.join(HERE, "mc", "props", pid.lower() + ".py")):
            continue
        assert len(title) <= 80, title
        for f in {f for f, _ in anchors}:
            assert os.path.exists("/repo/" + f), f
        lines.append(json.dumps({
            "id": pid, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": sorted({f for f, _ in anchors}),
                        "mechanism": [{"name": n, "where": f} for f, n in anchors],
                        "observe_at": observe, "hook_needed": None}}))
        mod = importlib.import_module("mc.props." + pid.lower())
        bound = mod.BOUND["quick"] if isinstance(mod.BOUND, dict) else mod.BOUND
        checks.append({
            "property": pid,
            "quick_cmd": "bash check.sh %s quick" % pid,
            "thorough_cmd": "bash check.sh %s thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "bounded exhaustive model checking on the real code: " + mod.TECHNIQUE,
            "level": mod.LEVEL,
            "level_note": mod.NOTE + " Quick bound: " + bound + "."})
    manifest = {
        "version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_CLAIMED.items())],
        "notes": "No hooks: every check drives the unmodified library from outside. bash check.sh ID quick|thorough; add --replay FILE to run one recorded case again."}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        f.write("\n".join(lines) + "\n")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    print(len(checks), "checks")


main()
