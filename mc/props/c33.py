"""C33: an argument that is left out has the effect of its documented default, in any combination and after any use."""
import contextlib
import io
import itertools

import numpy as np

from mc import aero, gen
from mc.props import c17, c25, c26, c27, c29, c30

PID = "C33"
LEVEL = "exploration"
TECHNIQUE = "enumeration of every subset of omitted arguments up to a size on the real constructors and functions, differential against the documented defaults passed explicitly"
NOTE = ("Every public constructor and function with documented defaults is called with every enumerated subset of its arguments left out, once with the others at their defaults and once "
        "at other values; what it builds, returns, draws or asks of the solvers must equal what the same call gives with the documented defaults written out, and must be the same again "
        "after simulations have used objects built with defaults. Logging levels and save paths are only observed through the progress bar and the files written.")
RULE = ("Calls x subsets of omitted arguments x values of the others x {before, after simulations}; outcomes are distinct values of what the calls make.")
BOUND = {"quick": "44 calls; subsets of at most 2 omitted arguments (1 for the expensive calls) and all; 2 values of the others",
         "thorough": "44 calls; subsets of at most 3 omitted arguments and all; 2 values of the others"}

N, T = [0.0, 1.0, 0.0], [1.0, 0.0, 0.0]
WAVE = lambda t: np.sin(t) / 2


def foil():
    import pterasoftware as ps
    return ps.geometry.Airfoil("naca2412", n_points_per_side=25)


def sections(normal=N):
    import pterasoftware as ps
    n = dict(num_spanwise_panels=2, unit_normal_vector=np.array(normal))
    X = ps.geometry.WingCrossSection
    return [X(foil(), **n), X(foil(), y_le=2.0, x_le=0.1, **n)]


def wings(sym=True):
    import pterasoftware as ps
    return [ps.geometry.Wing(sections(), symmetric=sym, num_chordwise_panels=2)]


def base_wing_movement(**kw):
    import pterasoftware as ps
    m = ps.movement
    w = wings()[0]
    still = dict(sweeping_amplitude=0.0, sweeping_period=0.0, pitching_amplitude=0.0, pitching_period=0.0, heaving_amplitude=0.0, heaving_period=0.0)
    return dict(base_wing=w, wing_cross_sections_movements=[m.WingCrossSectionMovement(x, **(still if i == 0 else dict(still, **kw))) for i, x in enumerate(w.wing_cross_sections)])


def base_airplane_movement(**kw):
    import pterasoftware as ps
    b = base_wing_movement(**kw)
    return dict(base_airplane=ps.geometry.Airplane([b["base_wing"]]), wing_movements=[ps.movement.WingMovement(**b)])


def movement_parts(moving, v=10.0):
    import pterasoftware as ps
    m = ps.movement
    kw = dict(pitching_amplitude=2.0, pitching_period=0.3) if moving else {}
    return dict(airplane_movements=[m.AirplaneMovement(**base_airplane_movement(**kw))], operating_point_movement=m.OperatingPointMovement(ps.operating_point.OperatingPoint(velocity=v)))


def solved(unsteady):
    aps = aero.configs()["half"]
    if unsteady:
        s = aero.unsteady((aps, aero.moving(aps, sec=aero.FLAP), gen.op(), gen.OM, dict(gen.MV, steps=3, dt=0.05)))[1]
        return aero.run_quiet(s)
    return aero.run_quiet(aero.steady_solver("ring", gen.steady_problem(aps, gen.op())))


def outcome_of_run(s, kw, unsteady):
    err = io.StringIO()
    with contextlib.redirect_stderr(err):
        s.run(**kw)
    aps = [x.airplanes for x in s.steady_problems] if unsteady else [s.airplanes]
    got = [aero.totals(a).tobytes() if not unsteady or i >= s.first_results_step else None for i, a in enumerate(aps)]
    wake = [c17.freeze(w.wake_ring_vortices) for a in aps[-1] for w in a.wings] if unsteady else None
    return got, wake, np.array(s.streamline_points).tobytes(), bool(err.getvalue())


def drawn(fn, **kw):
    made, files = c29.call(fn, **kw)
    out = []
    for m in made:
        for fr in [f for f in m.frames] + [x for x, _ in m.shown] + [x for _, x in m.shots]:
            out.append([(i[0], (np.array(i[1].points).tobytes(), sorted((k, np.ravel(v).tolist() if isinstance(v, np.ndarray) else str(v)) for k, v in i[2].items())) if i[0] == "mesh" else (i[1], str(sorted(i[2].items(), key=str)))) for i in fr])
        out.append([sorted((k, str(v)) for k, v in kw.items() if k != "cpos") for _, kw in m.shown])
    return out, sorted(files)


def plotted(**kw):
    figs, shown, saved = c30.figures(**kw)
    return len(figs), len(shown), sorted((a, c) for a, _, c in saved)


def converge(kw, settle):
    """The meshes a steady convergence analysis solves, and its answer, when the loads change by less and less."""
    import pterasoftware as ps
    c25.quiet()
    prob = gen.steady_problem(c25.spec(1), gen.op())
    H = ps.steady_horseshoe_vortex_lattice_method.SteadyHorseshoeVortexLatticeMethodSolver
    asked = []

    def stub(self, *a, **k):
        w = self.airplanes[0].wings[0]
        nc, ns = w.num_chordwise_panels, w.num_spanwise_panels
        asked.append((nc, ns))
        v = settle(nc, nc / ns)
        c25.answer(self.airplanes, (v, v), (nc, ns))
    saved = H.run
    H.run = stub
    try:
        got = ps.convergence.analyze_steady_convergence(prob, "steady horseshoe vortex lattice method", **kw)
    finally:
        H.run = saved
    return asked, [None if g is None else float(g) for g in got]


def converge_unsteady(kw, settle, moving):
    import pterasoftware as ps
    c25.quiet()
    aps = c26.formation(1)
    ams = aero.moving(aps, sec=dict(pa=1.0, pT=0.125)) if moving else gen.still(aps)
    m = gen.build_movement(aps, ams, gen.op(v=8.0), gen.OM, dict(gen.MV, steps=1, dt=0.1))
    prob = ps.problems.UnsteadyProblem(movement=m)
    asked = []

    def stub(self, logging_level="Warning", prescribed_wake=True, calculate_streamlines=True):
        q = self.unsteady_problem
        w = q.steady_problems[0].airplanes[0].wings[0]
        asked.append((w.num_chordwise_panels, w.num_spanwise_panels, q.num_steps, bool(prescribed_wake)))
        v = settle(w.num_chordwise_panels, q.num_steps) + (0 if prescribed_wake else 1e-3)
        c26.answer(q, [[v, 2 * v, v, 3 * v ** 1.4, v, v * v]], moving, len(asked))
    got = c26.stubbed(stub, lambda: ps.convergence.analyze_unsteady_convergence(prob, **kw))
    return asked, [None if g is None else float(g) for g in got]


class Count:
    def __init__(self):
        self.n = 0

    def fail(self, *a):
        pass

    def true(self, *a):
        pass

    equal = close = true


def trim(kind, kw, near):
    import logging
    import pterasoftware as ps
    ps.trim.trim_logger.setLevel(logging.CRITICAL + 1)
    prob, op, ap, _ = c27.setup({}, kind)
    np.random.seed(3)
    B = c27.box(kind)
    weight, s_ref, rho = ap.weight, ap.s_ref, op.density

    def answer(v, a, b):
        # The loads are off by `near` at the best state inside the bounds, and by more elsewhere.
        ext = np.array([0.0, 0.0, weight]) / (0.5 * rho * v ** 2) / s_ref
        mid = [sum(r) / 2 for r in B]
        d = near + 0.02 * abs(a - mid[1]) + 0.02 * abs(b - mid[2]) + 0.01 * abs(v - mid[0] - 0.3)
        return ext + np.array([0.0, 1.2 * d, 0.0]), [0.8 * d, 0.0, 0.0]
    with c27.World(kind, Count(), answer) as w:
        if kind == "steady":
            got = ps.trim.analyze_steady_trim(prob, *[tuple(r) for r in B], **kw)
        else:
            got = ps.trim.analyze_unsteady_trim(prob, op, *[tuple(r) for r in B], **kw)
    return w.asked, [repr(float(g)) for g in got]


def settling(nc, ar):
    """Changes by 6 % or so at first, and by 0.2 % less every time."""
    return 100.0 * float(np.prod([1.0637 - 0.002 * i for i in range(nc)])) * (1 + 0.01 / ar)


def restless(*a):
    return float(np.exp(sum((i + 2) * x for i, x in enumerate(a))))


def frozen(x):
    return c17.freeze(x)


def calls():
    """name -> (fixed arguments, documented defaults, other values, function of the arguments, cost)"""
    import pterasoftware as ps
    g, m = ps.geometry, ps.movement
    out = {}

    def add(name, fn, defaults, others, cost=0, ctx=(0, 1)):
        out[name] = (fn, defaults, others, cost, ctx)
    add("Airplane", lambda **k: frozen(g.Airplane(wings(), **k)),
        dict(name="Untitled Airplane", x_ref=0.0, y_ref=0.0, z_ref=0.0, weight=0.0, s_ref=None, c_ref=None, b_ref=None),
        dict(name="A", x_ref=0.2, y_ref=0.1, z_ref=0.3, weight=4.0, s_ref=7.0, c_ref=2.0, b_ref=9.0))
    W = dict(name="Untitled Wing", x_le=0.0, y_le=0.0, z_le=0.0, unit_normal_vector=np.array(N), symmetric=False, unit_chordwise_vector=np.array(T), num_chordwise_panels=8, chordwise_spacing="cosine")
    changed = dict(name="W", x_le=0.2, y_le=0.1, z_le=0.3, symmetric=True, num_chordwise_panels=3, chordwise_spacing="uniform")
    for nm, more in (("Wing", dict(unit_chordwise_vector=np.array([0.8, 0.0, 0.6]))), ("Wing, tilted", dict(unit_normal_vector=np.array([0.0, 0.8, 0.6])))):
        add(nm, lambda **k: frozen(g.Wing(sections(k.get("unit_normal_vector", N)), **k)), W, dict(changed, **more), 0, (0, 1) if nm == "Wing" else (1,))

    def section(**k):
        x = g.WingCrossSection(foil(), **k)
        w = g.Wing([x, g.WingCrossSection(foil(), y_le=k.get("y_le", 0.0) + 2.0, num_spanwise_panels=1)], num_chordwise_panels=3, symmetric=False)
        return frozen(x), frozen(w)
    add("WingCrossSection", section,
        dict(x_le=0.0, y_le=0.0, z_le=0.0, chord=1.0, unit_normal_vector=np.array(N), twist=0.0, control_surface_type="symmetric", control_surface_hinge_point=0.75, control_surface_deflection=0.0,
             num_spanwise_panels=8, spanwise_spacing="cosine"),
        dict(x_le=0.2, y_le=0.1, z_le=0.3, chord=1.4, unit_normal_vector=np.array([0.0, 0.8, 0.6]), twist=3.0, control_surface_type="asymmetric", control_surface_hinge_point=0.6,
             control_surface_deflection=5.0, num_spanwise_panels=3, spanwise_spacing="uniform"))
    line = np.array([[1.0, 0.0], [0.7, 0.05], [0.3, 0.08], [0.0, 0.0], [0.3, -0.04], [0.7, -0.03], [1.0, 0.0]])
    for nm in ("naca2412", "Untitled Airfoil"):
        base = dict(name=nm) if nm[0] == "n" else dict(coordinates=line.copy())
        d = dict(repanel=True, n_points_per_side=400, **(dict(coordinates=None) if nm[0] == "n" else dict(name=nm)))
        add("Airfoil " + ("of a name" if nm[0] == "n" else "of coordinates"), lambda base=base, **k: frozen(g.Airfoil(**dict(base, **k))), d,
            dict(repanel=False, n_points_per_side=30, **(dict(coordinates=line.copy()) if nm[0] == "n" else dict(name="mine"))))

    def repanel(**k):
        a = foil()
        return frozen(a.repanel_current_airfoil(**k)), frozen(a)
    add("repanel_current_airfoil", repanel, dict(n_points_per_side=100), dict(n_points_per_side=30))

    def surface(**k):
        a = foil()
        return frozen(a.add_control_surface(**k)), frozen(a)
    add("add_control_surface", surface, dict(deflection=0.0, hinge_point=0.75), dict(deflection=5.0, hinge_point=0.6))
    add("OperatingPoint", lambda **k: frozen(ps.operating_point.OperatingPoint(**k)), dict(density=1.225, velocity=10.0, alpha=5.0, beta=0.0, external_thrust=0.0, nu=15.06e-6),
        dict(density=1.0, velocity=7.0, alpha=2.0, beta=3.0, external_thrust=4.0, nu=1e-5))
    axes = lambda a, o: dict((c + s, v) for i, c in enumerate(a) for s, v in (("_amplitude", o and 0.1 + 0.02 * i), ("_period", o and 0.4 + 0.1 * i), ("_spacing", "uniform" if o else "sine")))

    def airplane_movement(**k):
        x = m.AirplaneMovement(**base_airplane_movement(), **k)
        return frozen(x), [frozen([a.x_ref, a.y_ref, a.z_ref, a.s_ref]) for a in x.generate_airplanes(num_steps=4, delta_time=0.06)]

    def wing_movement(**k):
        x = m.WingMovement(**base_wing_movement(), **k)
        return frozen(x), [frozen([a.x_le, a.y_le, a.z_le]) for a in x.generate_wings(num_steps=4, delta_time=0.06)]

    for nm, f, a in (("AirplaneMovement", airplane_movement, ("x_ref", "y_ref", "z_ref")), ("WingMovement", wing_movement, ("x_le", "y_le", "z_le"))):
        add(nm, f, axes(a, 0.0), axes(a, 1))

    def section_movement(**k):
        b = base_wing_movement()
        x = m.WingCrossSectionMovement(sections()[1], **k)
        w = m.WingMovement(b["base_wing"], [b["wing_cross_sections_movements"][0], x])
        return frozen(x), frozen(w.generate_wings(num_steps=4, delta_time=0.06))
    names = (("sweeping", "custom_sweep_function"), ("pitching", "custom_pitch_function"), ("heaving", "custom_heave_function"))
    add("WingCrossSectionMovement", section_movement,
        dict(axes([a for a, _ in names], 0.0), **{b: None for _, b in names}), dict(axes([a for a, _ in names], 1), **{"heaving_spacing": "custom", "custom_heave_function": WAVE}))
    add("WingCrossSectionMovement, custom", lambda **k: section_movement(**dict(dict(sweeping_amplitude=5.0, sweeping_period=0.4, pitching_amplitude=3.0, pitching_period=0.3, heaving_amplitude=2.0,
                                                                                            heaving_period=0.2), **k)),
        dict(dict((a + "_spacing", "sine") for a, _ in names), **{b: None for _, b in names}), dict(dict((a + "_spacing", "custom") for a, _ in names), **{b: WAVE for _, b in names}))
    add("OperatingPointMovement", lambda **k: frozen(m.OperatingPointMovement(ps.operating_point.OperatingPoint(), **k).generate_operating_points(num_steps=4, delta_time=0.06)),
        dict(velocity_amplitude=0.0, velocity_period=0.0, velocity_spacing="sine"), dict(velocity_amplitude=1.0, velocity_period=0.4, velocity_spacing="uniform"))
    kw = dict(pitching_amplitude=2.0, pitching_period=0.7)
    steps = dict(num_steps=10, delta_time=0.1), dict(num_steps=3, delta_time=0.04)
    add("generate_airplanes", lambda **k: frozen(m.AirplaneMovement(**base_airplane_movement(**kw), x_ref_amplitude=0.1, x_ref_period=0.9).generate_airplanes(**k)), *steps)
    add("generate_wings", lambda **k: frozen(m.WingMovement(**base_wing_movement(**kw), x_le_amplitude=0.1, x_le_period=0.9).generate_wings(**k)), *steps)
    add("generate_operating_points", lambda **k: frozen(m.OperatingPointMovement(ps.operating_point.OperatingPoint(), velocity_amplitude=1.0, velocity_period=0.9).generate_operating_points(**k)), *steps)
    def sections_of(**k):
        x = m.WingCrossSectionMovement(sections()[1], pitching_amplitude=2.0, pitching_period=0.7)
        return frozen(x.generate_wing_cross_sections(**k))
    ramp = np.linspace(0.0, 0.5, 10)
    add("generate_wing_cross_sections", sections_of, dict(num_steps=10, delta_time=0.1, last_x_les=0.0, last_y_les=0.0, last_z_les=0.0, wing_is_vertical=False, cross_section_span=0.0,
                                                         cross_section_sweep=0.0, cross_section_heave=0.0),
        dict(num_steps=3, delta_time=0.04, last_x_les=ramp[:3], last_y_les=ramp[:3] + 1, last_z_les=ramp[:3] - 0.2, cross_section_span=2.0, cross_section_sweep=4.0, cross_section_heave=3.0))
    add("generate_wing_cross_sections, vertical", sections_of, dict(num_steps=10, delta_time=0.1, wing_is_vertical=False), dict(num_steps=3, delta_time=0.04, wing_is_vertical=True, last_x_les=ramp[:3], last_y_les=ramp[:3], last_z_les=ramp[:3]))
    add("Movement, still", lambda **k: frozen(m.Movement(**movement_parts(False), **k)), dict(num_steps=None, num_cycles=None, num_chords=None, delta_time=None), dict(num_chords=2, delta_time=0.05))
    add("Movement, moving", lambda **k: frozen(m.Movement(**movement_parts(True), **k)), dict(num_steps=None, num_cycles=None, num_chords=None, delta_time=None), dict(num_cycles=2, delta_time=0.05))
    add("Movement, steps", lambda **k: frozen(m.Movement(**movement_parts(True), **k)), dict(num_cycles=None, num_chords=None, delta_time=None), dict(num_steps=3, delta_time=0.05))

    def problem(**k):
        q = ps.problems.UnsteadyProblem(m.Movement(**movement_parts(False), num_steps=3, delta_time=0.05), **k)
        s = ps.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver(q)
        aero.run_quiet(s)
        return q.only_final_results, q.first_results_step, frozen([[getattr(a, "total_near_field_force_wind_axes", None) for a in x.airplanes] for x in q.steady_problems])
    add("UnsteadyProblem", problem, dict(only_final_results=False), dict(only_final_results=True))
    add("cosspace", lambda **k: frozen(np.array(ps.functions.cosspace(-1.0, 2.0, **k))), dict(n_points=50, endpoint=True), dict(n_points=7, endpoint=False))
    add("angle_axis_rotation_matrix", lambda **k: frozen(np.array(ps.functions.angle_axis_rotation_matrix(0.4, np.array([1.0, 2.0, -0.5]), **k))), dict(axis_already_normalized=False),
        dict(axis_already_normalized=True))
    def streamlines(unsteady, k):
        s = solved(unsteady)
        ps.functions.calculate_streamlines(s, **k)
        return frozen(np.array(s.streamline_points))
    for un in (False, True):
        add("calculate_streamlines, %s" % ("unsteady" if un else "steady"), lambda un=un, **k: streamlines(un, k), dict(num_steps=25, delta_time=0.02), dict(num_steps=4, delta_time=0.05))
    for kind in ("horseshoe", "ring"):
        add("run, steady %s" % kind, lambda kind=kind, **k: outcome_of_run(aero.steady_solver(kind, gen.steady_problem(aero.configs()["half"], gen.op())), k, False), dict(logging_level="Warning"),
            dict(logging_level="Critical"))

    def unsteady_run(**k):
        aps = aero.configs()["half"]
        return outcome_of_run(aero.unsteady((aps, aero.moving(aps, sec=aero.FLAP), gen.op(), gen.OM, dict(gen.MV, steps=4, dt=0.05)))[1], k, True)
    add("run, unsteady", unsteady_run, dict(logging_level="Warning", prescribed_wake=True, calculate_streamlines=True), dict(logging_level="Critical", prescribed_wake=False, calculate_streamlines=False))

    def drawing(un, k):
        s = solved(un)
        if "show_streamlines" in k or not un:
            ps.functions.calculate_streamlines(s)
        return drawn(ps.output.draw, solver=s, **k)
    # (The image of an interactive window is not taken here: `testing` only says how long the window stays.)
    for un in (False, True):
        add("draw, %s" % ("unsteady" if un else "steady"), lambda un=un, **k: drawing(un, k),
            dict(scalar_type=None, show_streamlines=False, **(dict(show_wake_vortices=False) if un else {}), save=False, testing=False),
            dict(scalar_type="lift", show_streamlines=True, **(dict(show_wake_vortices=True) if un else {}), save=True, testing=True))
    add("animate", lambda **k: drawn(ps.output.animate, unsteady_solver=solved(True), **k), dict(scalar_type=None, show_wake_vortices=False, save=False, testing=False),
        dict(scalar_type="side force", show_wake_vortices=True, save=True, testing=True))
    add("plot_results_versus_time", lambda **k: plotted(fn=ps.output.plot_results_versus_time, unsteady_solver=solved(True), **k), dict(show=True, save=False), dict(show=False, save=True))
    cd = dict(panel_aspect_ratio_bounds=(4, 1), num_chordwise_panels_bounds=(3, 12), convergence_criteria=5.0)
    add("steady convergence, settling", lambda **k: converge(k, settling), cd, dict(panel_aspect_ratio_bounds=(3, 2), num_chordwise_panels_bounds=(1, 6), convergence_criteria=1.0))
    add("steady convergence, restless", lambda **k: converge(k, restless), cd, dict(panel_aspect_ratio_bounds=(3, 2), num_chordwise_panels_bounds=(1, 3), convergence_criteria=1.0))
    ud = dict(prescribed_wake=True, free_wake=True, num_cycles_bounds=(2, 4), num_chords_bounds=(3, 7), panel_aspect_ratio_bounds=(4, 1), num_chordwise_panels_bounds=(3, 12), coefficient_mask=[True] * 6,
              convergence_criteria=5.0)
    uo = dict(prescribed_wake=False, free_wake=True, num_cycles_bounds=(1, 2), num_chords_bounds=(1, 2), panel_aspect_ratio_bounds=(4, 4), num_chordwise_panels_bounds=(1, 2),
              coefficient_mask=[True, False, False, False, False, False], convergence_criteria=8.0)
    for moving in (False, True):
        for nm, f in (("settling", lambda nc, n: settling(nc, 1.0) + 0.01 * n / nc), ("restless", restless)):
            add("unsteady convergence, %s, %s" % ("moving" if moving else "still", nm), lambda moving=moving, f=f, **k: converge_unsteady(k, f, moving), ud, uo, 1, (1,))
    td = dict(objective_cut_off=0.01, num_calls=100)
    for kind in ("steady", "unsteady"):
        for near in (0.0099, 0.0101, 5.0):
            add("%s trim, off by %g" % (kind, near), lambda kind=kind, near=near, **k: trim(kind, k, near), td, dict(objective_cut_off=0.2 if near == 0.0101 else 0.001, num_calls=20), 1)
    return out


def cases(tier):
    out = []
    for name, (fn, d, o, cost, ctx) in calls().items():
        top = (1 if cost else 2) if tier == "quick" else (2 if cost or len(d) > 9 else 3)
        for c in ctx:
            subsets = [s for k in range(1, top + 1) for s in itertools.combinations(sorted(d), k)]
            if c == 0:
                subsets.append(tuple(sorted(d)))
            for s in dict.fromkeys(subsets):
                out.append(("%s without %s, others %s" % (name, "all" if len(s) == len(d) else ", ".join(s), ("default", "changed")[c]), dict(name=name, omit=list(s), ctx=c)))
    return out


def use():
    """Simulations with everything that has a default left out."""
    import pterasoftware as ps
    g = ps.geometry
    X = g.WingCrossSection
    build = lambda z=0.0: [g.Wing([X(g.Airfoil("naca0012"), num_spanwise_panels=1), X(g.Airfoil("naca0012"), y_le=1.0)], symmetric=s, num_chordwise_panels=1, x_le=3.0 * s, z_le=z) for s in (False, True)]
    for kind in ("horseshoe", "ring"):
        s = aero.steady_solver(kind, ps.problems.SteadyProblem([g.Airplane(build())], ps.operating_point.OperatingPoint()))
        s.run()
    m = ps.movement
    aps = []
    for z in (0.0, 2.0):
        ws = build(z)
        aps.append(m.AirplaneMovement(g.Airplane(ws), [m.WingMovement(w, [m.WingCrossSectionMovement(x, **(dict(pitching_amplitude=3.0, pitching_period=0.2) if i else {})) for i, x in enumerate(w.wing_cross_sections)])
                                                       for w in ws]))
    s = ps.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver(ps.problems.UnsteadyProblem(m.Movement(aps, m.OperatingPointMovement(ps.operating_point.OperatingPoint()), num_steps=3)))
    with contextlib.redirect_stderr(io.StringIO()):
        s.run()


def run(p, ob):
    make, d, o, cost, ctx = calls()[p["name"]]

    def fn(**k):
        try:
            return make(**k)
        except Exception as e:
            # (Some combinations are refused: they must be refused either way.)
            return "refused", type(e).__name__, str(e)
    args = dict(d) if p["ctx"] == 0 else dict(d, **o)
    if p["name"].startswith("Movement") and p["ctx"] == 1:
        args = {k: v for k, v in args.items() if v is not None or k in p["omit"]}
    left = {k: v for k, v in args.items() if k not in p["omit"]}
    copy = lambda x: {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in x.items()}
    want = fn(**copy(dict(left, **{k: d[k] for k in p["omit"]})))
    got = fn(**copy(left))
    ob.true(got == want, "left out, %s do not act as %s" % (", ".join(p["omit"]), [d[k] for k in p["omit"]]))
    if not cost:
        use()
        ob.true(fn(**copy(left)) == want, "after simulations that used the defaults, the same call gives something else")
    ob.transitions += 2
    if want[0] == "refused":
        ob.true(p["ctx"] == 1, "the documented defaults are refused: %s" % (want,))
        ob.trivial()
    ob.state(p["name"], p["ctx"], repr(want))
    ob.sig(p["name"], repr(want))


def warm():
    aero.warm_all()
