"""C14: results depend on the problem alone, not on what ran before or on run options that only report."""
import itertools

import numpy as np

from mc import aero, gen

PID = "C14"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of operation sequences on shared problem objects, every state compared with a fresh run"
NOTE = ("Every sequence of runs, re-runs, changes of the flight state and other solvers' runs up to the depth is executed on shared objects; after each "
        "step the loads, strengths, wakes and streamlines equal those of the same operation on fresh objects. Longer sequences are not covered.")
RULE = ("All sequences up to the depth over the operations listed in the source (steady: two solvers old and new, logging, changed flight state, redrawn streamlines, another problem with the same airplanes; "
        "unsteady: prescribed or free wake, with or without streamlines, a new solver or the old one, steady solvers on single steps; shared airplanes: solvers, movements, simulations, a convergence analysis and new wings of old sections in any order); outcomes are distinct result states.")
BOUND = {"quick": "depth 3 for steady, depth 2 for unsteady problems; 3 + 3 problems; 13 uses of shared airplanes at depth 2", "thorough": "depth 4 for steady, depth 3 for unsteady problems; 6 + 6 problems; 13 uses of shared airplanes at depth 3"}

STEADY_OPS = ["horseshoe new", "horseshoe again", "ring new", "ring again", "ring logged", "state A", "state B", "streamlines", "other problem"]
UNSTEADY_OPS = ["new prescribed", "new free", "again prescribed", "again free", "again quiet", "again logged", "streamlines", "steady solvers"]
SHARED_OPS = ["ring A", "ring B A", "horseshoe A B", "horseshoe B", "unsteady A", "free unsteady A B", "unsteady B moving", "still B A", "only final A", "kept movement A", "convergence A", "logged A", "sections B"]
STATES = {"A": (12.0, 6.0, -3.0, 0.9), "B": (10.0, 2.0, 0.0, 1.225)}


def cases(tier):
    q = tier == "quick"
    out = []
    for n in (["full half", "three airplanes", "wing, tail and fin"] if q else ["full half", "three airplanes", "wing, tail and fin", "one panel", "full", "two airplanes"]):
        for seq in itertools.product(STEADY_OPS, repeat=1 if q else 2):
            out.append(("steady %s: %s" % (n, " > ".join(seq)), dict(name=n, first=list(seq), depth=3 if q else 4)))
    for n in (["flapping", "speed varies", "two airplanes"] if q else ["flapping", "speed varies", "two airplanes", "still one panel", "everything moves", "cycles"]):
        for only in (False, True):
            for seq in itertools.product(UNSTEADY_OPS, repeat=1):
                out.append(("unsteady %s%s: %s" % (n, " final only" if only else "", " > ".join(seq)), dict(scene=n, only=only, first=list(seq), depth=2 if q else 3)))
    for first in SHARED_OPS:
        out.append(("shared airplanes: %s" % first, dict(shared=True, first=first, depth=2 if q else 3)))
    return out


POINTS = np.array([[0.3, 0.4, 0.7], [3.1, -0.8, -0.5]])


def own_flow(panels):
    """The flow that the panels' own vortices induce, whichever they hold."""
    return np.array([sum(p.calculate_induced_velocity(pt) for p in panels) for pt in POINTS])


def steady_results(prob, s, kind):
    mesh = aero.Mesh(prob.airplanes)
    g = [getattr(p, kind + "_vortex").strength for p in mesh.panels]
    return [aero.totals(prob.airplanes), np.array(g, float), own_flow(mesh.panels), aero.read(mesh.panels, "near_field_force_geometry_axes"),
            aero.read(mesh.panels, "near_field_moment_wind_axes"), np.array(s.streamline_points, float)]


def unsteady_results(prob, s, streams):
    r = [np.concatenate([np.ravel(x) for x in v]) for v in (s.wake_ring_vortex_strengths_list, s.wake_ring_vortex_ages_list, s.wake_ring_vortex_front_left_vertices_list,
                                                          s.wake_ring_vortex_back_right_vertices_list)]
    r.append(np.array([[p.ring_vortex.strength for p in aero.panels_of(sp.airplanes)] for sp in prob.steady_problems], float))
    r.append(own_flow(aero.panels_of(prob.steady_problems[-1].airplanes)))
    r += [v for v in aero.finals(prob).values()]
    r.append(np.concatenate([aero.totals(sp.airplanes) for sp in prob.steady_problems[prob.first_results_step:]]))
    r.append(np.concatenate([np.ravel(w.wake_ring_vortex_vertices) for sp in prob.steady_problems for a in sp.airplanes for w in a.wings]))
    if streams:
        r.append(np.array(s.streamline_points, float))
    return r


def same(ob, got, want, what):
    ob.equal(len(got), len(want), what)
    for i, (a, b) in enumerate(zip(got, want)):
        ob.equal(a.shape, b.shape, "%s: shape of result %d" % (what, i))
        ob.close(a, b, "%s: result %d" % (what, i), rtol=1e-12, atol=1e-13)


def set_state(prob, st):
    o = prob.operating_point
    o.velocity, o.alpha, o.beta, o.density = STATES[st]


def run(p, ob):
    (shared if "shared" in p else steady if "name" in p else unsteady)(p, ob)


class World:
    """Two airplanes and a flight state that everything is built from."""

    def __init__(self):
        self.specs = dict(A=aero.configs()["full half"][0], B=aero.configs()["wing and tail"][0])
        self.specs["B"] = dict(self.specs["B"], wings=[dict(w, y=w["y"] + 5.0, z=w["z"] + 1.0) for w in self.specs["B"]["wings"]])
        self.built = {k: gen.build_airplane(v) for k, v in self.specs.items()}
        self.op = gen.build_op(gen.op(v=11.0, a=4.0, b=2.0))
        self.kept = None

    def do(self, op, ob):
        import pterasoftware as ps
        words = op.split()
        who = [w for w in words if w in self.built]
        aps = [self.built[w] for w in who]
        if words[0] in ("ring", "horseshoe", "logged"):
            kind = "ring" if words[0] == "logged" else words[0]
            prob = ps.problems.SteadyProblem(airplanes=aps, operating_point=self.op)
            s = aero.steady_solver(kind, prob)
            s.run(logging_level="Debug" if words[0] == "logged" else "Critical")
            return steady_results(prob, s, kind)
        if words[0] == "convergence":
            ps.convergence.convergence_logger.setLevel(60)
            got = ps.convergence.analyze_steady_convergence(ps.problems.SteadyProblem(airplanes=aps, operating_point=self.op), "steady ring vortex lattice method", panel_aspect_ratio_bounds=(2, 1),
                                                            num_chordwise_panels_bounds=(1, 2), convergence_criteria=30.0)
            return [np.array([np.nan if g is None else float(g) for g in got])]
        if words[0] == "sections":
            # New wings of the same sections, as a second airplane.
            b = self.built["B"]
            wing = lambda w: ps.geometry.Wing(wing_cross_sections=w.wing_cross_sections, symmetric=w.symmetric, num_chordwise_panels=w.num_chordwise_panels + 1, chordwise_spacing="uniform", x_le=w.x_le + 1.0)
            prob = ps.problems.SteadyProblem(airplanes=[ps.geometry.Airplane([wing(w) for w in b.wings])], operating_point=self.op)
            s = aero.run_quiet(aero.steady_solver("ring", prob))
            return steady_results(prob, s, "ring")
        free = words[0] == "free"
        if words[0] == "kept":
            # One movement, a problem of its own for each run.
            self.kept = self.kept or self.movement(who, dict(sa=6.0, sT=0.3))
            m = self.kept
        else:
            m = self.movement(who, {} if words[0] == "still" else dict(pa=3.0, pT=0.2, psp="uniform") if words[-1] == "moving" else dict(sa=5.0, sT=0.2))
        prob = ps.problems.UnsteadyProblem(movement=m, only_final_results=words[0] == "only")
        s = ps.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver(prob)
        s.run(logging_level="Critical", prescribed_wake=not free, calculate_streamlines=True)
        return unsteady_results(prob, s, True)

    def movement(self, who, sec):
        specs = [self.specs[w] for w in who]
        return gen.build_movement(specs, aero.moving(specs, sec=sec), None, dict(gen.OM, **(dict(va=1.0, vT=0.2) if sec else {})), dict(gen.MV, steps=5, dt=0.05), bases=[self.built[w] for w in who], base_op=self.op)


def shared(p, ob):
    """Everything an airplane object has been used for leaves no trace in what it is used for next."""
    fresh = {op: World().do(op, ob) for op in SHARED_OPS}
    for rest in itertools.product(SHARED_OPS, repeat=p["depth"] - 1):
        w = World()
        for i, op in enumerate((p["first"],) + rest):
            what = " > ".join(((p["first"],) + rest)[:i + 1])
            same(ob, w.do(op, ob), fresh[op], what)
            ob.transitions += 1
            ob.state("shared", op, fresh[op][0])
        ob.traces += 1
    ob.sig("shared", p["first"], [fresh[op][0] for op in SHARED_OPS])


def steady(p, ob):
    aps = aero.configs()[p["name"]]
    base = gen.op(v=10.0, a=2.0, b=0.0)
    fresh = {}

    def expected(kind, st):
        if (kind, st) not in fresh:
            prob = gen.steady_problem(aps, base)
            set_state(prob, st)
            s = aero.run_quiet(aero.steady_solver(kind, prob))
            fresh[kind, st] = steady_results(prob, s, kind)
        return fresh[kind, st]
    seqs = [p["first"] + list(t) for t in itertools.product(STEADY_OPS, repeat=p["depth"] - len(p["first"]))]
    sig = []
    import pterasoftware as ps
    for seq in seqs:
        prob = gen.steady_problem(aps, base)
        solvers, st, last = {}, "B", None
        for i, op in enumerate(seq):
            what = " > ".join(seq[:i + 1])
            if op.startswith("state"):
                st = op[-1]
                set_state(prob, st)
                last = None
            elif op == "other problem":
                # The same airplanes in another flight state, solved as a problem of its own.
                other = ps.problems.SteadyProblem(airplanes=prob.airplanes, operating_point=gen.build_op(gen.op(v=33.0, a=-8.0, b=12.0, rho=0.7)))
                for kind in ("ring", "horseshoe"):
                    aero.run_quiet(aero.steady_solver(kind, other))
                last = None
            elif op == "streamlines":
                if last:
                    ps.functions.calculate_streamlines(solvers[last], num_steps=4, delta_time=0.01)
                    ob.equal(solvers[last].streamline_points.shape[0], 5, "rows of streamline points")
                    ps.functions.calculate_streamlines(solvers[last])
                    same(ob, steady_results(prob, solvers[last], last), expected(last, st), what)
            else:
                kind, how = op.split()
                # An old solver solves the flight state of the moment, too.
                if how == "new" or kind not in solvers:
                    solvers[kind] = aero.steady_solver(kind, prob)
                solvers[kind].run(logging_level="Error" if how == "logged" else "Critical")
                last = kind
                res = steady_results(prob, solvers[kind], kind)
                same(ob, res, expected(kind, st), what)
                ob.state(p["name"], kind, st, how, res[1])
            ob.transitions += 1
        ob.traces += 1
        sig.append(seq)
    ob.sig(p["name"], sig)


def unsteady(p, ob):
    scene = aero.scenes()[p["scene"]]
    fresh = {}

    def expected(pw, streams):
        if (pw, streams) not in fresh:
            prob, s = aero.unsteady(scene, p["only"])
            aero.run_quiet(s, prescribed_wake=pw, calculate_streamlines=streams)
            fresh[pw, streams] = unsteady_results(prob, s, streams)
        return fresh[pw, streams]
    import pterasoftware as ps
    for seq in [p["first"] + list(t) for t in itertools.product(UNSTEADY_OPS, repeat=p["depth"] - 1)]:
        prob, s = aero.unsteady(scene, p["only"])
        pw = True
        ran = False
        for i, op in enumerate(seq):
            what = " > ".join(seq[:i + 1])
            if op == "steady solvers":
                # The problems of single steps are steady problems, too.
                for k, kind in ((0, "ring"), (1, "horseshoe"), (len(prob.steady_problems) - 1, "ring")):
                    aero.run_quiet(aero.steady_solver(kind, prob.steady_problems[k]))
                ran = False
                ob.transitions += 1
                continue
            if op == "streamlines":
                if ran:
                    ps.functions.calculate_streamlines(s, num_steps=3)
                    ps.functions.calculate_streamlines(s)
                    same(ob, unsteady_results(prob, s, True), expected(pw, True), what)
                ob.transitions += 1
                continue
            how, opt = op.split()
            if how == "new":
                s = ps.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver(prob)
            if opt in ("prescribed", "free"):
                pw = opt == "prescribed"
            streams = opt != "quiet"
            s.run(logging_level="Error" if opt == "logged" else "Critical", prescribed_wake=pw, calculate_streamlines=streams)
            ran = True
            res = unsteady_results(prob, s, streams)
            same(ob, res, expected(pw, streams), what)
            ob.state(p["scene"], p["only"], pw, streams, res[0])
            ob.transitions += 1
        ob.traces += 1
    ob.sig(p["scene"], p["only"], p["first"])


warm = aero.warm_all
