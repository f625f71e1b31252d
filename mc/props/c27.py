"""C27: the steady trim analysis returns a trimmed state inside the bounds, or none."""
import itertools

import numpy as np

from mc import aero, gen, patch, search

PID = "C27"
LEVEL = "model_checking"
TECHNIQUE = "stateless exploration of every choice of a demonic optimizer and aerodynamic environment under the real analysis, plus runs with the real ones"
NOTE = ("Optimizers and solver are replaced by environments that visit every enumerated sequence of states and answers; the analysis must stop at the first trimmed state and "
        "return it, or return none. Runs with scipy's optimizers and with the real solver confirm bounds and results on enumerated problems.")
RULE = ("All sequences of visited states and answers up to the depth for each problem; all analytic environments of a grid under the real optimizers; a few airplanes under the "
        "real solver; all flight states on and outside the bounds; a state is the sequence so far; outcomes are distinct (sequence, result) pairs.")
BOUND = {"quick": "up to 2 local and 2 global visits, 3 states, 6 answers; 50 analytic problems; 4 airplanes", "thorough": "up to 3 local and 2 global visits, 3 states, 6 answers; 71 analytic problems; 10 airplanes"}
CHUNK = 1

ANSWERS = ["trimmed", "just inside", "just outside", "drag", "moment", "far"]
KIND = "steady"
NU = 1.3e-5  # not the default


def box(kind, pr=None):
    b = dict(v=(8.0, 14.0), a=(-2.0, 8.0), b=(-3.0, 3.0), t=(0.0, 5.0))
    if (pr or {}).get("reverse"):
        b = dict(v=(22.0, 40.0), a=(-9.0, -4.0), b=(-8.0, -5.0), t=(-7.0, -1.0))
    return [b["v"], b["a"], b["b"]] + ([b["t"]] if kind == "steady" else [])


def cases(tier, kind="steady"):
    q = tier == "quick"
    out = []
    probs = [dict(), dict(weight=40.0, s_ref=3.0, rho=0.9), dict(cut=0.2, weight=5.0, b=1.0), dict(reverse=True, weight=-30.0)] if q else \
        [dict(), dict(weight=40.0, s_ref=3.0, rho=0.9), dict(cut=0.2, weight=5.0, b=1.0), dict(s_ref=0.5), dict(rho=3.0, weight=-4.0), dict(cut=1e-3), dict(reverse=True, weight=-30.0)]
    depth = ([(2, 2), (1, 1), (2, 1), (1, 1)] if kind == "steady" else [(1, 1)] * 4) if q else [(3, 2), (2, 2), (2, 2), (2, 1), (1, 2), (1, 1), (2, 1)]
    if kind == "unsteady" and not q:
        depth = [(2, 2), (2, 1), (1, 2), (1, 1), (1, 1), (1, 1), (1, 1)]
    for mv in (False, True) if kind == "unsteady" else (False,):
        for i, pr in enumerate(probs):
            for first in itertools.product(range(3), range(6)) if sum(depth[i]) < 3 else itertools.product(range(3), range(6), range(3)):
                out.append(("visits %s %sfirst=%s" % (gen.short(pr), "moving " if mv else "", first),
                            dict(mode="visits", pr=pr, first=list(first), local=depth[i][0], glob=depth[i][1], moving=mv)))
    grid = itertools.product((9.0, 13.0), (0.0, 6.0), (-1.0, 2.0), (0.5, 4.0) if kind == "steady" else (0.0,), (0, 1) if q else (0, 1, 2))
    for i, (v, a, b, t, start) in enumerate(grid):
        out.append(("optimum v=%g a=%g b=%g t=%g start=%d" % (v, a, b, t, start), dict(mode="optimum", at=(v, a, b, t)[:4 if kind == "steady" else 3], start=start, reach=True, moving=bool(i % 2))))
    for i, (v, a, b, t) in enumerate(itertools.product((24.0, 37.0), (-8.0, -5.0), (-6.0,), (-6.0, -2.0) if kind == "steady" else (0.0,))):
        out.append(("optimum in reverse v=%g a=%g b=%g t=%g" % (v, a, b, t), dict(mode="optimum", at=(v, a, b, t)[:4 if kind == "steady" else 3], start=i % 2, reach=True, moving=bool(i % 2),
                                                                               pr=dict(reverse=True, weight=-30.0))))
    away = [(20.0, 2.0, 0.0, 1.0), (10.0, -9.0, 0.0, 1.0), (10.0, 2.0, 9.0, 1.0), (10.0, 2.0, 0.0, 30.0), (5.0, 9.0, -5.0, 9.0)]
    for i, at in enumerate(away if kind == "steady" else [x for x in away if x[3] != 30.0]):
        for start in (0, 1) if q else (0, 1, 2):
            out.append(("out of reach %s start=%d" % (at, start), dict(mode="optimum", at=at[:4 if kind == "steady" else 3], start=start, reach=False, moving=False)))
    return out + special(tier) if kind == "steady" else out


def special(tier):
    out = []
    for i, (lo, hi) in enumerate(box("steady")):
        for v, ok in ((lo, True), (hi, True), (np.nextafter(lo, -99), False), (lo - 1, False), (hi + 1, False), (hi * 1.0001, False), ((lo + hi) / 2, True)):
            out.append(("bounds %d start %r" % (i, float(v)), dict(mode="bounds", i=i, value=float(v), ok=ok)))
    for j in range(4 if tier == "quick" else 10):
        out.append(("real solver %d" % j, dict(mode="real", j=j)))
    return out


def setup(pr, kind, moving=False, start=0):
    import pterasoftware as ps
    B = box("steady", pr)
    mid = [sum(r) / 2 for r in B]
    at = [mid, [r[0] for r in B], [r[1] for r in B]][start]
    ap = gen.airplane([aero.rect(nc=1, ns=1)], weight=pr.get("weight", 12.0), s_ref=pr.get("s_ref"))
    o = gen.op(v=at[0], a=at[1], b=pr.get("b", at[2]), rho=pr.get("rho", 1.19), thrust=at[3], nu=NU)
    prob = gen.steady_problem([ap], o)
    if kind == "steady":
        return prob, prob.operating_point, prob.airplanes[0], None
    ams = aero.moving([ap], sec=dict(pa=1.0, pT=0.2)) if moving else gen.still([ap])
    m = gen.build_movement([ap], ams, o, gen.OM, dict(gen.MV, steps=1, dt=0.1))
    return m.airplane_movements[0], gen.build_op(o), m.airplane_movements[0].base_airplane, m


def analyze(kind, prob, op, bounds, cut, calls):
    import logging
    import pterasoftware as ps
    ps.trim.trim_logger.setLevel(logging.CRITICAL + 1)
    if kind == "steady":
        return ps.trim.analyze_steady_trim(prob, *bounds, objective_cut_off=cut, num_calls=calls)
    return ps.trim.analyze_unsteady_trim(prob, op, *bounds, objective_cut_off=cut, num_calls=calls)


class World:
    """Stands in for the aerodynamic solver: `answer(v, a, b)` gives force and moment coefficients."""

    def __init__(self, kind, ob, answer, moving=False, given=None):
        self.kind, self.ob, self.answer, self.moving = kind, ob, answer, moving
        self.asked = []
        self.given = given

    def same_movement(self, p, o):
        """The simulated movement is the given airplane movement in the flight state asked about."""
        import pterasoftware as ps
        want = ps.movement.Movement([self.given], ps.movement.OperatingPointMovement(o))
        got = p.movement
        self.ob.equal((got.num_steps, p.num_steps), (want.num_steps, want.num_steps), "time steps")
        self.ob.close(got.delta_time, want.delta_time, "delta_time")
        for s, a, b in zip(range(want.num_steps), p.steady_problems, want.airplanes[0]):
            for wa, wb in zip(a.airplanes[0].wings, b.wings):
                self.ob.close([q.front_left_vertex for q in wa.panels.ravel()], [q.front_left_vertex for q in wb.panels.ravel()], "panels at step %d" % s)

    def __enter__(self):
        import pterasoftware as ps
        w = self
        self.H = ps.steady_horseshoe_vortex_lattice_method.SteadyHorseshoeVortexLatticeMethodSolver
        self.R = ps.steady_ring_vortex_lattice_method.SteadyRingVortexLatticeMethodSolver
        self.U = ps.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver
        self.saved = self.H.run, self.R.run, self.U.run

        def steady(solver, *args, **kw):
            o = solver.operating_point
            cf, cm = w.ask(o, len(solver.airplanes))
            a = solver.airplanes[0]
            a.total_near_field_force_coefficients_wind_axes, a.total_near_field_moment_coefficients_wind_axes = cf, cm
            a.total_near_field_force_wind_axes, a.total_near_field_moment_wind_axes = 3 * cf + 1, 3 * cm - 1

        def unsteady(solver, *args, **kw):
            p = solver.unsteady_problem
            o = p.steady_problems[-1].operating_point
            if not w.asked and w.given is not None:
                w.same_movement(p, o)
            cf, cm = w.ask(o, len(p.steady_problems[-1].airplanes))
            w.ob.true(all((s.operating_point.velocity, s.operating_point.alpha, s.operating_point.beta) == (o.velocity, o.alpha, o.beta) for s in p.steady_problems), "a steady flight state")
            for kind in ("", "_mean", "_rms"):
                real = kind == ("_mean" if w.moving else "")
                for nm, v in (("force_coefficients", cf), ("moment_coefficients", cm), ("forces", cf), ("moments", cm)):
                    filled = (kind != "") == w.moving
                    val = v if real and nm.endswith("coefficients") else 5 * v + 2
                    setattr(p, "final%s_near_field_%s_wind_axes" % (kind, nm), [val] if filled else [])
        self.H.run = self.R.run = steady
        self.U.run = unsteady
        return self

    def ask(self, o, n):
        self.ob.equal(n, 1, "airplanes")
        self.ob.equal(o.nu, NU, "kinematic viscosity")
        self.asked.append((o.velocity, o.alpha, o.beta, o.density))
        cf, cm = self.answer(o.velocity, o.alpha, o.beta)
        return np.array(cf, float), np.array(cm, float)

    def __exit__(self, *a):
        self.H.run, self.R.run, self.U.run = self.saved


def external(x, op_rho, weight, s_ref, kind):
    q = 0.5 * op_rho * x[0] ** 2
    return np.array([x[3] if kind == "steady" else 0.0, 0.0, weight]) / q / s_ref


def objective(cf, cm, ext):
    return (np.sqrt(((cf - ext) ** 2).sum()) + np.sqrt((np.asarray(cm) ** 2).sum())) / 2


def run(p, ob, kind="steady"):
    {"visits": visits, "optimum": optimum, "bounds": bounds, "real": real}[p["mode"]](p, ob, kind)


def visits(p, ob, kind):
    import scipy.optimize
    pr = p["pr"]
    cut = pr.get("cut", 0.01)
    B = [tuple(r) for r in box(kind, pr)]
    results = []

    def execution(choose):
        prob, op, ap, _ = setup(pr, kind, p["moving"])
        start = [op.velocity, op.alpha, op.beta] + ([op.external_thrust] if kind == "steady" else [])
        weight, s_ref, rho = ap.weight, ap.s_ref, op.density
        hist = []
        cur = {}

        def answer(v, a, b):
            x = cur["x"]
            ob.true((v, a, b) == tuple(x[:3]), "the solver sees the state the optimizer asked about: %s" % ((v, a, b, x),))
            ext = external(x, rho, weight, s_ref, kind)
            what = ANSWERS[choose(len(ANSWERS))]
            d = np.array([0.6, 0.0, -0.8])
            e = np.array([0.0, 0.8, 0.6])
            cf, cm = {"trimmed": (ext, 0 * e), "just inside": (ext + 0.98 * cut * d, 0.98 * cut * e), "just outside": (ext + 0.98 * cut * d, 1.06 * cut * e),
                      "drag": (ext + np.array([2.5 * cut, 0, 0]), 0 * e), "moment": (ext, -2.5 * cut * e), "far": (ext - 40 * cut * d, 30 * cut * e)}[what]
            cur["val"] = objective(cf, cm, ext)
            cur["trim"] = what in ("trimmed", "just inside")
            hist.append((tuple(x), what))
            ob.transitions += 1
            ob.state(kind, pr, hist)
            return cf, cm

        def visit(fun, x):
            cur["x"] = np.array(x, float)
            cur["val"] = None
            got = fun(cur["x"].copy())
            ob.true(cur["val"] is not None, "the state was analysed")
            ob.true(not cur["trim"], "the search goes on although the state is trimmed: %s" % hist)
            ob.close(got, cur["val"], "objective", rtol=1e-9)

        def points(where):
            lo, hi = np.array(where).T
            return [np.array(start), lo + 0.25 * (hi - lo), hi]

        def check_bounds(b, who):
            b = b if not hasattr(b, "lb") else np.column_stack([b.lb, b.ub])
            ob.close(np.array([list(r) for r in b], float), B, who + ": bounds")
            return [tuple(r) for r in b]

        def local(fun, x0, args=(), method=None, bounds=None, **kw):
            ob.close(x0, start, "starting point of the local search")
            pts = points(check_bounds(bounds, "local search"))
            for _ in range(p["local"]):
                visit(fun, pts[choose(3)])
            return scipy.optimize.OptimizeResult(x=pts[1], fun=cur["val"], success=True)

        def annealing(func, bounds, args=(), minimizer_kwargs=None, x0=None, **kw):
            pts = points(check_bounds(bounds, "global search"))
            if minimizer_kwargs and minimizer_kwargs.get("method"):
                ob.true(minimizer_kwargs.get("bounds") is not None, "the inner local search is bounded")
                check_bounds(minimizer_kwargs["bounds"], "inner local search")
            for _ in range(p["glob"]):
                visit(func, pts[choose(3)])
            return scipy.optimize.OptimizeResult(x=pts[1], fun=cur["val"], success=True)
        with patch.replaced((scipy.optimize, "minimize", local), (scipy.optimize, "dual_annealing", annealing)), World(kind, ob, answer, p["moving"], prob if kind == "unsteady" else None):
            got = analyze(kind, prob, op, B, cut, 50)
        hit = [h for h in hist if h[1] in ("trimmed", "just inside")]
        if hit:
            ob.true(hist[-1] is hit[0], "the analysis stops at the first trimmed state: %s" % hist)
            ob.close(got, hit[0][0], "trimmed state after %s" % hist, rtol=1e-12)
        else:
            ob.equal(len(hist), p["local"] + p["glob"], "visits")
            ob.true(np.shape(got) == (len(B),) and np.all(np.isnan(np.array(got, float))), "no trimmed state was found, but got %s after %s" % (got, hist))
        ob.traces += 1
        results.append((hist, [float(g) for g in got]))
    search.every_choice(execution, p["first"])
    ob.note("executions", len(results))
    ob.sig(p["moving"], p["pr"], results)


def optimum(p, ob, kind):
    """Scipy's own optimizers on an analytic environment with a known optimum."""
    np.random.seed(1)  # dual_annealing draws from here
    B = [tuple(r) for r in box(kind, p.get("pr"))]
    at = list(p["at"]) + [0.0]
    prob, op, ap, _ = setup(p.get("pr", {}), kind, p["moving"], p["start"])
    start = [op.velocity, op.alpha, op.beta, op.external_thrust]
    weight, s_ref, rho = ap.weight, ap.s_ref, op.density
    cut = 0.01

    def answer(v, a, b):
        ext = external([v, a, b, at[3]], rho, weight, s_ref, kind)
        return ext + np.array([0.0, 0.05 * (b - at[2]), 0.08 * (a - at[1])]), np.array([0.0, 0.04 * (v - at[0]), 0.0])
    with World(kind, ob, answer, p["moving"], prob if kind == "unsteady" else None) as w:
        got = analyze(kind, prob, op, B, cut, 60)
    ob.close(w.asked[0][:3], start[:3], "the search starts from the given flight state")
    lo, hi = np.array(B).T
    for x in w.asked:
        ob.true(np.all(np.array(x[:3]) >= lo[:3] - 1e-9) and np.all(np.array(x[:3]) <= hi[:3] + 1e-9), "state %s is inside the bounds" % (x,))
        ob.equal(x[3], rho, "density")
    g = np.array(got, float)
    ob.equal(g.shape, (len(B),), "number of values")
    ob.transitions += len(w.asked)
    ob.traces += 1
    if np.any(np.isnan(g)):
        ob.true(np.all(np.isnan(g)), "a partly found state: %s" % g)
        ob.true(not p["reach"], "a trimmed state inside the bounds was not found")
        ob.note("searches without result")
    else:
        ob.true(np.all(g >= lo - 1e-9) and np.all(g <= hi + 1e-9), "result %s is inside the bounds" % g)
        cf, cm = answer(*g[:3])
        val = objective(cf, cm, external(list(g) + [0.0], rho, weight, s_ref, kind))
        ob.true(val < cut, "objective %g of the result %s is below the cut-off" % (val, g))
        ob.close(w.asked[-1][:3], g[:3], "the search stopped there")
        ob.note("searches with result")
        ob.true(p["reach"], "a state out of reach was returned")
    ob.state(kind, p["at"], p["start"], list(g))
    ob.sig(p["at"], p["start"], p["moving"], list(g))


def bounds(p, ob, kind):
    prob, op, ap, _ = setup({}, kind)
    B = [tuple(r) for r in box(kind)]
    setattr(op, ["velocity", "alpha", "beta", "external_thrust"][p["i"]], p["value"])
    zero = lambda v, a, b: (external([v, a, b, op.external_thrust], op.density, ap.weight, ap.s_ref, kind), np.zeros(3))
    with World(kind, ob, zero) as w:
        if p["ok"]:
            got = analyze(kind, prob, op, B, 0.01, 5)
            ob.close(got, [op.velocity, op.alpha, op.beta, op.external_thrust], "a trimmed starting state is returned as it is")
            ob.equal(len(w.asked), 1, "analyses")
        else:
            ob.raises(lambda: analyze(kind, prob, op, B, 0.01, 5), "a starting state outside the bounds")
            ob.equal(len(w.asked), 0, "analyses")
    ob.traces += 1
    ob.transitions += 1
    ob.state(p["i"], p["value"])
    ob.sig(p["i"], p["value"])


def real(p, ob, kind):
    """The real solver: the returned state, solved afresh, is trimmed."""
    import pterasoftware as ps
    np.random.seed(1)  # dual_annealing draws from here
    j = p["j"]
    X = aero.X
    w = gen.wing([X(0, 0, 0, 1.0, ns=2, airfoil=["naca2412", "naca0012"][j % 2], twist=0.5 * j), X(0.1 * (j % 3), 3.0, 0.1 * (j % 4), 0.8)], sym=True, nc=2)
    # A tail with a little down load makes the airplane trimmable.
    t = aero.tail(at=(4.0, 0.0, 0.2), nc=1, ns=2)
    ap = gen.airplane([w, t], x=0.45 + 0.05 * (j % 3), weight=60.0 + 25.0 * j, s_ref=[None, 4.0][j % 2])
    o = gen.op(v=12.0, a=2.0, b=0.0, thrust=2.0)
    prob = gen.steady_problem([ap], o)
    B = [(6.0, 25.0), (-5.0, 12.0), (-1.0, 1.0), (0.0, 20.0)]
    cut = 0.02
    got = np.array(analyze("steady", prob, prob.operating_point, B, cut, 60), float)
    ob.transitions += 1
    ob.traces += 1
    ob.note("real searches with result" if np.all(np.isfinite(got)) else "real searches without result")
    if np.all(np.isfinite(got)):
        lo, hi = np.array(B).T
        ob.true(np.all(got >= lo - 1e-9) and np.all(got <= hi + 1e-9), "result %s is inside the bounds" % got)
        q = gen.steady_problem([ap], dict(o, v=got[0], a=got[1], b=got[2]))
        aero.run_quiet(aero.steady_solver("horseshoe", q))
        a = q.airplanes[0]
        val = objective(a.total_near_field_force_coefficients_wind_axes, a.total_near_field_moment_coefficients_wind_axes, external(got, o["rho"], ap["weight"], a.s_ref, "steady"))
        ob.true(val < cut * (1 + 1e-9), "objective %g of the result %s is below the cut-off" % (val, got))
    else:
        ob.true(np.all(np.isnan(got)), "a partly found state: %s" % got)
    ob.state("real", j, list(got))
    ob.sig(j, list(got))


def warm():
    aero.run_quiet(aero.steady_solver("horseshoe", gen.steady_problem(aero.configs()["flat"], gen.op())))
