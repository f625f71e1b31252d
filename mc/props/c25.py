"""C25: the steady convergence analysis analyses the given airplane and returns the documented mesh."""
import itertools

import numpy as np

from mc import aero, gen, search
from mc.props import c01, c17

PID = "C25"
LEVEL = "model_checking"
TECHNIQUE = "stateless exploration of every choice the solver could make at every mesh, with the real analysis, against an explicit decision model"
NOTE = ("The aerodynamic solver is replaced by a demonic environment that answers every request with every value of an alphabet; all answer sequences are explored "
        "on the real analysis and every result compared with the documented rule. Meshes it asks for are compared with the reference wing.")
RULE = ("All answer sequences over the alphabet, cut where the analysis returns, for each pair of bounds, criterion and formation; plus all wings within one deviation of "
        "two base wings; a state is the table of answers so far; outcomes are distinct (answers, result) pairs.")
BOUND = {"quick": "grids up to 4 meshes with 4 answers each, 6 meshes with 3, formations up to 4 meshes with 5; wings at k = 1", "thorough": "grids up to 6 meshes with 4 answers each, 9 meshes with 3, formations up to 6 meshes with 5; wings at k = 2"}
CHUNK = 1

ONE = [(1.0, 1.0), (1.03, 1.0), (1.051, 1.0), (1.0, 1.3)]
NEAR = [(1.0, 1.0), (1.0, 1.051), (1.3, 1.0), (-1.0, 1.0)]
TIES = [(1.0, 1.0), (1.0499995, 1.0), (1.0500005, 1.0), (0.9499995, 1.0)]
SMALL = [(1.0, 1.0), (1.00019999, 1.0), (1.00020001, 1.0), (0.9998, 1.0001)]
TWO = [(1.0, 1.0, 1.0, 1.0), (1.3, 1.0, 1.0, 1.0), (1.0, 1.3, 1.0, 1.0), (1.0, 1.0, 0.7, 1.0), (1.0, 1.0, 1.0, 1.3)]


def span(ars):
    return 6.0 if ars[0] < 4 else 12.0


def spec(n, ars=(1, 1)):
    """A chord of one and a span such that every (panel aspect ratio, chordwise panels) pair asks for its own number of spanwise panels."""
    X = aero.X
    w = lambda y: gen.wing([X(0, 0, 0, 1.0, ns=1), X(0, span(ars), 0, 1.0)], nc=1, x=y, sp="uniform")
    return [gen.airplane([w(5.0 * i)]) for i in range(n)]


def winglet():
    """A wing whose last section does not advance along the span: one panel has to do there."""
    X = aero.X
    return gen.wing([X(0, 0, 0, 1.0, ns=2), X(0.1, 2.5, 0.1, 0.8, ns=3), X(0.3, 2.5, 0.9, 0.4)], nc=2, sym=True)


def cases(tier):
    q = tier == "quick"
    out = []
    bounds = [((3, 2), (1, 2)), ((2, 1), (1, 2)), ((1, 1), (1, 3)), ((3, 3), (2, 4)), ((3, 1), (2, 2)), ((4, 2), (1, 1)), ((2, 2), (3, 3)), ((1, 1), (2, 2)), ((3, 2), (1, 3)), ((3, 1), (1, 2))]
    if not q:
        bounds += [((3, 1), (1, 3)), ((4, 2), (1, 3)), ((2, 1), (1, 4)), ((4, 1), (1, 2)), ((5, 1), (3, 3)), ((1, 1), (1, 6))]
    for ars, ncs in bounds:
        cells = (ars[0] - ars[1] + 1) * (ncs[1] - ncs[0] + 1)
        for name, alpha in (("force", ONE), ("moment", NEAR)):
            for crit in (5.0, 1.0) if cells < 6 else (5.0,):
                if cells > 6 and name == "moment":
                    continue
                use = alpha if cells < (6 if q else 7) else alpha[:3]
                # Spread the first answers over cases.
                for first in itertools.product(range(len(use)), repeat=2 if cells > 3 else 1):
                    out.append(("%s AR=%s nc=%s criterion=%g first=%s" % (name, ars, ncs, crit, first), dict(kind="tree", n=1, ars=ars, ncs=ncs, crit=crit, alpha=use, first=list(first),
                                                                                                   solver=("horseshoe", "ring")[first[0] % 2])))
        if cells <= (4 if q else 6):
            for first in range(5):
                out.append(("formation AR=%s nc=%s first=%d" % (ars, ncs, first), dict(kind="tree", n=2, ars=ars, ncs=ncs, crit=5.0, alpha=TWO, first=[first], solver="ring")))
    # Changes that miss or meet the criterion by a hair.
    for ars, ncs in (((3, 3), (2, 4)), ((3, 2), (1, 2)), ((3, 1), (2, 2))):
        for name, alpha, crit in (("force", TIES, 5.0), ("moment", [(b, a) for a, b in TIES], 5.0), ("force", SMALL, 0.02)):
            for first in range(4):
                out.append(("near ties %s %g AR=%s nc=%s first=%d" % (name, crit, ars, ncs, first), dict(kind="tree", n=1, ars=ars, ncs=ncs, crit=crit, alpha=alpha, first=[first], solver=("horseshoe", "ring")[first % 2])))
    for b, base in (("plain", c01.PLAIN), ("full", dict(c01.FULL, nc=2))):
        for key, p in gen.named(b, gen.deviations(c01.SPACE, base, 1 if q else 2)):
            if c01.legal(p):
                out.append(("mesh " + key, dict(kind="mesh", wings=[c01.spec(p)], ars=(5, 1), ncs=(1, 4))))
        for f in c01.FRAMES:
            for side in (1.0, -1.0):
                out.append(("mesh %s, frame %g,%g,%g side=%g" % ((b,) + f + (side,)), dict(kind="mesh", wings=[c01.turned(c01.spec(dict(base, side=side)), f)], ars=(5, 1), ncs=(1, 4))))
    out.append(("mesh airplane with a fin", dict(kind="mesh", wings=[aero.full(), aero.tail(), aero.fin()], ars=(4, 2), ncs=(2, 5))))
    out.append(("mesh winglet", dict(kind="mesh", wings=[winglet()], ars=(5, 1), ncs=(1, 4))))
    out.append(("mesh airplane", dict(kind="mesh", wings=[aero.full(), aero.tail()], ars=(4, 2), ncs=(2, 5))))
    out.append(("mesh narrow", dict(kind="mesh", wings=[aero.rect(span=0.3)], ars=(6, 1), ncs=(1, 3))))
    return out


def decide(ars, ncs, crit, table):
    """The first mesh, coarse to fine, whose next coarser neighbours in both directions agree with it."""
    A = list(range(ars[0], ars[1] - 1, -1))
    C = list(range(ncs[0], ncs[1] + 1))

    def change(new, old):
        return max(100 * abs((abs(a) - abs(b)) / abs(b)) for a, b in zip(new, old))
    for i, a in enumerate(A):
        for j, c in enumerate(C):
            if (a, c) not in table:
                return None  # the analysis may not have stopped here
            ok_a = i > 0 and change(table[a, c], table[A[i - 1], c]) < crit
            ok_c = j > 0 and change(table[a, c], table[a, C[j - 1]]) < crit
            if (ok_a or len(A) == 1 or a == 1) and (ok_c or len(C) == 1):
                return [A[i - 1] if ok_a else a, C[j - 1] if ok_c else c]
    return [None, None]


def answer(airplanes, values, cell):
    """Coefficient vectors with the given sizes, in directions that vary from mesh to mesh."""
    d = [np.array([1.0, 0.0, 0.0]), np.array([-0.6, 0.0, 0.8]), np.array([0.48, 0.6, -0.64])]
    for i, a in enumerate(airplanes):
        f, m = values[2 * i], values[2 * i + 1]
        a.total_near_field_force_coefficients_wind_axes = f * d[(cell[0] + cell[1]) % 3]
        a.total_near_field_moment_coefficients_wind_axes = m * d[(cell[0] + 2 * cell[1]) % 3]
        # Loads that are not coefficients must not matter.
        a.total_near_field_force_wind_axes = np.array([7.0, 1.0, 2.0]) * (1 + cell[0] ** 2 + 5 * cell[1])
        a.total_near_field_moment_wind_axes = np.array([3.0, -1.0, 2.0]) * (1 + cell[0] ** 3 + cell[1])


def quiet():
    import logging
    import pterasoftware as ps
    ps.convergence.convergence_logger.setLevel(logging.CRITICAL)


def run(p, ob):
    import pterasoftware as ps
    quiet()
    H = ps.steady_horseshoe_vortex_lattice_method.SteadyHorseshoeVortexLatticeMethodSolver
    R = ps.steady_ring_vortex_lattice_method.SteadyRingVortexLatticeMethodSolver
    if p["kind"] == "mesh":
        return mesh(p, ob, H)
    prob = gen.steady_problem(spec(p["n"], p["ars"]), gen.op())
    solver, wanted = (H, R) if p["solver"] == "horseshoe" else (R, H)
    name = "steady %s vortex lattice method" % p["solver"]
    before = [c17.freeze(a) for a in prob.airplanes]
    ns = {}
    # (The number of spanwise panels tells the stub which mesh it is asked to solve.)
    for a in range(p["ars"][0], p["ars"][1] - 1, -1):
        for c in range(p["ncs"][0], p["ncs"][1] + 1):
            assert (c, max(1, round(span(p["ars"]) * c / a))) not in ns
            ns[c, max(1, round(span(p["ars"]) * c / a))] = (a, c)
    results = []

    def execution(choose):
        table = {}

        def stub(self, *args, **kw):
            w = self.airplanes[0].wings[0]
            ob.true((w.num_chordwise_panels, w.num_spanwise_panels) in ns, "a mesh within the bounds: %s" % ((w.num_chordwise_panels, w.num_spanwise_panels),))
            cell = ns[w.num_chordwise_panels, w.num_spanwise_panels]
            ob.true(cell not in table, "each mesh is solved once")
            ob.equal(len(self.airplanes), p["n"], "airplanes")
            table[cell] = p["alpha"][choose(len(p["alpha"]))]
            answer(self.airplanes, table[cell], cell)
            ob.state(p["ars"], p["ncs"], sorted(table.items()))
            ob.transitions += 1

        def other(self, *args, **kw):
            ob.fail("the other solver was used")
        saved = solver.run, wanted.run
        solver.run, wanted.run = stub, other
        try:
            got = ps.convergence.analyze_steady_convergence(prob, name, panel_aspect_ratio_bounds=p["ars"], num_chordwise_panels_bounds=p["ncs"], convergence_criteria=p["crit"])
        finally:
            solver.run, wanted.run = saved
        want = decide(p["ars"], p["ncs"], p["crit"], table)
        ob.true(list(got) == want, "answers %s: got %s, expected %s" % (sorted(table.items()), got, want))
        ob.traces += 1
        results.append((sorted(table.items()), list(got)))
    search.every_choice(execution, p["first"])
    ob.true([c17.freeze(a) for a in prob.airplanes] == before, "the reference airplanes are untouched")
    ob.note("executions", len(results))
    ob.sig(results)


def section_counts(wing, ar, nc):
    """How many panels give each section panels of the aspect ratio, its length measured along the wing's span."""
    out = []
    n = np.array(wing["normal"], float)
    for a, b in zip(wing["xs"][:-1], wing["xs"][1:]):
        x = abs(float(np.array([b[c] - a[c] for c in "xyz"]) @ n)) * nc / ((a["chord"] + b["chord"]) / 2 * ar)
        out.append({max(1, round(x * (1 + e))) for e in (-1e-12, 0.0, 1e-12)})
    return out


def same_wing(ob, w, rw, counts, nc, what):
    ob.equal((w.name, w.symmetric, w.chordwise_spacing, w.num_chordwise_panels), (rw.name, rw.symmetric, rw.chordwise_spacing, nc), what + "wing")
    ob.close([w.x_le, w.y_le, w.z_le], [rw.x_le, rw.y_le, rw.z_le], what + "leading edge")
    ob.close(w.unit_normal_vector, rw.unit_normal_vector, what + "wing plane")
    ob.close(w.unit_chordwise_vector, rw.unit_chordwise_vector, what + "chordwise direction")
    ob.equal(len(w.wing_cross_sections), len(rw.wing_cross_sections), what + "sections")
    for k, (x, rx) in enumerate(zip(w.wing_cross_sections, rw.wing_cross_sections)):
        ob.close([x.x_le, x.y_le, x.z_le, x.chord, x.twist, x.control_surface_hinge_point, x.control_surface_deflection],
                 [rx.x_le, rx.y_le, rx.z_le, rx.chord, rx.twist, rx.control_surface_hinge_point, rx.control_surface_deflection], what + "section %d" % k)
        ob.equal((x.control_surface_type, x.spanwise_spacing, x.airfoil.name), (rx.control_surface_type, rx.spanwise_spacing, rx.airfoil.name), what + "section %d" % k)
        ob.close(x.unit_normal_vector, rx.unit_normal_vector, what + "section %d plane" % k)
        ob.close(x.airfoil.coordinates, rx.airfoil.coordinates, what + "section %d outline" % k, atol=1e-6)
        if k < len(counts):
            ob.true(x.num_spanwise_panels in counts[k], what + "section %d: %d panels, expected %s" % (k, x.num_spanwise_panels, counts[k]))


def mesh(p, ob, H):
    """Every mesh the analysis solves has the reference wing's shape and the requested panels."""
    import pterasoftware as ps
    aps = [gen.airplane(p["wings"], x=0.3, z=0.2, name="ref", weight=5.0)]
    prob = gen.steady_problem(aps, gen.op(v=7.0, b=3.0))
    todo = [(a, c) for a in range(p["ars"][0], p["ars"][1] - 1, -1) for c in range(p["ncs"][0], p["ncs"][1] + 1)]
    seen = []
    sig = []

    def stub(self, *args, **kw):
        a, c = todo[len(seen)]
        ap, rap = self.airplanes[0], prob.airplanes[0]
        what = "AR %d, %d chordwise panels: " % (a, c)
        ob.equal((ap.name, ap.x_ref, ap.y_ref, ap.z_ref, ap.weight), (rap.name, rap.x_ref, rap.y_ref, rap.z_ref, rap.weight), what + "airplane")
        ob.true(self.operating_point is prob.operating_point or c17.freeze(self.operating_point) == c17.freeze(prob.operating_point), what + "operating point")
        ob.equal(len(ap.wings), len(rap.wings), what + "wings")
        for w, rw, s in zip(ap.wings, rap.wings, p["wings"]):
            same_wing(ob, w, rw, section_counts(s, a, c), c, what)
            sig.append([x.num_spanwise_panels for x in w.wing_cross_sections])
        seen.append((a, c))
        answer([ap], (2.0 ** len(seen), 3.0 ** len(seen)), (0, 0))
    saved = H.run
    H.run = stub
    try:
        got = ps.convergence.analyze_steady_convergence(prob, "steady horseshoe vortex lattice method", panel_aspect_ratio_bounds=p["ars"], num_chordwise_panels_bounds=p["ncs"])
    finally:
        H.run = saved
    ob.equal(list(got), [None, None], "a table that never settles")
    ob.equal(len(seen), len(todo), "meshes solved")
    ob.sig(sig, gen.short(p["wings"][0]))


def warm():
    gen.build_airplane(spec(1)[0])
