"""C10: the steady horseshoe solver solves its boundary value problem and integrates Kutta-Joukowski forces."""
import numpy as np

from mc import aero, gen, ref

PID = "C10"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of airplanes and flight states, each run judged by an independent vortex-lattice model"
NOTE = ("For every enumerated case the flow through every panel vanishes and every panel's force and moment match the Kutta-Joukowski law, evaluated "
        "with independent Biot-Savart sums (1e-8); larger meshes and other flight states are not covered.")
RULE = ("All configurations (1 to 4 airplanes, 1 to 4 wings, all structural features) x flight states, plus all wings within k deviations of the full "
        "wing; non-trivial: solver ran; outcomes are distinct strength vectors.")
BOUND = {"quick": "28 configurations x 11 flight states; k = 1, k = 2 with one value per parameter", "thorough": "28 x 47; k = 2"}


def cases(tier):
    return aero.wide(tier)


def flow(mesh, o, g, pts):
    V = ref.freestream(o)
    d = V / np.linalg.norm(V)
    q = mesh.q
    far = mesh.far[:, None] * d
    return V + ref.horseshoe_velocity(pts, q.cfr + far, q.cfr, q.cfl, q.cfl + far, g).sum(1)


def run(p, ob):
    import pterasoftware as ps
    o = p["op"]
    prob = gen.steady_problem(p["aps"], o)
    s = ps.steady_horseshoe_vortex_lattice_method.SteadyHorseshoeVortexLatticeMethodSolver(prob)
    aero.run_quiet(s)
    mesh = aero.Mesh(prob.airplanes)
    q = mesh.q
    g = np.array([k.horseshoe_vortex.strength for k in mesh.panels], float)
    ob.true(np.all(np.isfinite(g)), "finite strengths")
    w = flow(mesh, o, g, q.colloc)
    # No flow through any panel.
    ob.close((w * q.normal).sum(1), np.zeros(mesh.n), "flow through the panels", scale=o["v"])
    # Kutta-Joukowski on the bound legs.
    c = (q.cfr + q.cfl) / 2
    F = o["rho"] * g[:, None] * np.cross(flow(mesh, o, g, c), q.cfl - q.cfr)
    M = np.cross(c - mesh.ref, F)
    fs = np.abs(F).max()
    ob.close(aero.read(mesh.panels, "near_field_force_geometry_axes"), F, "panel forces", scale=fs, atol=0)
    ob.close(aero.read(mesh.panels, "near_field_moment_geometry_axes"), M, "panel moments", scale=np.abs(M).max(), atol=0)
    aero.check_panels(ob, mesh, o)
    aero.check_totals(ob, prob.airplanes, mesh, o)
    pts = aero.sample_points(mesh)
    ob.close(s.calculate_solution_velocity(points=pts), flow(mesh, o, g, pts), "velocity field of the solution", scale=o["v"], rtol=1e-7)
    ob.sig(g)


def warm():
    class O:
        def __getattr__(self, n):
            return lambda *a, **k: None
    run(cases("quick")[3][1], O())
