"""C11: the steady ring solver solves its boundary value problem and integrates Kutta-Joukowski forces."""
import numpy as np

from mc import aero, gen, ref

PID = "C11"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of airplanes and flight states, each run judged by an independent vortex-lattice model"
NOTE = ("For every enumerated case the flow through every panel vanishes and every panel's force and moment match the Kutta-Joukowski law, evaluated "
        "with independent Biot-Savart sums (1e-8); larger meshes and other flight states are not covered.")
RULE = ("All configurations (1 to 4 airplanes, 1 to 4 wings, all structural features) x flight states, plus all wings within k deviations of the full "
        "wing; non-trivial: solver ran; outcomes are distinct strength vectors.")
BOUND = {"quick": "28 configurations x 11 flight states; k = 1, k = 2 with one value per parameter", "thorough": "28 x 47; k = 2"}


def cases(tier):
    return aero.wide(tier)


def flow(mesh, o, g, pts):
    """Closed rings on every panel; behind each trailing edge the wake trails off along the freestream."""
    V = ref.freestream(o)
    d = V / np.linalg.norm(V)
    fl, fr, bl, br = mesh.rings(np.zeros(3))
    te = mesh.te
    far = mesh.far[te][:, None] * d
    v = ref.ring_velocity(pts, fl, fr, bl, br, g).sum(1)
    return V + v + ref.horseshoe_velocity(pts, br[te] + far, br[te], bl[te], bl[te] + far, g[te]).sum(1)


def leg_loads(mesh, o, g, vel, corners):
    """Kutta-Joukowski loads on the right, front and left legs, with shared legs counted once per panel."""
    fl, fr, bl, br = corners
    gr, gf, gl = mesh.effective(g)
    F, M = 0.0, 0.0
    for s, a, b in ((gr, br, fr), (gf, fr, fl), (gl, fl, bl)):
        c = (a + b) / 2
        f = o["rho"] * s[:, None] * np.cross(vel(c), b - a)
        F = F + f
        M = M + np.cross(c - mesh.ref, f)
    return F, M


def run(p, ob):
    import pterasoftware as ps
    o = p["op"]
    prob = gen.steady_problem(p["aps"], o)
    s = ps.steady_ring_vortex_lattice_method.SteadyRingVortexLatticeMethodSolver(prob)
    aero.run_quiet(s)
    mesh = aero.Mesh(prob.airplanes)
    q = mesh.q
    g = np.array([k.ring_vortex.strength for k in mesh.panels], float)
    ob.true(np.all(np.isfinite(g)), "finite strengths")
    ob.close((flow(mesh, o, g, q.colloc) * q.normal).sum(1), np.zeros(mesh.n), "flow through the panels", scale=o["v"])
    corners = mesh.rings(np.zeros(3))
    F, M = leg_loads(mesh, o, g, lambda c: flow(mesh, o, g, c), corners)
    fl, fr, bl, br = corners
    ok = ~(aero.beside_gap((br + fr) / 2, corners) | aero.beside_gap((fr + fl) / 2, corners) | aero.beside_gap((fl + bl) / 2, corners))
    ob.note("panels compared", int(ok.sum()))
    ob.note("panels beside a hairline mesh gap, not compared", int((~ok).sum()))
    fs, ms = np.abs(F[ok]).max(), np.abs(M[ok]).max()
    ob.close(aero.read(mesh.panels, "near_field_force_geometry_axes")[ok], F[ok], "panel forces", scale=fs, atol=0)
    ob.close(aero.read(mesh.panels, "near_field_moment_geometry_axes")[ok], M[ok], "panel moments", scale=ms, atol=0)
    aero.check_panels(ob, mesh, o)
    aero.check_totals(ob, prob.airplanes, mesh, o)
    for k, te in zip(mesh.panels, mesh.te):
        if te:
            ob.close(k.horseshoe_vortex.strength, k.ring_vortex.strength, "wake strength behind a trailing edge")
    pts = aero.sample_points(mesh)
    ob.close(s.calculate_solution_velocity(points=pts), flow(mesh, o, g, pts), "velocity field of the solution", scale=o["v"], rtol=1e-7)
    ob.sig(g)


def warm():
    class O:
        def __getattr__(self, n):
            return lambda *a, **k: None
    run(cases("quick")[3][1], O())
