"""C31: streamlines start at the trailing edges and follow the velocity field of the solution."""
import numpy as np

from mc import aero, gen, ref
from mc.props import c10, c11

PID = "C31"
LEVEL = "model_checking"
TECHNIQUE = "step-by-step replay of every streamline of all enumerated cases against independent velocity fields"
NOTE = ("Every step of every streamline of every enumerated case is compared with an Euler step through an independently evaluated velocity field (1e-7). Points within "
        "rounding of a vortex filament are counted and left out. Other meshes and flight states are not covered.")
RULE = ("All configurations x flight states for both steady solvers, all unsteady scenes with both wakes, x redrawn streamlines of other lengths and time steps; a transition is "
        "one row of streamline points; outcomes are distinct streamlines.")
BOUND = {"quick": "28 configurations x 5 flight states x 2 solvers; 16 scenes x 2 wakes; 6 drawings each", "thorough": "28 configurations x 22 flight states x 2 solvers; all unsteady cases with k = 1; 6 drawings each"}


def cases(tier):
    q = tier == "quick"
    out = []
    ops = [aero.OPS[i] for i in (0, 3, 4, 6, 9)] if q else list(aero.OPS) + [gen.op(v=v, a=a, b=b) for v in (3.0, 60.0) for a in (-10.0, 2.0, 15.0) for b in (-12.0, 0.0, 4.0)][:15]
    for n, aps in aero.configs().items():
        for o in ops:
            for kind in ("horseshoe", "ring"):
                out.append(("%s %s %s" % (kind, n, aero.opkey(o)), dict(kind=kind, aps=aps, op=o)))
    un = aero.unsteady_cases("quick")
    for k, p in un[:32] if q else un:
        out.append(("unsteady " + k, dict(p, kind="unsteady")))
    return out


def near(points, segments):
    """Close to a filament, or to the line through it, but not on it."""
    out = np.zeros(len(points), bool)
    for a, b in segments:
        r1, r2 = points[:, None] - a[None], points[:, None] - b[None]
        c2 = (np.cross(r1, r2) ** 2).sum(-1)
        d = (r1 ** 2).sum(-1) * (r2 ** 2).sum(-1)
        out |= ((c2 > 1e-22 * d) & (c2 < 1e-11 * d) & ((r1 * r2).sum(-1) < 0.0)).any(1)
    return out


def run(p, ob):
    import pterasoftware as ps
    if p["kind"] == "unsteady":
        prob, s = aero.unsteady(p["scene"])
        aero.run_quiet(s, prescribed_wake=not p["free"], calculate_streamlines=True)
        st = aero.Step(prob, s, prob.num_steps - 1)
        mesh, speed = st.mesh, st.o["v"]
        field = st.flow
        skip = lambda x: aero.near_wake(st, x)
    else:
        o = p["op"]
        prob = gen.steady_problem(p["aps"], o)
        s = aero.run_quiet(aero.steady_solver(p["kind"], prob))
        mesh, speed = aero.Mesh(prob.airplanes), o["v"]
        g = np.array([getattr(k, p["kind"] + "_vortex").strength for k in mesh.panels], float)
        d = ref.freestream(o) / o["v"]
        q = mesh.q
        if p["kind"] == "horseshoe":
            field = lambda x: c10.flow(mesh, o, g, x)
            far = mesh.far[:, None] * d
            segs = [(q.cfr, q.cfl), (q.cfr, q.cfr + far), (q.cfl, q.cfl + far)]
        else:
            field = lambda x: c11.flow(mesh, o, g, x)
            fl, fr, bl, br = mesh.rings(np.zeros(3))
            te = mesh.te
            far = mesh.far[te][:, None] * d
            segs = [(fl, fr), (fr, br), (br, bl), (bl, fl), (br[te], br[te] + far), (bl[te], bl[te] + far)]
        skip = lambda x: near(x, segs)
    te = mesh.te
    seeds = (mesh.q.bl[te] + mesh.q.br[te]) / 2
    sig = []
    for i, (n, dt) in enumerate([(25, 0.02), (4, 0.1), (1, 0.003), (3, -0.02), (0, 0.02), (2, 1e-6)]):
        if i == 1:
            ps.functions.calculate_streamlines(s, num_steps=n, delta_time=dt)
        elif i > 1:
            ps.functions.calculate_streamlines(s, n, dt)
        P = np.array(s.streamline_points, float)
        ob.equal(P.shape, (n + 1, len(seeds), 3), "shape of the streamlines")
        ob.close(P[0], seeds, "seed points", rtol=1e-12)
        x = P[:-1].reshape(-1, 3)
        v = field(x)
        ok = ~skip(x)
        ob.note("points compared", int(ok.sum()))
        ob.note("points left out", int((~ok).sum()))
        if ok.any():
            ob.close((P[1:].reshape(-1, 3) - x)[ok], v[ok] * dt, "streamline steps", scale=max(speed, np.abs(v[ok]).max()) * abs(dt), rtol=1e-7, atol=1e-14 * np.abs(x).max())
        ob.transitions += n
        ob.state(p["kind"], i, P[-1])
        sig.append(P[-1])
    ob.traces += 1
    ob.sig(p["kind"], sig)


warm = aero.warm_all
