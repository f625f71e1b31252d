"""C23: unsteady loads follow the unsteady Kutta-Joukowski theorem at every step."""
import numpy as np

from mc import aero
from mc.props import c11

PID = "C23"
LEVEL = "model_checking"
TECHNIQUE = "every reached time step of all enumerated motions judged by an independent unsteady Kutta-Joukowski load model"
NOTE = ("At every step of every enumerated simulation every panel's force and moment match the unsteady Kutta-Joukowski law (leg forces in the relative "
        "flow plus the apparent-mass term), and every airplane's totals follow from them (1e-7). Legs within rounding of another filament are counted and left out.")
RULE = ("All scenes with prescribed and free wakes, plus all motions within k deviations of a moving base case; a state is the set of panel loads at a "
        "step; outcomes are distinct load histories.")
BOUND = {"quick": "27 scenes x 2 wakes; k = 1, k = 2 with one value per parameter", "thorough": "27 scenes x 2 wakes; k = 2, both wakes"}


def cases(tier):
    return aero.unsteady_cases(tier)


def run(p, ob):
    prob, s = aero.unsteady(p["scene"])
    aero.run_quiet(s, prescribed_wake=not p["free"], calculate_streamlines=False)
    last, sig = None, []
    for k in range(prob.num_steps):
        st = aero.Step(prob, s, k)
        m, o, q = st.mesh, st.o, st.mesh.q
        fl, fr, bl, br = st.corners
        centers = [(br + fr) / 2, (fr + fl) / 2, (fl + bl) / 2]
        ok = np.ones(m.n, bool)
        for c in centers:
            ok &= ~aero.near_wake(st, c)

        moved = iter([None] * 3 if last is None else last["centers"])

        def vel(c):
            before = next(moved)
            v = st.flow(c)
            return v if before is None else v - (c - before) / st.dt
        F, M = c11.leg_loads(m, o, st.g, vel, st.corners)
        g0 = np.zeros(m.n) if last is None else last["g"]
        f = o["rho"] * ((g0 - st.g) * q.area / st.dt)[:, None] * q.normal
        F, M = F + f, M + np.cross(q.colloc - m.ref, f)
        ob.note("panels compared", int(ok.sum()))
        ob.note("panels left out", int((~ok).sum()))
        if ok.any():
            ob.close(aero.read(m.panels, "near_field_force_geometry_axes")[ok], F[ok], "step %d: panel forces" % k, scale=np.abs(F[ok]).max(), atol=0, rtol=1e-7)
            ob.close(aero.read(m.panels, "near_field_moment_geometry_axes")[ok], M[ok], "step %d: panel moments" % k, scale=np.abs(M[ok]).max(), atol=0, rtol=1e-7)
        aero.check_panels(ob, m, o, "step %d: " % k)
        aero.check_totals(ob, st.airplanes, m, o, "step %d: " % k)
        last = dict(centers=centers, g=st.g)
        ob.state(k, aero.read(m.panels, "near_field_force_geometry_axes"))
        ob.transitions += 1
        sig.append(aero.totals(st.airplanes))
    ob.traces += 1
    ob.sig(sig)


warm = aero.warm_all
