"""C20: the wake grows by one row per step, keeps the strength it was shed with, ages with time and joins up."""
import numpy as np

from mc import aero

PID = "C20"
LEVEL = "model_checking"
TECHNIQUE = "step-by-step replay of an explicit wake model against the recorded states of the real solver, over all enumerated motions"
NOTE = ("Every transition of every enumerated simulation is compared with an explicit transition system of the wake (rows, strengths, ages, connectivity); "
        "positions of older rows are left to C21. Longer simulations and other meshes are not covered.")
RULE = ("All scenes with prescribed and free wakes, plus all motions within k deviations of a moving base case; a state is the wake of one wing at one step; "
        "outcomes are distinct wakes.")
BOUND = {"quick": "27 scenes x 2 wakes; k = 1, k = 2 with one value per parameter", "thorough": "27 scenes x 2 wakes; k = 2, both wakes"}


def cases(tier):
    return aero.unsteady_cases(tier)


def run(p, ob):
    prob, s = aero.unsteady(p["scene"])
    aero.run_quiet(s, prescribed_wake=not p["free"], calculate_streamlines=False)
    n = prob.num_steps
    ob.equal(len(s.wake_ring_vortex_strengths_list), n, "recorded steps")
    for name in ("strengths", "ages", "front_left_vertices", "front_right_vertices", "back_left_vertices", "back_right_vertices"):
        ob.equal(len(getattr(s, "wake_ring_vortex_%s_list" % name)), n, "recorded steps of " + name)
    ob.equal(len(s.num_wake_ring_vortices_list), n, "recorded steps of wake sizes")
    model = None  # per wing: list of rows of strengths, newest first
    last_te = None
    sig = []
    for k in range(n):
        st = aero.Step(prob, s, k)
        wings = st.by_wing()
        ob.equal(len(st.w_g), st.n_wake, "rings in the wake at step %d" % k)
        ob.equal(int(s.num_wake_ring_vortices_list[k]), st.n_wake, "recorded size of the wake at step %d" % k)
        if k == 0:
            model = [[] for _ in wings]
        else:
            model = [[te[0]] + rows for te, rows in zip(last_te, model)]
        te = st.te()
        for i, w in enumerate(wings):
            what = "step %d wing %d: " % (k, i)
            ob.equal(w["g"].shape, (k, w["ns"]), what + "rows of the wake")
            if k:
                ob.close(w["g"], np.array(model[i]), what + "strengths", rtol=1e-12)
                ob.close(w["age"], np.repeat(np.arange(k)[:, None] * prob.delta_time, w["ns"], 1), what + "ages", rtol=1e-10)
                fl, fr, bl, br = w["v"]
                size = np.abs(fl).max() + np.abs(br).max()
                ob.close(fl[0], te[i][1], what + "the newest row starts at the trailing edge rings (left)", scale=size, rtol=1e-11)
                # (Where deflected control surfaces part the trailing edge, the wake starts at the left edges of the strips.)
                ob.close(fr[0], np.concatenate([te[i][1][1:], te[i][2][-1:]]), what + "the newest row starts at the trailing edge rings (right)", scale=size, rtol=1e-11)
                ob.close(fl[1:], bl[:-1], what + "rows join (left)", scale=size, rtol=1e-11)
                ob.close(fr[1:], br[:-1], what + "rows join (right)", scale=size, rtol=1e-11)
                ob.close(fl[:, 1:], fr[:, :-1], what + "columns join (front)", scale=size, rtol=1e-11)
                ob.close(bl[:, 1:], br[:, :-1], what + "columns join (back)", scale=size, rtol=1e-11)
                V = np.array(w["wing"].wake_ring_vortex_vertices, float)
                ob.equal(V.shape, (k + 1, w["ns"] + 1, 3), what + "shape of the vertex grid")
                for c, g, name in ((fl, V[:-1, :-1], "front left"), (fr, V[:-1, 1:], "front right"), (bl, V[1:, :-1], "back left"), (br, V[1:, 1:], "back right")):
                    ob.close(g, c, what + "vertex grid and rings agree (%s)" % name, scale=size, rtol=1e-11)
            # The bound rings: quarter chord to quarter chord, the last ones a quarter of a step behind the trailing edge.
            ob.state(i, k, w["g"], w["age"])
        for q, name in zip(st.corners, ("front_left_vertex", "front_right_vertex", "back_left_vertex", "back_right_vertex")):
            ob.close(aero.read([x.ring_vortex for x in st.mesh.panels], name), q, "step %d: bound rings' %s" % (k, name), rtol=1e-11)
        ob.true(np.all(np.isfinite(st.g)), "finite strengths")
        last_te = te
        ob.transitions += 1
        sig.append([st.w_g, st.g])
    # The wake's vortex objects carry the same record (they travel on, so only the last step's are as recorded).
    for i, w in enumerate(wings):
        rv = w["wing"].wake_ring_vortices
        ob.equal(rv.shape, (n - 1, w["ns"]), "wing %d: grid of wake vortices at the end" % i)
        if n > 1:
            flat = list(rv.ravel())
            ob.equal(len({id(v) for v in flat}), len(flat), "wing %d: distinct wake vortices" % i)
            ob.close(aero.read(flat, "strength").reshape(rv.shape), w["g"], "wing %d: strengths of the wake vortices at the end" % i, rtol=1e-12)
            ob.close(aero.read(flat, "age").reshape(rv.shape), w["age"], "wing %d: ages of the wake vortices at the end" % i, rtol=1e-10)
            for c, name in zip(w["v"], ("front_left_vertex", "front_right_vertex", "back_left_vertex", "back_right_vertex")):
                ob.close(aero.read(flat, name).reshape(c.shape), c, "wing %d: %s of the wake vortices at the end" % (i, name), scale=1 + np.abs(c).max(), rtol=1e-11)
    ob.traces += 1
    if n < 2:
        ob.trivial()
    ob.sig(sig)


warm = aero.warm_all
