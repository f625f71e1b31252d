"""C21: wake vertices move with the freestream (prescribed wake) or with the local flow (free wake)."""
import numpy as np

from mc import aero, ref

PID = "C21"
LEVEL = "model_checking"
TECHNIQUE = "step-by-step replay of the convection law against the recorded states of the real solver, over all enumerated motions"
NOTE = ("Every wake vertex of every step of every enumerated simulation is compared with the position the law gives it, using independent Biot-Savart sums "
        "for free wakes (1e-7 of the distance travelled). Vertices within rounding of a filament they do not lie on are counted and left out.")
RULE = ("All scenes with prescribed and free wakes, plus all motions within k deviations of a moving base case; a transition is one step of one wing's "
        "wake; outcomes are distinct vertex grids.")
BOUND = {"quick": "27 scenes x 2 wakes; k = 1, k = 2 with one value per parameter", "thorough": "27 scenes x 2 wakes; k = 2, both wakes"}


def cases(tier):
    return aero.unsteady_cases(tier)


def grids(st):
    out = []
    for w in st.by_wing():
        fl, fr, bl, br = w["v"]
        if st.k == 0:
            out.append(None)
            continue
        g = np.zeros((st.k + 1, w["ns"] + 1, 3))
        g[:-1, :-1], g[:-1, -1], g[-1, :-1], g[-1, -1] = fl, fr[:, -1], bl[-1], br[-1, -1]
        out.append(g)
    return out


def run(p, ob):
    prob, s = aero.unsteady(p["scene"])
    aero.run_quiet(s, prescribed_wake=not p["free"], calculate_streamlines=False)
    steps = [aero.Step(prob, s, k) for k in range(prob.num_steps)]
    dt = prob.delta_time
    sig = []
    for a, b in zip(steps, steps[1:]):
        old, new = grids(a), grids(b)
        for i, (g0, g1) in enumerate(zip(old, new)):
            # At the first step the new row is itself carried one step on, to close the first rings.
            start = g1[:1] if a.k == 0 else g0
            got = g1[1:]
            pts = start.reshape(-1, 3)
            if p["free"]:
                v = a.flow(pts)
                ok = ~aero.near_wake(a, pts)
            else:
                v = np.repeat(a.V[None], len(pts), 0)
                ok = np.ones(len(pts), bool)
            want = pts + v * dt
            ob.equal(got.reshape(-1, 3).shape, pts.shape, "vertices kept")
            speed = max(a.o["v"], np.abs(v[ok]).max() if ok.any() else 0.0)
            ob.close(got.reshape(-1, 3)[ok], want[ok], "step %d to %d, wing %d: convected vertices" % (a.k, b.k, i), scale=speed * dt, rtol=1e-7,
                     atol=1e-13 * np.abs(pts).max())
            ob.note("vertices compared", int(ok.sum()))
            ob.note("vertices left out", int((~ok).sum()))
            ob.transitions += 1
            ob.state(i, b.k, g1)
            sig.append(g1[1:])
    ob.traces += 1
    if len(steps) < 2:
        ob.trivial()
    ob.sig(sig)


warm = aero.warm_all
