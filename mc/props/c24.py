"""C24: calculating only the final results gives the same final results."""
import numpy as np

from mc import aero, gen

PID = "C24"
LEVEL = "model_checking"
TECHNIQUE = "paired execution of the real solver on all enumerated motions, with and without the restriction to final results"
NOTE = "For every enumerated simulation both modes are run and every shared result compared (1e-12); longer simulations and other meshes are not covered."
RULE = ("All scenes with prescribed and free wakes, all motions within k deviations of a moving base case, and all step counts around one to three "
        "averaging windows; a state is the pair of results at a step; outcomes are distinct final loads.")
BOUND = {"quick": "27 scenes x 2 wakes; k = 1, k = 2 with one value per parameter; 60 windows", "thorough": "27 scenes x 2 wakes; k = 2; 400 windows"}


def cases(tier):
    out = aero.unsteady_cases(tier)
    c = aero.configs()
    name = "one panel"
    q = tier == "quick"
    for T in (0.1, 0.25, 0.3) if q else (0.1, 0.2, 0.25, 0.3, 0.35, 0.5):
        for dt in (0.05, 0.1) if q else (0.04, 0.05, 0.07, 0.1):
            for n in range(1, 11 if q else 17):
                mv = aero.moving(c[name], sec=dict(sa=8.0, sT=T))
                out.append(("window T=%g dt=%g n=%d" % (T, dt, n), dict(scene=(c[name], mv, gen.op(), gen.OM, dict(gen.MV, steps=n, dt=dt)), free=n % 2 == 0)))
    return out


def run(p, ob):
    res = []
    for only in (False, True):
        prob, s = aero.unsteady(p["scene"], only_final=only)
        aero.run_quiet(s, prescribed_wake=not p["free"], calculate_streamlines=False)
        res.append((prob, s))
    (pf, sf), (po, so) = res
    ob.equal((pf.num_steps, pf.delta_time, pf.first_averaging_step, pf.max_period), (po.num_steps, po.delta_time, po.first_averaging_step, po.max_period), "time stepping")
    ff, fo = aero.finals(pf), aero.finals(po)
    for n in aero.FINAL:
        ob.equal(ff[n].shape, fo[n].shape, n + " shape")
        ob.close(fo[n], ff[n], n, rtol=1e-12, atol=0)
    ob.true(sum(v.size for v in fo.values()) == 12 * len(pf.steady_problems[0].airplanes) * (1 if pf.max_period == 0 else 2), "final loads were calculated")
    k0 = pf.first_averaging_step
    for k in range(pf.num_steps):
        a, b = aero.Step(pf, sf, k), aero.Step(po, so, k)
        ob.close(b.g, a.g, "bound strengths at step %d" % k, rtol=1e-12)
        ob.close(b.w_g, a.w_g, "wake strengths at step %d" % k, rtol=1e-12)
        for v, w in zip(a.w, b.w):
            ob.close(w, v, "wake positions at step %d" % k, rtol=1e-12)
        if k >= k0:
            ob.close(aero.totals(b.airplanes), aero.totals(a.airplanes), "loads at step %d" % k, rtol=1e-12)
            ob.close(aero.read(b.mesh.panels, "near_field_force_wind_axes"), aero.read(a.mesh.panels, "near_field_force_wind_axes"), "panel forces at step %d" % k, rtol=1e-12)
        ob.transitions += 1
        ob.state(k, a.g)
    ob.traces += 2
    ob.sig([ff[n] for n in aero.FINAL])


warm = aero.warm_all
