"""C19: final loads are the last step's for static problems, and means and root mean squares over the last cycle otherwise."""
import itertools
import math

import numpy as np

from mc import aero, gen

PID = "C19"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of periods, time steps and step counts, with final loads recomputed from the recorded histories"
NOTE = ("For every enumerated combination the averaging window and every final load are recomputed from the per-step loads (1e-12); where rounding makes the "
        "number of steps in a cycle whole, both neighbouring windows are accepted. The per-step loads themselves are decided by C23.")
RULE = ("Full product of periods x time steps x step counts x moving quantities x formations, plus all scenes; outcomes are distinct final loads.")
BOUND = {"quick": "5 periods x 3 time steps x 10 step counts x 2 formations; 27 scenes", "thorough": "9 periods x 5 time steps x 20 step counts x 3 formations; 27 scenes x 2 wakes"}


def cases(tier):
    q = tier == "quick"
    out = []
    c = aero.configs()
    for n, sc in aero.scenes().items():
        for free in (False,) if q else (False, True):
            out.append(("%s, %s wake" % (n, "free" if free else "prescribed"), dict(scene=sc, free=free)))
    pair = [gen.airplane([aero.rect(sym=False, nc=1, ns=1, twist=3.0)]), gen.airplane([aero.rect(sym=False, nc=1, ns=1, at=(2.0, 3.0, 0.5), twist=-2.0)], c_ref=0.5)]
    forms = [("one panel", c["one panel"]), ("pair", pair)] + ([] if q else [("one row", c["one row"])])
    for T, dt in itertools.product((0.0, 0.1, 0.25, 0.3, 0.7) if q else (0.0, 0.05, 0.1, 0.2, 0.25, 0.3, 0.35, 0.7, 1.1), (0.05, 0.1, 0.033) if q else (0.05, 0.1, 0.033, 0.02, 0.2)):
        for n in range(1, 11 if q else 21):
            for name, aps in forms:
                kind = (n + int(T * 100)) % 3
                if T == 0:
                    ams, om = gen.still(aps), gen.OM
                elif kind == 0:
                    ams, om = aero.moving(aps, sec=dict(sa=8.0, sT=T)), gen.OM
                elif kind == 1:
                    ams, om = gen.still(aps), dict(gen.OM, va=2.0, vT=T)
                else:
                    ams, om = aero.moving(aps, sec=dict(pa=3.0, pT=T / 2), ap=dict(za=0.1, zT=T)), gen.OM
                out.append(("%s T=%g dt=%g n=%d" % (name, T, dt, n), dict(scene=(aps, ams, gen.op(b=2.0), om, dict(gen.MV, steps=n, dt=dt)), free=False)))
    return out


def run(p, ob):
    import pterasoftware as ps
    prob, s = aero.unsteady(p["scene"])
    T = prob.max_period
    n, dt = prob.num_steps, prob.delta_time
    if T == 0:
        want = {n - 1}
    else:
        want = {max(0, math.floor(n - T / dt * (1 + e))) for e in (-1e-9, 0, 1e-9)}
    k0 = prob.first_averaging_step
    ob.true(k0 in want, "first averaged step: got %r, expected %s" % (k0, sorted(want)))
    ob.equal(prob.first_results_step, 0, "first step with results")
    for v in aero.finals(prob).values():
        ob.equal(v.size, 0, "final loads before the solver runs")
    aero.run_quiet(s, prescribed_wake=not p["free"], calculate_streamlines=False)
    H = np.array([aero.totals(sp.airplanes) for sp in prob.steady_problems])  # step, airplane, quantity, component
    ob.true(np.all(np.isfinite(H)), "finite loads")
    got = aero.finals(prob)
    names = ["forces", "moments", "force_coefficients", "moment_coefficients"]
    for i, q in enumerate(names):
        h = H[k0:, :, i]
        scale = np.abs(h).max() + 1e-300
        last, mean, rms = (got["final%s_near_field_%s_wind_axes" % (k, q)] for k in ("", "_mean", "_rms"))
        if T == 0:
            ob.close(last, H[-1, :, i], "final " + q, scale=scale, rtol=1e-13)
            ob.equal((mean.size, rms.size), (0, 0), "averages of a static problem")
        else:
            ob.close(mean, h.sum(0) / len(h), "mean " + q, scale=scale, rtol=1e-12)
            ob.close(rms, np.sqrt((h ** 2).sum(0) / len(h)), "root mean square " + q, scale=scale, rtol=1e-12)
            ob.equal(last.size, 0, "final loads of a moving problem")
    ob.sig(n, dt, T, [got[k] for k in aero.FINAL])


warm = aero.warm_all
