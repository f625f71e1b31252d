"""C18: time steps and their number follow the documented defaults; contradictory requests are refused."""
import itertools
import math

import numpy as np

from mc import aero, gen

PID = "C18"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of time-stepping requests over static and moving formations against the documented rules"
NOTE = "Every combination of given and omitted arguments is tried on every enumerated formation and period; where rounding makes a quotient whole, both neighbours are accepted."
RULE = ("Full product of formations x sources of motion x steps/cycles/chords/time step given or omitted x airspeeds; the period is also placed on each moving quantity in turn; "
        "outcomes are distinct (step count, time step, period) triples or refusals.")
BOUND = {"quick": "4 formations (and 4 with the longest chord or the finest wing last, at rest), 5 motions, 3 x 3 x 3 x 3 requests, 2 airspeeds", "thorough": "8 formations, 8 motions, 4 x 5 x 5 x 5 requests, 3 airspeeds"}


def forms():
    r = aero.rect
    return {"one": [gen.airplane([r(nc=2, ns=1)])],
            "coarse": [gen.airplane([r(sym=False, nc=1, ns=1)], c_ref=2.5)],
            "two": [gen.airplane([r(nc=2, ns=1)]), gen.airplane([r(nc=1, ns=1, at=(5.0, 0, 0))], c_ref=0.4)],
            "wings": [gen.airplane([r(nc=3, ns=1), r(nc=1, ns=1, at=(4.0, 0.0, 0.3), span=1.0, chord=0.5)])],
            "three": [gen.airplane([r(nc=1, ns=1, at=(6.0 * i, 0, 0), chord=1.0 + 0.5 * i)]) for i in range(3)],
            "tail first": [gen.airplane([r(nc=1, ns=1, at=(4.0, 0.0, 0.3), span=1.0, chord=0.5), r(nc=3, ns=1)])],
            "tails": [gen.airplane([r(nc=2, ns=1), r(nc=5, ns=1, at=(4.0, 0.0, 0.3)), r(nc=3, ns=1, at=(8.0, 0.0, 0.3))]), gen.airplane([r(nc=4, ns=1, at=(4.0, 9.0, 0)), r(nc=1, ns=1, at=(4.0, 14.0, 0.3))], c_ref=0.7)],
            "reverse": [gen.airplane([r(nc=2, ns=1, at=(5.0, 0, 0), chord=0.3)]), gen.airplane([r(nc=4, ns=1)])]}


SLOTS = ["none", "tip sweep", "speed", "last wing", "first airplane", "root pitch", "tip pitch", "tip heave", "x wing", "y wing", "last airplane", "x airplane", "y airplane"]


def cases(tier):
    q = tier == "quick"
    out = []
    F = list(forms())
    for f in F:
        if q and f in F[4:]:
            # The first airplane need not have the longest chord, nor the first wing the most panels.
            out += [("%s chords=%s dt=%s steps=%s" % (f, c, dt, s), dict(form=f, slots={"none": 0.0}, mv=dict(steps=s, cycles=None, chords=c, dt=dt), v=10.0))
                    for c in (None, 1, 4) for dt in (None, 0.04, 0.1) for s in ((None, 2) if c is None else (None,))]
            continue
        for slot, T in [("none", 0.0), ("tip sweep", 0.3), ("speed", 0.2), ("last wing", 1.0), ("first airplane", 0.07)] + ([] if q else [("root pitch", 0.11), ("tip heave", 2.0), ("tip sweep", 0.1)]):
            for steps, cycles, chords, dt in itertools.product((None, 1, 4) if q else (None, 1, 4, 11), (None, 1, 2) if q else (None, 1, 2, 2.5, 5), (None, 1, 4) if q else (None, 1, 3, 4.5, 12),
                                                               (None, 0.04, 0.1) if q else (None, 0.04, 0.1, 0.013, 0.25)):
                for v in (10.0, 3.7) if q else (10.0, 3.7, 25.0):
                    out.append(("%s %s T=%g steps=%s cycles=%s chords=%s dt=%s v=%g" % (f, slot, T, steps, cycles, chords, dt, v),
                                dict(form=f, slots={slot: T}, mv=dict(steps=steps, cycles=cycles, chords=chords, dt=dt), v=v)))
    # The longest period counts, wherever it sits.
    for a, b in itertools.permutations(SLOTS[1:], 2):
        out.append(("longest period: %s before %s" % (a, b), dict(form="two", slots={a: 0.31, b: 0.2}, mv=dict(steps=None, cycles=None, chords=None, dt=0.05), v=10.0)))
    return out


def motion(aps, slots):
    ams, om = gen.still(aps), dict(gen.OM)
    for slot, T in slots.items():
        last = ams[-1]
        w0, wl = ams[0]["wings"][0], last["wings"][-1]
        if slot == "tip sweep":
            w0["secs"][-1].update(sa=5.0, sT=T)
        elif slot == "speed":
            om.update(va=0.5, vT=T)
        elif slot == "last wing":
            wl.update(za=0.1, zT=T)
        elif slot == "x wing":
            wl.update(xa=0.1, xT=T)
        elif slot == "y wing":
            w0.update(ya=0.1, yT=T)
        elif slot == "first airplane":
            ams[0].update(za=0.1, zT=T)
        elif slot == "last airplane":
            last.update(za=0.1, zT=T) if last is not ams[0] else last.update(ya=0.1, yT=T)
        elif slot == "x airplane":
            last.update(xa=0.1, xT=T)
        elif slot == "y airplane":
            ams[0].update(ya=0.1, yT=T)
        elif slot == "root pitch":
            wl["secs"][0].update(pa=2.0, pT=T)
        elif slot == "tip pitch":
            wl["secs"][-1].update(pa=2.0, pT=T)
        elif slot == "tip heave":
            w0["secs"][-1].update(ha=2.0, hT=T)
    return ams, om


def about(x):
    """The whole numbers that rounding x up may give."""
    return {math.ceil(x)} | {math.ceil(x * (1 - 1e-9)), math.ceil(x * (1 + 1e-9))}


def run(p, ob):
    import pterasoftware as ps
    aps = forms()[p["form"]]
    ams, om = motion(aps, p["slots"])
    o = gen.op(v=p["v"], a=2.0)
    mv = p["mv"]
    T = max(p["slots"].values())
    make = lambda: gen.build_movement(aps, ams, o, om, mv)
    if (mv["cycles"] is not None and (mv["steps"] is not None or T == 0)) or (mv["chords"] is not None and (mv["steps"] is not None or T > 0)):
        ob.raises(make, "a contradictory request")
        ob.sig("refused")
        return
    m = make()
    base = [gen.build_airplane(a) for a in aps]
    dt = mv["dt"]
    if dt is None:
        dt = float(np.mean([a.c_ref / s["wings"][0]["nc"] / p["v"] for a, s in zip(base, aps)]))
    ob.close(m.delta_time, dt, "time step", rtol=1e-12)
    ob.close(m.get_max_period(), T, "longest period")
    if mv["steps"] is not None:
        want = {mv["steps"]}
    elif T == 0:
        want = about((mv["chords"] or 10) * max(a.c_ref for a in base) / (dt * p["v"]))
    else:
        want = about((mv["cycles"] or 3) * T / dt)
    ob.true(m.num_steps in want, "number of steps: got %r, expected %s" % (m.num_steps, sorted(want)))
    ob.true(isinstance(m.num_steps, (int, np.integer)), "whole number of steps")
    ob.true([len(a) for a in m.airplanes] == [m.num_steps] * len(aps) and len(m.operating_points) == m.num_steps, "one snapshot per step")
    prob = ps.problems.UnsteadyProblem(movement=m)
    ob.equal((prob.num_steps, prob.delta_time, prob.max_period), (m.num_steps, m.delta_time, m.get_max_period()), "the problem's time stepping")
    ob.equal(len(prob.steady_problems), m.num_steps, "steady problems")
    for k, sp in enumerate(prob.steady_problems):
        ob.true(len(sp.airplanes) == len(aps) and all(sp.airplanes[i] is m.airplanes[i][k] for i in range(len(aps))), "step %d's airplanes, in order" % k)
        ob.true(sp.operating_point is m.operating_points[k], "step %d's operating point" % k)
    ob.sig(m.num_steps, m.delta_time, T)
