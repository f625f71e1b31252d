"""C16: each snapshot of a moving airplane is the mesh of its base airplane with rigidly swung sections."""
import itertools

import numpy as np

from mc import aero, gen, ref

PID = "C16"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of section motions and base planforms against an independent kinematic and mesh model, at every step"
NOTE = ("Section positions, twists and every mesh vertex of every snapshot of every enumerated motion match an independent model (1e-9). Sections straight "
        "above their inboard neighbour are documented to stay fixed and are modelled so; other values are not covered.")
RULE = ("All motions within k deviations of still, of sweeping and of fully moving base cases over sweep, pitch and heave of one to four outer sections, shapes, planforms of three sizes "
        "and wing motion; outcomes are distinct trajectories.")
BOUND = {"quick": "k = 2 from 3 base cases", "thorough": "k = 3 from 3 base cases"}

SPACE = dict(
    s1=[0.0, 15.0, -8.0], s2=[0.0, 20.0], p0=[0.0, 4.0], p1=[0.0, 6.0], p2=[0.0, -7.0], h1=[0.0, 5.0], h2=[0.0, -6.0],
    T1=[0.4, 0.3], T2=[0.4, 0.25], sh=["sine", "uniform", "custom", "decaying"], plan=["plain", "swept", "forward", "anhedral", "kinked", "winglet", "back", "steep", "gull", "left", "four", "five", "two"],
    sym=[False, True], wz=[0.0, 0.3], wx=[0.0, -0.2], wy=[0.0, 0.15], nc=[2, 1], dt=[0.05, 0.013], n=[7, 2], defl=[0.0, 8.0], tw=[0.0, 3.0], k=[1.0, 0.002, 300.0])
STILL = {k: v[0] for k, v in SPACE.items()}
BASES = {"still": STILL, "sweeping": dict(STILL, s1=15.0, s2=20.0), "moving": dict(STILL, s1=15.0, s2=20.0, p1=6.0, p2=-7.0, h1=5.0, h2=-6.0, T2=0.25, sh="uniform", plan="swept", sym=True, wz=0.3, tw=3.0)}
PLANS = {"plain": [(0, 2, 0), (0, 4, 0)], "swept": [(0.4, 1.8, 0.1), (1.1, 3.5, 0.5)], "forward": [(-0.4, 1.8, 0.2), (-0.9, 3.5, 0.3)], "anhedral": [(0.2, 1.5, -0.3), (0.5, 3.1, -0.8)],
         "kinked": [(0.6, 1.5, 0.4), (0.5, 3.0, 0.2)], "winglet": [(0.2, 2.0, 0.1), (0.5, 2.0, 0.9)], "back": [(2.0, 0.5, 0.0), (4.0, 1.0, 0.1)],
         "steep": [(0.1, 0.3, 1.5), (0.3, 0.5, 3.0)], "gull": [(0.0, 1.0, 0.8), (0.3, 3.0, 0.1)], "left": [(0.2, -1.4, 0.1), (0.7, -2.6, -0.3)], "two": [(0.3, 2.2, 0.2)],
         "four": [(0.1, 1.0, 0.1), (0.4, 2.2, 0.2), (0.3, 3.0, 0.9)], "five": [(0.1, 1.0, 0.1), (0.4, 2.2, 0.2), (0.7, 2.2, 0.9), (0.3, 3.0, 0.9)]}


def cases(tier):
    out = []
    k = 2 if tier == "quick" else 3
    for b, base in BASES.items():
        for key, p in gen.named(b, gen.deviations(SPACE, base, k)):
            out.append((key, p))
    seen, keep = set(), []
    for key, p in out:
        t = gen.short(p)
        if t not in seen:
            seen.add(t)
            keep.append((key, p))
    return keep


def law(base, amp, T, sh, n, dt, which):
    kind = gen.CUSTOM[which] if sh == "custom" else gen.CUSTOM["slow"] if sh == "decaying" else sh
    return ref.schedule(base, amp, T, kind, n, dt)


def run(p, ob):
    X = aero.X
    K = p["k"]
    pos = [tuple(float(c) * K for c in q) for q in PLANS[p["plan"]]]
    xs = [X(0, 0, 0, 1.2 * K, ns=2, twist=p["tw"], airfoil="naca2412", defl=p["defl"], hinge=0.7),
          X(*pos[0], 1.0 * K, ns=1, twist=-p["tw"], defl=-p["defl"] / 2, hinge=0.6, cs="asymmetric"), X(*pos[1 % len(pos)], 0.6 * K, ns=1, twist=p["tw"] / 2),
          X(*pos[-1], 0.7 * K, ns=2, twist=-p["tw"] / 3, airfoil="naca4409"), X(*pos[-1], 0.5 * K)][: len(pos) + 1]
    for x, q in zip(xs[1:], pos):
        x.update(x=q[0], y=q[1], z=q[2])
    w = gen.wing(xs, sym=p["sym"], nc=p["nc"], x=0.2 * K, y=0.1 * K, z=-0.3 * K)
    aps = [gen.airplane([w])]
    per = lambda a, T: T if a else 0.0
    fn = {"custom": ("mix", "cos", "sq"), "decaying": ("slow",) * 3}.get(p["sh"], (None,) * 3)
    sh = "custom" if fn[0] else p["sh"]
    sec = lambda s, q, h, T: dict(gen.XM, sa=s, sT=per(s, T), ss=sh, sf=fn[0], pa=q, pT=per(q, T), psp=sh, pf=fn[1],
                                  ha=h, hT=per(h, T), hs=sh, hf=fn[2])
    secs = [sec(0.0, p["p0"], 0.0, p["T1"]), sec(p["s1"], p["p1"], p["h1"], p["T1"]), sec(p["s2"], p["p2"], p["h2"], p["T2"]),
            sec(-p["s1"] / 2, p["p2"], p["h1"], p["T2"]), sec(p["s2"] / 3, -p["p1"], p["h2"] / 2, p["T1"])][: len(xs)]
    wm = dict(gen.WM, secs=secs, za=p["wz"] * K, zT=per(p["wz"], 0.35), xa=p["wx"] * K, xT=per(p["wx"], 0.3), ya=p["wy"] * K, yT=per(p["wy"], 0.45))
    n, dt = p["n"], p["dt"]
    m = gen.build_movement(aps, [dict(gen.AM, wings=[wm])], gen.op(), gen.OM, dict(gen.MV, steps=n, dt=dt))
    # The model: unit steps along each section's rotated span vector.
    P = [np.zeros((n, 3))]
    tw = [law(xs[0]["twist"], p["p0"], per(p["p0"], p["T1"]), p["sh"], n, dt, "cos")]
    base = [np.zeros(3)] + [np.array(q) for q in pos]
    for k, (s, q, h, T) in enumerate([(p["s1"], p["p1"], p["h1"], p["T1"]), (p["s2"], p["p2"], p["h2"], p["T2"]), (-p["s1"] / 2, p["p2"], p["h1"], p["T2"]),
                                     (p["s2"] / 3, -p["p1"], p["h2"] / 2, p["T1"])][: len(pos)], 1):
        d = base[k] - base[k - 1]
        if d[1] == 0:
            P.append(np.repeat(base[k][None], n, 0))
            tw.append(np.full(n, xs[k]["twist"]))
            continue
        L = np.sqrt(d @ d)
        up = law(np.degrees(np.arcsin(d[2] / L)), s, per(s, T), p["sh"], n, dt, "mix")
        aft = law(np.degrees(np.arctan2(d[0], d[1])), h, per(h, T), p["sh"], n, dt, "sq")
        u, f = np.radians(up), np.radians(aft)
        P.append(P[-1] + L * np.column_stack([np.cos(u) * np.sin(f), np.cos(u) * np.cos(f), np.sin(u)]))
        tw.append(law(xs[k]["twist"], q, per(q, T), p["sh"], n, dt, "cos"))
    wz = law(w["z"], p["wz"] * K, per(p["wz"], 0.35), "sine", n, dt, None)
    wx = law(w["x"], p["wx"] * K, per(p["wx"], 0.3), "sine", n, dt, None)
    wy = law(w["y"], p["wy"] * K, per(p["wy"], 0.45), "sine", n, dt, None)
    for t, a in enumerate(m.airplanes[0]):
        wg = a.wings[0]
        ob.equal(len(wg.wing_cross_sections), len(xs), "sections")
        for k, c in enumerate(wg.wing_cross_sections):
            ob.close([c.x_le, c.y_le, c.z_le], P[k][t], "step %d: position of section %d" % (t, k), scale=4.0 * K, rtol=1e-10, atol=1e-12 * K)
            ob.close(c.leading_edge, P[k][t], "step %d: leading edge of section %d" % (t, k), scale=4.0 * K, rtol=1e-10, atol=1e-12 * K)
            ob.close(c.twist, tw[k][t], "step %d: twist of section %d" % (t, k), atol=1e-9)
        moved = dict(w, x=wx[t], y=wy[t], z=wz[t], xs=[dict(x, x=P[k][t, 0], y=P[k][t, 1], z=P[k][t, 2], twist=tw[k][t]) for k, x in enumerate(xs)])
        for name, g, v in zip(("front left", "front right", "back left", "back right"), ref.panel_arrays(wg), ref.wing_panels(moved, lambda f: gen.airfoil(f).coordinates)):
            ob.close(g, v, "step %d: %s vertices" % (t, name), rtol=1e-9, atol=1e-10 * K)
    if not any(p[k] for k in ("s1", "s2", "p0", "p1", "p2", "h1", "h2", "wz", "wx", "wy")):
        ob.trivial()
    ob.sig([list(x.ravel()) for x in P], tw, wz, wx, p["sym"], p["nc"], p["defl"])
