"""C15: every moving quantity oscillates with its own amplitude, period and shape about its base value."""
import itertools

import numpy as np

from mc import aero, gen, ref

PID = "C15"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of oscillation parameters for every moving quantity, alone and all together, against the oscillation laws"
NOTE = ("Every enumerated amplitude, period, shape, time step and step count is run through the real generators and compared with the closed law at every "
        "step (1e-9); each quantity is also moved among all others with distinct laws. Section positions under sweep and heave are decided by C16.")
RULE = ("Full product of 9 quantities x shapes x amplitudes x periods x time steps x step counts; and all assignments of distinct laws to every quantity of a "
        "two-airplane formation with at most k of them held still; outcomes are distinct time histories.")
BOUND = {"quick": "9 quantities x 2-5 shapes x 4 amplitudes x 4 periods x 3 steps x 2 time steps; k = 2", "thorough": "as quick with 6 x 7 x 5 x 3; k = 3"}

QUANT = ["v", "ax", "ay", "az", "wx", "wy", "wz", "root pitch", "tip pitch"]
SHAPES = {"twist": ["sine", "uniform", "custom:mix", "custom:cos", "custom:slow"], "other": ["sine", "uniform"]}


def small():
    X = aero.X
    w = gen.wing([X(0, 0, 0, 1.0, ns=1, twist=2.0), X(0.1, 1.5, 0.1, 0.8, ns=1, twist=-1.0), X(0.2, 2.5, 0.3, 0.6, twist=0.5)], nc=1, sp="uniform", x=0.3, y=-0.2, z=0.1)
    return gen.airplane([w], x=0.25, y=0.1, z=-0.4)


def formation():
    X = aero.X
    w2 = gen.wing([X(0, 0, 0, 0.9, ns=1), X(0.3, 0.8, 0.0, 0.5, twist=1.0)], sym=True, nc=1, x=4.0, z=0.5)
    a = small()
    b = dict(small(), wings=[dict(w, y=w["y"] + 6.0) for w in small()["wings"]], y=6.2, x=0.0)
    return [dict(a, wings=a["wings"] + [w2]), b]


def cases(tier):
    q = tier == "quick"
    out = []
    amps = [0.0, 0.5, -0.3, 2.0] if q else [0.0, 0.5, -0.3, 2.0, 1e-6, 4.5]
    pers = [0.0, 0.2, 0.37, 5.0] if q else [0.0, 0.2, 0.37, 5.0, 0.05, 1.0, 0.013]
    for name in QUANT:
        for sh in SHAPES["twist" if "pitch" in name else "other"]:
            for a, T in itertools.product(amps, pers):
                for n in (1, 2, 9) if q else (1, 2, 3, 9, 30):
                    for dt in (0.05, 0.1) if q else (0.05, 0.1, 0.0031):
                        out.append(("%s %s a=%g T=%g n=%d dt=%g" % (name, sh, a, T, n, dt), dict(name=name, laws={name: (a, T, sh)}, n=n, dt=dt, big=False)))
    # Everything moves with its own law, except at most k quantities.
    names = [nm for nm, _ in slots(formation())]
    for d in range((2 if q else 3) + 1):
        for off in itertools.combinations(range(len(names)), d):
            for rot in (0, 1) if q else (0, 1, 2, 3):
                laws = {}
                for i, nm in enumerate(names):
                    if i in off:
                        continue
                    sh = ["sine", "uniform", "custom:mix", "custom:slow", "custom:sq"][(i + rot) % (5 if "pitch" in nm else 2)]
                    laws[nm] = (0.1 + 0.03 * i, 0.11 + 0.017 * ((i * 7 + rot) % 23), sh)
                if rot < 2 or d < 2:
                    out.append(("all but %s, rotation %d" % (",".join(names[i].replace(" ", "_") for i in off) or "none", rot), dict(laws=laws, n=6, dt=0.07, big=True)))
    return out


def slots(aps):
    """All moving quantities of a formation: (name, getter of base value)."""
    out = [("v", None)]
    for i, a in enumerate(aps):
        out += [("ap%d %s" % (i, c), (i, None, None, c)) for c in "xyz"]
        for j, w in enumerate(a["wings"]):
            out += [("ap%d wing%d %s" % (i, j, c), (i, j, None, c)) for c in "xyz"]
            out += [("ap%d wing%d sec%d pitch" % (i, j, k), (i, j, k, "pitch")) for k in range(len(w["xs"]))]
    return out


ALIAS = {"v": "v", "ax": "ap0 x", "ay": "ap0 y", "az": "ap0 z", "wx": "ap0 wing0 x", "wy": "ap0 wing0 y", "wz": "ap0 wing0 z",
         "root pitch": "ap0 wing0 sec0 pitch", "tip pitch": "ap0 wing0 sec2 pitch"}


def run(p, ob):
    aps = formation() if p["big"] else [small()]
    laws = {ALIAS.get(k, k): v for k, v in p["laws"].items()}
    ams = gen.still(aps)
    om = dict(gen.OM)
    o = gen.op(v=9.0, a=2.0, b=1.0)
    for name, where in slots(aps):
        if name not in laws:
            continue
        a, T, sh = laws[name]
        if name == "v":
            om.update(va=a, vT=T, vs=sh)
        else:
            i, j, k, c = where
            if c == "pitch":
                kind, _, fn = sh.partition(":")
                ams[i]["wings"][j]["secs"][k].update(pa=a, pT=T, psp=kind, pf=fn or None)
            else:
                d = ams[i] if j is None else ams[i]["wings"][j]
                d.update({c + "a": a, c + "T": T, c + "s_": sh})
    m = gen.build_movement(aps, ams, o, om, dict(gen.MV, steps=p["n"], dt=p["dt"]))
    n = p["n"]
    sig = []
    ob.true((len(m.airplanes), [len(a) for a in m.airplanes], len(m.operating_points)) == (len(aps), [n] * len(aps), n), "number of snapshots")
    for name, where in slots(aps):
        if name == "v":
            base, got = o["v"], [x.velocity for x in m.operating_points]
        else:
            i, j, k, c = where
            if j is None:
                base, got = aps[i][c], [getattr(x, c + "_ref") for x in m.airplanes[i]]
                ob.close([x.xyz_ref["xyz".index(c)] for x in m.airplanes[i]], got, name + " in the reference point")
            elif c == "pitch":
                base, got = aps[i]["wings"][j]["xs"][k]["twist"], [x.wings[j].wing_cross_sections[k].twist for x in m.airplanes[i]]
            else:
                base, got = aps[i]["wings"][j][c], [getattr(x.wings[j], c + "_le") for x in m.airplanes[i]]
                ob.close([x.wings[j].leading_edge["xyz".index(c)] for x in m.airplanes[i]], got, name + " in the leading edge")
        a, T, sh = laws.get(name, (0.0, 0.0, "sine"))
        kind = gen.CUSTOM[sh.partition(":")[2]] if sh.startswith("custom") else sh
        want = ref.schedule(base, a, T, kind, n, p["dt"])
        ob.close(got, want, name, rtol=1e-9, atol=1e-9 * (abs(a) + abs(base)))
        if name in laws:
            sig.append(list(want))
    ob.sig(p.get("name"), sig)
