"""C06: control surfaces rotate the rear part of an airfoil about the hinge and nothing else."""
import itertools
import math

import numpy as np

from mc import gen, ref

PID = "C06"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of deflections, hinge points and airfoils against rigid rotation"
NOTE = "Covers the full grid of enumerated deflections, hinge points and airfoils, and sequences of two deflections; other values are not covered."
RULE = ("Full product of airfoils x deflections x hinge points, plus all ordered pairs of deflections applied one after the other; non-trivial: a non-zero "
        "deflection; outcomes are distinct outlines.")
BOUND = {"quick": "7 airfoils (3 with hinges below or on the chord line), 21 deflections, 13 hinge points", "thorough": "11 airfoils (3 with hinges below or on the chord line), 61 deflections, 33 hinge points"}


def shape(camber, n=30, t=0.06):
    """An outline with the given camber line: trailing edge, over the top, to the trailing edge."""
    x = (1 - np.cos(np.linspace(0, math.pi, n))) / 2
    h = t * (1.4 * np.sqrt(x) - 0.5 * x - 0.9 * x ** 2)
    y = camber(x)
    return np.vstack([np.column_stack([x, y + h])[::-1], np.column_stack([x, y - h])[1:]]).tolist()


CUSTOM = {"inverted": lambda x: -0.1 * x * (1 - x), "reflexed": lambda x: 0.6 * x * (1 - x) * (0.55 - x), "s-shaped": lambda x: 0.9 * x * (1 - x) * (x - 0.25) * (x - 0.7)}


def cases(tier):
    if tier == "quick":
        afs, ds, hs = ["naca0012", "naca2412", "naca6315", "e423"] + list(CUSTOM), list(range(-60, 61, 6)), [0.05, 0.1, 0.2, 0.25, 0.33, 0.4, 0.5, 0.6, 0.66, 0.75, 0.8, 0.9, 0.97]
    else:
        afs = ["naca0012", "naca2412", "naca6315", "e423", "naca4409", "s1223", "naca0006", "naca8420"] + list(CUSTOM)
        ds, hs = list(range(-60, 61, 2)), [round(0.03 * i + 0.01, 4) for i in range(1, 33)] + [0.985]
    out = [("%s d=%g h=%g" % (a, d, h), dict(af=a, d=float(d), h=h)) for a in afs for d in [0, 0.5, -0.5] + [x for x in ds if x] for h in hs]
    out += [("twice %s %g then %g" % (a, d, e), dict(af=a, twice=(d, e), h=0.7)) for a in afs for d in (-20.0, 0.0, 5.0, 12.5) for e in (-12.5, 0.0, 5.0, 30.0)]
    out += [("range d=%g" % d, dict(bad=d)) for d in (-90.5, 90.5, -91, 91, 180, -180, 360, 1e6)]
    out += [("limit d=%g" % d, dict(af="naca0012", d=d, h=0.75, extreme=True)) for d in (90.0, -90.0, 89.5, -89.5)]
    return out


def airfoil(name):
    if name in CUSTOM:
        return gen.airfoil(dict(name=name, coordinates=np.array(shape(CUSTOM[name])), repanel=name != "s-shaped", n_points_per_side=120))
    return gen.airfoil(name)


def turned(pts, hinge, d):
    t = math.radians(-d)
    R = np.array([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]])
    return (pts - hinge) @ R.T + hinge


def run(p, ob):
    if "bad" in p:
        ob.raises(lambda: gen.airfoil("naca0012").add_control_surface(deflection=p["bad"], hinge_point=0.75), "deflection of %g degrees" % p["bad"])
        ob.sig(p["bad"])
        return
    a = airfoil(p["af"])
    before = [np.array(v, copy=True) for v in (a.coordinates, a.mcl_coordinates, a.upper_minus_mcl, a.thickness)]
    mcl, d_up = before[1], before[2]
    seq = p.get("twice", (p.get("d"),))
    f = a.add_control_surface(deflection=seq[0], hinge_point=p["h"])
    for now, old, n in zip((a.coordinates, a.mcl_coordinates, a.upper_minus_mcl, a.thickness), before, ("outline", "camber line", "half thickness", "thickness")):
        ob.equal(now, old, "the original airfoil's " + n)
    h = p["h"]
    aft = mcl[:, 0] > h
    hinge = np.array([h, np.interp(h, mcl[:, 0], mcl[:, 1])])
    want_mcl, want_d = mcl.copy(), d_up.copy()
    want_mcl[aft] = turned(mcl[aft], hinge, seq[0])
    want_d[aft] = turned(d_up[aft], np.zeros(2), seq[0])
    up, lo = want_mcl + want_d, want_mcl - want_d
    ob.close(f.coordinates, np.vstack([up[::-1], lo[1:]]), "deflected outline", atol=1e-10)
    if np.argmin(f.coordinates[:, 0]) == len(up) - 1:
        ob.close(f.mcl_coordinates, want_mcl, "deflected camber line", atol=1e-10)
        ob.close(f.get_downsampled_mcl(np.linspace(0, 1, 9)), ref.along(want_mcl, np.linspace(0, 1, 9)), "points along the deflected camber line", atol=1e-9)
    # Ahead of the hinge nothing moves; behind it lengths are kept; positive deflections move the trailing edge down.
    n = len(mcl)
    fwd = ~aft
    ob.close(f.coordinates[:n][::-1][fwd], (mcl + d_up)[fwd], "upper side ahead of the hinge", atol=1e-12)
    ob.close(f.coordinates[n - 1:][fwd], (mcl - d_up)[fwd], "lower side ahead of the hinge", atol=1e-12)
    te = f.coordinates[0], f.coordinates[-1]
    ob.close(np.hypot(*((te[0] + te[1]) / 2 - hinge)), np.hypot(*(mcl[-1] - hinge)), "distance from hinge to trailing edge", rtol=1e-9)
    if not p.get("extreme") and seq[0]:
        ob.true(((te[0] + te[1]) / 2 - mcl[-1])[1] * seq[0] < 0, "a positive deflection moves the trailing edge down")
    if "twice" in p:
        ob.true(f is not a, "a new airfoil is returned")
        g = a.add_control_surface(deflection=seq[1], hinge_point=p["h"])
        w2 = mcl.copy()
        w2[aft] = turned(mcl[aft], hinge, seq[1])
        d2 = d_up.copy()
        d2[aft] = turned(d_up[aft], np.zeros(2), seq[1])
        ob.close(g.coordinates, np.vstack([(w2 + d2)[::-1], (w2 - d2)[1:]]), "outline of a second, independent deflection", atol=1e-10)
        ob.close(f.coordinates, np.vstack([up[::-1], lo[1:]]), "first deflected outline afterwards", atol=1e-10)
    if not seq[0]:
        ob.trivial()
    ob.sig(f.coordinates[::29])
