"""C04: reference dimensions follow from the geometry unless overridden."""
import itertools

import numpy as np

from mc import gen, ref
from mc.props import c01

PID = "C04"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of wings and airplanes against independent reference dimensions"
NOTE = "Compared with areas and chords computed from the wing definition; only the enumerated wings, wing orders and override combinations are covered."
RULE = ("All wings within k deviations of two base wings as main wing, and airplanes with every order of up to three wings times every subset of "
        "overridden reference dimensions; outcomes are distinct reference dimensions.")
BOUND = {"quick": "k = 1, in 5 frames; 128 bent wings", "thorough": "k = 2, in 9 frames; 128 bent wings"}


def cases(tier):
    out = []
    k = 1 if tier == "quick" else 2
    for name, base in (("plain", c01.PLAIN), ("full", c01.FULL)):
        for key, p in gen.deviations(c01.SPACE, base, k):
            if c01.legal(p):
                out.append(("wing %s:%s" % (name, key), dict(wings=[c01.spec(p)], over={})))
            if c01.legal(p):
                for f in c01.FRAMES[:4] if k == 1 else c01.FRAMES:
                    out.append(("frame %g,%g,%g %s:%s" % (f + (name, key)), dict(wings=[c01.turned(c01.spec(p), f)], over={})))
    out += [(key, dict(wings=[w], over={})) for key, w in c01.bent()]
    W = [c01.spec(c01.FULL), c01.spec(dict(c01.PLAIN, ns0=1, chord1=0.8)), c01.spec(dict(c01.PLAIN, plane="z", le=(2.0, 0.0, 0.5), nc=1))]
    overs = [dict(zip(c, v)) for r in range(4) for c in itertools.combinations(("s_ref", "c_ref", "b_ref"), r)
             for v in [tuple({"s_ref": 3.3, "c_ref": 0.77, "b_ref": 12.5}[n] for n in c)]]
    overs.append(dict(s_ref=1, c_ref=2, b_ref=3))
    for r in (1, 2, 3):
        for order in itertools.permutations(range(3), r):
            for o in overs:
                out.append(("airplane wings=%s over=%s" % (order, gen.short(o)), dict(wings=[W[i] for i in order], over=o)))
    return out


def dims(w):
    fl, fr, bl, br = ref.wing_panels(w, lambda a: gen.airfoil(a).coordinates)
    q = ref.Quad(fl, fr, bl, br)
    n = ref.unit(w["normal"])
    up = np.cross(np.array(w["chordvec"], float), n)
    proj = float(q.projected(up).sum())
    wet = float(q.area.sum())
    le = [np.array([x["x"], x["y"], x["z"]]) for x in w["xs"]]
    f = 2 if w["sym"] else 1
    span = f * abs(float((le[-1] - le[0]) @ n))
    mac = 0.0
    for a, b, la, lb in zip(w["xs"], w["xs"][1:], le, le[1:]):
        mac += abs(float((lb - la) @ n)) * (a["chord"] ** 2 + a["chord"] * b["chord"] + b["chord"] ** 2) / 3
    return dict(span=span, proj=proj, wet=wet, mac=f * mac / proj, smc=proj / span)


def run(p, ob):
    ap = gen.airplane(p["wings"], name="Alpha", x=0.3, y=-0.2, z=0.1, weight=42.0, **p["over"])
    A = gen.build_airplane(ap)
    D = [dims(w) for w in p["wings"]]
    for w, d in zip(A.wings, D):
        ob.close(w.span, d["span"], "span", rtol=1e-9)
        ob.close(w.projected_area, d["proj"], "projected area", rtol=1e-9)
        ob.close(w.wetted_area, d["wet"], "wetted area", rtol=1e-9)
        ob.close(w.standard_mean_chord, d["smc"], "standard mean chord", rtol=1e-9)
        ob.close(w.mean_aerodynamic_chord, d["mac"], "mean aerodynamic chord", rtol=1e-9)
    o = p["over"]
    ob.close([A.s_ref, A.c_ref, A.b_ref], [o.get("s_ref", D[0]["proj"]), o.get("c_ref", D[0]["mac"]), o.get("b_ref", D[0]["span"])],
             "reference area, chord and span", rtol=1e-9)
    ob.equal((A.x_ref, A.y_ref, A.z_ref, A.weight, A.name), (0.3, -0.2, 0.1, 42.0, "Alpha"), "reference point, weight and name")
    ob.close(A.xyz_ref, [0.3, -0.2, 0.1], "reference point vector")
    ob.equal(A.num_panels, sum(w["nc"] * sum(x["ns"] for x in w["xs"][:-1]) * (2 if w["sym"] else 1) for w in p["wings"]), "number of panels")
    ob.equal([id(w) for w in A.wings], sorted_ids(A.wings), "the wings, in the caller's order")
    # Cross sections know their own chordwise and up directions and trailing edges.
    for w, W in zip(p["wings"], A.wings):
        for x, X in zip(w["xs"], W.wing_cross_sections):
            back = ref.rotation(x["normal"], x["twist"]) @ np.array(w["chordvec"], float)
            ob.close(X.unit_chordwise_vector, back, "cross section's chordwise direction")
            ob.close(X.unit_up_vector, np.cross(back, np.array(x["normal"], float)), "cross section's up direction")
            ob.close(X.trailing_edge, np.array([x["x"], x["y"], x["z"]]) + x["chord"] * back, "cross section's trailing edge")
    ob.sig(D, A.s_ref, A.c_ref, A.b_ref)


def sorted_ids(wings):
    return [id(w) for w in list(wings)]
