"""C03: a panel's derived geometry follows from its four vertices."""
import itertools

import numpy as np

from mc import gen, ref

PID = "C03"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of panel shapes against closed-form geometry and rigid-motion relations"
NOTE = "Exact geometry is compared for every enumerated quadrilateral (planar, warped, sheared, triangular, tiny, huge); other shapes are not covered."
RULE = ("All quadrilaterals whose four corners each take one of several perturbations of a base quadrilateral, in several frames and sizes, each followed by a history of replaced corners; "
        "non-trivial: non-zero area; outcomes are distinct panels.")
BOUND = {"quick": "3 displacements per corner, 4 frames, 4 sizes; 5 replacements", "thorough": "5 displacements per corner, 6 frames, 6 sizes; 15 replacements"}
BASE = dict(fr=(0.0, 1.0, 0.0), fl=(0.0, 0.0, 0.0), bl=(1.0, 0.0, 0.0), br=(1.0, 1.0, 0.0))
MOVES = [(0.0, 0.0, 0.0), (0.23, -0.11, 0.31), (-0.17, 0.29, -0.07), (0.05, 0.4, 0.0), (0.0, 0.0, -0.45)]
FRAMES = [((0, 0, 1), 0.0, (0, 0, 0)), ((1, 2, 3), 40.0, (3.0, -2.0, 5.0)), ((0, 1, 0), -90.0, (0.0, 0.0, 0.0)), ((1, -1, 0.2), 155.0, (-40.0, 7.0, 0.3)),
          ((0, 0, 1), 90.0, (0, 0, 0)), ((2, -1, -1), 10.0, (0.001, 0, 0))]


def cases(tier):
    nm, nf, sizes = (3, 4, (1.0, 1e-3, 250.0, 1e-5)) if tier == "quick" else (5, 6, (1.0, 1e-3, 250.0, 1e-5, 0.2, 1e5))
    out = []
    # A history in which each corner is replaced alone and then with others.
    replace = [["fl"], ["br"], ["fr"], ["bl"], ["fr", "fl", "bl", "br"]]
    if tier != "quick":
        replace = [list(c) for n in (1, 2, 3, 4) for c in itertools.combinations(("fr", "fl", "bl", "br"), n)]
    for size in sizes:
        for f in range(nf):
            for m in range(nm):
                out.append(("size=%g frame=%d fr-move=%d" % (size, f, m), dict(size=size, frame=f, m=m, nm=nm, replace=replace)))
    for tri in ("fr=fl", "br=bl", "fl=bl", "fr=br"):
        for f in range(nf):
            out.append(("triangle %s frame=%d" % (tri, f), dict(tri=tri, frame=f, size=1.0, replace=[])))
    return out


def shapes(p):
    if "tri" in p:
        a, b = p["tri"].split("=")
        v = dict(BASE)
        v[a] = v[b]
        yield {k: np.array(x) for k, x in v.items()}
        return
    for m in itertools.product(range(p["nm"]), repeat=3):
        mv = (p["m"],) + m
        yield {k: np.array(BASE[k]) + np.array(MOVES[i]) for k, i in zip(("fr", "fl", "bl", "br"), mv)}


def measure(ob, q, keep, s, shift, what=""):
    """Compare everything the panel says about itself with its four corners."""
    def c(got, want, name, scale=s):
        ob.close(got, want, what + name, rtol=1e-10 + 1e-14 * (1 + np.max(np.abs(shift))) / s, atol=0.0, scale=scale)
    fr, fl, bl, br = (keep[k] for k in ("fr", "fl", "bl", "br"))
    c(q.right_leg, fr - br, "right leg"); c(q.front_leg, fl - fr, "front leg")
    c(q.left_leg, bl - fl, "left leg"); c(q.back_leg, br - bl, "back leg")
    g = ref.Quad(fl, fr, bl, br)
    c(q.front_left_vortex_vertex, g.cfl, "left quarter-chord point")
    c(q.front_right_vortex_vertex, g.cfr, "right quarter-chord point")
    c(q.collocation_point, g.colloc, "collocation point")
    # Area: two triangles' vector areas add up to half the cross product of the diagonals.
    va = 0.5 * (np.cross(bl - fl, fr - fl) + np.cross(fr - br, bl - br))
    c(q.area, np.linalg.norm(va), "area", s * s)
    c(q.unit_normal, ref.unit(np.cross(bl - fl, br - fl) + np.cross(br - fl, fr - fl)), "unit normal", 1.0)
    span = (fr - fl) + (br - bl)
    chord = (br - fr) + (bl - fl)
    c(q.unit_spanwise, ref.unit(span), "unit spanwise", 1.0)
    c(q.unit_chordwise, ref.unit(chord), "unit chordwise", 1.0)
    c(q.average_span, (np.linalg.norm(fr - fl) + np.linalg.norm(br - bl)) / 2, "average span")
    c(q.average_chord, (np.linalg.norm(fr - br) + np.linalg.norm(fl - bl)) / 2, "average chord")
    for d in ((0, 0, 1), (1, 0, 0), (0, 1, 0), (1, 2, 2), (3, -4, 12)):
        n = ref.unit(d)
        c(q.calculate_projected_area(n), abs(float(va @ n)), "area projected along %s" % (d,), s * s)
    return g


NAMES = dict(fr="front_right_vertex", fl="front_left_vertex", bl="back_left_vertex", br="back_right_vertex")


def run(p, ob):
    import pterasoftware as ps
    axis, deg, shift = FRAMES[p["frame"]]
    R = ref.rotation(axis, deg)
    sigs = []
    for v in shapes(p):
        v = {k: p["size"] * (R @ x) + np.array(shift, float) for k, x in v.items()}
        keep = {k: x.copy() for k, x in v.items()}
        if gen.WHOLE:
            v = {k: gen.vec(x) for k, x in v.items()}
        q = ps.panel.Panel(front_right_vertex=v["fr"], front_left_vertex=v["fl"], back_left_vertex=v["bl"], back_right_vertex=v["br"],
                           is_leading_edge=True, is_trailing_edge=False)
        s = p["size"]
        g = measure(ob, q, keep, s, shift)
        for k, x in v.items():
            ob.equal(x, keep[k], "the caller's vertex array")
        sigs.append((float(q.area), q.unit_normal))
        # A fresh panel carries no loads or vortices.
        ob.true(q.ring_vortex is None and q.horseshoe_vortex is None and q.near_field_force_wind_axes is None, "a new panel has no vortex and no load")
        # Coefficients: wind-axes force over the panel's own area and dynamic pressure.
        F = np.array([1.5, -0.7, -3.1]) * s
        q.near_field_force_wind_axes = F
        q.update_coefficients(7.3)
        ob.close([q.induced_drag_coefficient, q.side_force_coefficient, q.lift_coefficient],
                 np.array([-F[0], F[1], -F[2]]) / 7.3 / g.area, "panel coefficients", rtol=1e-9)
        # After any corners are replaced every quantity is that of the new corners.
        now = dict(keep)
        for step, names in enumerate(p["replace"]):
            for k in names:
                now[k] = now[k] + s * (R @ np.array(MOVES[1 + (step + "fr fl bl br".split().index(k)) % (len(MOVES) - 1)])) * 0.37
                setattr(q, NAMES[k], now[k].copy())
            g = measure(ob, q, now, s, shift, "after replacing %s: " % (p["replace"][:step + 1],))
            q.update_coefficients(7.3)
            ob.close(q.lift_coefficient, -F[2] / 7.3 / g.area, "lift coefficient after replacing corners", rtol=1e-9)
    ob.note("panels", len(sigs))
    ob.sig(sigs)
