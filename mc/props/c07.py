"""C07: induced velocities obey the (core-corrected) Biot-Savart law and stay finite everywhere."""
import itertools

import numpy as np

from mc import ref

PID = "C07"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of vortex and point positions against an independent Biot-Savart model"
NOTE = ("Covers all enumerated combinations of vortex shapes, points on, in line with, near and far from the filaments, strengths, ages, viscosities and "
        "sizes; agreement is to 1e-9. The finite-core formula itself (Squire's parameter, Lamb's constant) is taken as specified.")
RULE = ("Every point of a lattice around every enumerated vortex, times every (strength, age, viscosity) combination, for line-by-line summation of one to "
        "three vortices, and every listed number of vortices times every listed number of points; outcomes are distinct velocity fields.")
BOUND = {"quick": "6 lattices x 5 shapes x 3 frames x 15 strength-age-viscosity settings; up to 130 vortices and 401 points at once", "thorough": "10 lattices x 9 shapes x 5 frames x 40 settings; up to 257 vortices and 401 points at once"}

SHAPES = [
    # front left, front right, back left, back right
    ((0, 0, 0), (0, 1, 0), (1, 0, 0), (1, 1, 0)),
    ((0, 0, 0), (0.2, 1.1, 0.1), (0.9, -0.1, 0.2), (1.3, 0.9, -0.3)),
    ((0, 0, 0), (0, 1, 0), (20, 0, 2), (20, 1, 2)),
    ((0, 0, 0), (0, 0, 0), (1, 0, 0), (1, 1, 0)),
    ((0, 0, 0), (0.3, 2.0, 0), (0.5, 0, 0), (0.6, 2.0, 0.4)),
    ((0, 0, 0), (0, 1, 0), (0, 0, 0), (0, 1, 0)),
    ((0, 0, 0), (0, 0, 1), (1, 0, 0), (1, 0, 1)),
    ((0, 0, 0), (0, 1e-3, 0), (1e-3, 0, 0), (1e-3, 1e-3, 0)),
    ((0, 0, 0), (5, 1, 0), (1, 0, 0), (6, 1, 3)),
]
FRAMES = [((0, 0, 1), 0.0, 0.0, 1.0), ((1, 2, 3), 37.0, 1.5, 0.01), ((0, 1, 0), 90.0, -3.0, 40.0), ((3, -1, 1), 143.0, 0.2, 1e-3), ((1, 0, 0), 45.0, 10.0, 1.0)]
STRENGTHS = [1.0, -2.5, 0.0, 40.0]
AGES = [None, 0.0, 0.02, 1.7, 30.0]
NUS = [0.0, 15.06e-6, 0.3]


def settings(tier):
    out = []
    for g in STRENGTHS:
        for a in AGES:
            for nu in NUS:
                if a is None and nu:
                    continue
                out.append((g, a, nu))
    return out if tier != "quick" else sorted(set(out[::3]) | set(out[1::7]), key=out.index)


def cases(tier):
    ns, nf = (5, 3) if tier == "quick" else (9, 5)
    out = []
    for s in range(ns):
        for f in range(nf):
            for st in settings(tier):
                out.append(("shape=%d frame=%d strength=%g age=%s nu=%g" % ((s, f) + st), dict(shapes=[s], frame=f, st=[st], nu=st[2])))
    for trio in itertools.combinations(range(ns), 3):
        for f in range(nf):
            out.append(("three shapes=%s frame=%d" % (trio, f), dict(shapes=list(trio), frame=f, st=[(1.3, 0.4, 0.01), (-0.7, 0.0, 0.01), (5.0, 2.2, 0.01)], nu=0.01)))
    # Any number of vortices and points at once, with ages that differ (zero among them).
    for n in (2, 4, 5, 8, 33, 130) if tier == "quick" else (2, 4, 5, 6, 7, 8, 16, 33, 64, 65, 130, 257):
        for m in (1, 2, 3, 64, 401):
            for aged in (False, True):
                out.append(("%d vortices, %d points, %s" % (n, m, "aged" if aged else "ageless"), dict(
                    shapes=[i % ns for i in range(n)], frame=n % nf, spread=True, pts=m, nu=0.02,
                    st=[((-1) ** i * (0.3 + 0.01 * i) * (i % 7 != 3), (0.0 if i % 5 == 2 else 0.05 * i) if aged else None, 0.02) for i in range(n)])))
    out.append(("empty", dict(empty=True)))
    return out


def L0(ends):
    return max(np.linalg.norm(b - a) for a, b in ends)


def lattice(corners):
    fl, fr, bl, br = corners
    pts = []
    ends = [(fr, fl), (fl, bl), (bl, br), (br, fr)]
    for a, b in ends:  # on the filament, at its ends, in line with it, beside it
        for t in (0.0, 0.25, 0.5, 1.0, 1.5, -0.7):
            pts.append(a + t * (b - a))
    c = (fl + fr + bl + br) / 4
    pts.append(c)
    L = max(np.linalg.norm(b - a) for a, b in ends)
    for a, b in ends:  # an end point, missed by rounding
        for d in ((1e-16, 0.0, 0.0), (-2e-16, 3e-16, 1e-16), (0.0, 1e-15, -1e-15)):
            pts.append(a + L0(ends) * np.array(d))
    for d in itertools.product((-1.0, 0.0, 0.37), (-0.6, 0.0, 1.2), (-0.9, 1e-3, 0.5)):
        pts.append(c + L * np.array(d))
    for d in ((1, 0, 0), (0, 1, 0), (1, 1, 1)):
        pts.append(c + 1e3 * L * np.array(d, float))
    return pts


def run(p, ob):
    import pterasoftware as ps
    A = ps.aerodynamics
    if "empty" in p:
        z = np.zeros((0, 3))
        P = np.array([[0.1, 0.2, 0.3], [1.0, 0, 0]])
        v = A.collapsed_velocities_from_ring_vortices(P, z, z, z, z, np.zeros(0), np.zeros(0), 0.0)
        ob.close(v, np.zeros((2, 3)), "velocity without vortices")
        ob.sig("empty")
        return
    axis, deg, shift, size = FRAMES[p["frame"]]
    R = ref.rotation(axis, deg)
    C = [np.array([size * (R @ np.array(SHAPES[s][k], float)) + size * shift * np.array([1.0, -0.5, 0.25]) for s in p["shapes"]]) for k in range(4)]
    if p.get("spread"):
        C = [c + size * np.arange(len(c))[:, None] * np.array([0.31, 1.13, -0.07]) for c in C]
    fl, fr, bl, br = C
    P = np.array([q for i in range(len(p["shapes"])) for q in lattice([c[i] for c in C])])
    if "pts" in p:
        P = P[:: max(1, len(P) // p["pts"])][: p["pts"]].copy()
    g = np.array([s[0] for s in p["st"]])
    ages = None if p["st"][0][1] is None else np.array([s[1] for s in p["st"]])
    nu = p["nu"]
    keep = [c.copy() for c in C] + [P.copy(), g.copy()]
    args = dict(points=P, back_right_vortex_vertices=br, front_right_vortex_vertices=fr, front_left_vortex_vertices=fl,
                back_left_vortex_vertices=bl, strengths=g, ages=ages, nu=nu)
    # Points that are collinear with a filament only up to rounding are decided by rounding; leave those out of the comparison.
    def seg(pts):
        return [ref.segment_velocity(P, a, b, g, 0.0 if ages is None else ref.core_radius(g, ages, nu)) for a, b in pts]

    def amb(pts):
        out = np.zeros(len(P), bool)
        for a, b in pts:
            r1, r2 = P[:, None] - a[None], P[:, None] - b[None]
            c2 = (np.cross(r1, r2) ** 2).sum(-1)
            d = (r1 ** 2).sum(-1) * (r2 ** 2).sum(-1)
            out |= ((c2 > 1e-19 * d) & (c2 < 1e-12 * d)).any(1)
            r0 = ((b - a) ** 2).sum(-1)[None]
            for r in (r1, r2):  # or an end point met only up to rounding
                n2 = (r ** 2).sum(-1)
                out |= ((n2 > 1e-20 * r0) & (n2 < 1e-12 * r0)).any(1)
        return out
    S = dict(right=(br, fr), front=(fr, fl), left=(fl, bl), back=(bl, br))
    sets = dict(ring=["right", "front", "left", "back"], horseshoe=["right", "front", "left"], chordwise=["right", "left"])
    sig = []
    for kind, names in sets.items():
        pts = [S[n] for n in names]
        parts = seg(pts)
        want = sum(parts)
        ok = ~amb(pts)
        ob.note("points", int(ok.sum()))
        fns = dict(ring=("collapsed_velocities_from_ring_vortices", "expanded_velocities_from_ring_vortices"),
                   horseshoe=("collapsed_velocities_from_horseshoe_vortices", "expanded_velocities_from_horseshoe_vortices"),
                   chordwise=("collapsed_velocities_from_ring_vortices_chordwise_segments", None))[kind]
        col = getattr(A, fns[0])(**args)
        ob.true(np.all(np.isfinite(col)), "%s: finite velocities everywhere, also on and in line with the filaments" % kind)
        # Near a filament the law is steep in the point's distance from it, so compare relative to each point's own speed.
        mag = sum(np.abs(v) for v in parts).sum((1, 2)) + 1e-300
        # (Rounding grows with the square of the distance over the length of the filament.)
        far = np.zeros(len(P))
        for a, b in pts:
            r0 = np.sqrt(((b - a) ** 2).sum(-1))
            use = r0 > 0
            if use.any():
                far = np.maximum(far, (np.sqrt(((P[:, None] - a[None, use]) ** 2).sum(-1)) / r0[use]).max(1))
        slack = (1e-9 + 1e-14 * far[ok, None] ** 2) * mag[ok, None] + 1e-12 * np.max(mag[ok])
        bad = np.abs(col[ok] - want[ok].sum(1)) > slack
        ob.true(not bad.any(), "%s: induced velocity at point %s is %s, expected %s" % (
            (kind, P[ok][np.argwhere(bad)[0][0]].tolist() if bad.any() else 0, col[ok][np.argwhere(bad)[0][0]] if bad.any() else 0,
             want[ok].sum(1)[np.argwhere(bad)[0][0]] if bad.any() else 0)))
        if fns[1]:
            ex = getattr(A, fns[1])(**args)
            ob.equal(ex.shape, (len(P), len(g), 3), kind + ": one velocity per point and vortex")
            bad = np.abs(ex[ok] - want[ok]) > slack[:, None, :]
            ob.true(not bad.any(), "%s: velocities of the single vortices" % kind)
            bad = np.abs(ex.sum(1) - col)[ok] > slack
            ob.true(not bad.any(), "%s: the summed velocity is the sum over the vortices" % kind)
        sig.append(col[::5])
    # Without ages the vortices have no core.
    if ages is not None and not np.any(ages):
        ob.close(A.collapsed_velocities_from_ring_vortices(**dict(args, ages=None)), A.collapsed_velocities_from_ring_vortices(**args), "age zero equals no age")
    if len(g) == 1 and ages is None:
        one_panel(ps, p, P, [c[0] for c in C], float(g[0]), amb, ob)
    for k, c in zip(keep, C + [P, g]):
        ob.equal(c, k, "the caller's arrays")
    ob.sig(sig)


def one_panel(ps, p, P, corners, g, amb, ob):
    """The velocity that a panel says its own vortices induce is that of its ring and its horseshoe vortex, if it has them."""
    fl, fr, bl, br = corners
    d, length = ref.unit(np.array([1.0, 0.1, 0.2])), 7.0 * (1e-3 + np.linalg.norm(br - fr))
    far_l, far_r = fl + d * length, fr + d * length
    segs = dict(ring=[(br, fr), (fr, fl), (fl, bl), (bl, br)], horseshoe=[(far_r, fr), (fr, fl), (fl, far_l)])
    ok = ~amb([(a[None], b[None]) for s in segs.values() for a, b in s])[::3]
    P = P[::3]
    for has in ((), ("ring",), ("horseshoe",), ("ring", "horseshoe")):
        panel = ps.panel.Panel(fr.copy(), fl.copy(), bl.copy(), br.copy(), True, True)
        if "ring" in has:
            panel.ring_vortex = ps.aerodynamics.RingVortex(front_left_vertex=fl, front_right_vertex=fr, back_left_vertex=bl, back_right_vertex=br, strength=g)
        if "horseshoe" in has:
            panel.horseshoe_vortex = ps.aerodynamics.HorseshoeVortex(
                finite_leg_origin=fr, finite_leg_termination=fl, strength=2.0 * g, infinite_leg_direction=d, infinite_leg_length=length)
        use = dict(ring=g, horseshoe=2.0 * g)
        for i in np.flatnonzero(ok)[::2]:
            q = P[i]
            one = dict((k, [ref.segment_velocity(q[None], a[None], b[None], np.ones(1), 0.0)[0, 0] for a, b in segs[k]]) for k in has)
            mag = sum((np.abs(v).sum() for k in has for v in one[k]), 0.0)
            reach = max(np.linalg.norm(q - c) for c in (fl, fr, bl, br)) / (1e-300 + min([np.linalg.norm(b - a) for s in segs.values() for a, b in s if np.any(a != b)] or [1.0]))
            tol = (1e-9 + 1e-14 * reach ** 2) * mag * (1.0 + 2.0 * abs(g)) + 1e-300
            for what, got, want in (
                    ("at unit strength", panel.calculate_normalized_induced_velocity(q.copy()), sum((sum(one[k]) for k in has), np.zeros(3))),
                    ("with its strengths", panel.calculate_induced_velocity(q.copy()), sum((use[k] * sum(one[k]) for k in has), np.zeros(3)))):
                ob.true(np.shape(got) == (3,) and np.all(np.abs(got - want) <= tol), "a panel with %s vortices, %s, at %s: %s, expected %s" % (
                    " and ".join(has) or "no", what, q.tolist(), got, want))


def warm():
    class O:
        def __getattr__(self, n):
            return lambda *a, **k: None
    run(cases("quick")[0][1], O())
    run(dict(shapes=[0], frame=0, st=[(1.0, 0.1, 0.0)], nu=0.0), O())
