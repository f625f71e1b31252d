"""C34: the public geometric and oscillation helpers are the stated functions."""
import itertools

import numpy as np

from mc import gen, ref

PID = "C34"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of input lattices of the real functions against independently written definitions and their algebraic laws"
NOTE = ("Every function is evaluated on every combination of a lattice of inputs that includes equal points, zero and negative amplitudes, one point, long times, tilted planes and "
        "axes of any length, and compared with an independent definition to 1e-10 or better; inputs must stay as they were. Values between lattice points are not covered.")
RULE = "Functions x lattice of one argument per case x all values of the others inside the case; a transition is one call; outcomes are distinct results."
BOUND = {"quick": "35 axes x 7 lengths x 40 angles; all pairs from 125 vectors; 49 planes x 4 plane points x 125 points; 30 spacings x 27 point pairs; 4 laws x 7 amplitudes x 9 periods x 4 base values x 8 schedules",
         "thorough": "35 axes x 14 lengths x 120 angles; all pairs from 343 vectors; 49 planes x 8 plane points x 343 points; 60 spacings x 125 point pairs; 4 laws x 11 amplitudes x 15 periods x 6 base values x 16 schedules"}

DIRECTIONS = [np.array(v, float) for v in itertools.product((-1, 0, 1), repeat=3) if any(v)] + \
             [np.array(v, float) for v in ((1, 2, 3), (-2, 1, 0.5), (0.01, 1, 0), (1e-6, 0, 1), (3, -4, 12), (0, 5, -12), (1, 1, -1e-3), (-7, 0.2, 0.1), (0.3, -0.4, 1e-9))]


# Near and far, large and small.
PLACES = [(1.0, 0.0), (1e-5, 0.0), (1.0, np.array([-1000.0, 600.0, -3000.0])), (1.0, np.array([700.0, -900.0, 40.0])), (1e4, -2e4)]


def lattice(tier):
    return [np.array(v, float) for v in itertools.product((-1.5, 0.0, 0.25, 1.0, 3.0) if tier == "quick" else (-40.0, -1.5, -0.125, 0.0, 0.25, 1.0, 3.0), repeat=3)]


def cases(tier):
    q = tier == "quick"
    out = []
    for i in range(len(DIRECTIONS)):
        out.append(("rotation about %s" % DIRECTIONS[i].tolist(), dict(fn="rotation", i=i, lengths=(1.0, 0.1, 7.0, 1e4, 0.995, 1.004, 1 + 1e-6) if q else (1.0, 0.1, 7.0, 1e4, 1e-6, 3.3, 1e8, 2.0, 0.995, 1.004, 1 + 1e-6, 1 - 1e-9, 0.95, 1.05), n=40 if q else 120)))
        out.append(("reflection across %s" % DIRECTIONS[i].tolist(), dict(fn="reflection", i=i, points=4 if q else 8, tier=tier)))
    for k in range(0, len(lattice(tier)), 25):
        out.append(("cross products %d" % k, dict(fn="cross", k=k, tier=tier)))
        out.append(("centres %d" % k, dict(fn="centre", k=k, tier=tier)))
    for n in list(range(1, 31)) if q else list(range(1, 51)) + [64, 75, 100, 101, 128, 200, 255, 256, 257, 400]:
        for end in (True, False):
            out.append(("cosine spacing of %d points%s" % (n, "" if end else " without the end"), dict(fn="cosspace", n=n, end=end)))
        out.append(("interpolation at %d points" % n, dict(fn="interp", n=n, tier=tier)))
    for kind in ("sine", "uniform", "mix", "slow"):
        for amp in (0.0, 1.0, -2.5, 0.05, 90.0, 1e-9, 4) + (() if q else (-1e-3, 1e6, -30.0, 0.7)):
            for T in (0.0, 1.0, 0.3, 0.07, 10.0, 0.4, 3.7, 2, 123.4) + (() if q else (1e-3, 0.1, 0.8, 1.6, 1e5, 0.9)):
                out.append(("%s law, amplitude %g, period %g" % (kind, amp, T), dict(fn="law", kind=kind, amp=amp, T=T,
                                                                                   bases=(0.0, 1.0, -7.25, 300.0) + (() if q else (1e-6, 5)),
                                                                                   plans=[(1, 0.1), (2, 0.1), (10, 0.1), (40, 0.025), (7, 0.3), (13, 1.0), (3, 1e-3), (400, 0.05)] +
                                                                                   ([] if q else [(5, 0.2), (64, 0.0125), (101, 0.01), (2000, 0.05), (9, 7.0), (31, 0.1), (4, 1e-6), (25, 0.04)]))))
    return out


def run(p, ob):
    import pterasoftware as ps
    {"rotation": rotation, "reflection": reflection, "cross": cross, "centre": centre, "cosspace": cosspace, "interp": interp, "law": law}[p["fn"]](p, ob, ps)


def rotation(p, ob, ps):
    f = ps.functions.angle_axis_rotation_matrix
    d = DIRECTIONS[p["i"]]
    got = []
    angles = [2 * np.pi * k / p["n"] for k in range(-p["n"], p["n"] + 1)] + [1e-9, -1e-5, 0.3, -2.9, 50.0]
    for a in angles:
        want = ref.rotation(d, np.degrees(a))
        for L in p["lengths"]:
            axis = d / np.linalg.norm(d) * L
            keep = axis.copy()
            R = f(a, axis)
            ob.close(R, want, "rotation by %.17g about %s" % (a, axis.tolist()), atol=1e-12)
            if L == 1.0:
                ob.close(f(a, axis, True), want, "rotation by %.17g about the unit axis %s" % (a, axis.tolist()), atol=1e-12)
            ob.true((axis == keep).all(), "the axis is changed")
            ob.transitions += 1
        ob.close(R @ R.T, np.eye(3), "orthogonality", atol=1e-12)
        ob.true(abs(np.linalg.det(R) - 1) < 1e-12, "a proper rotation")
        ob.close(R @ d, d, "the axis stays put", atol=1e-11)
        ob.state("rotation", p["i"], R)
        got.append(R)
    ob.sig(p["fn"], got)


def reflection(p, ob, ps):
    f = ps.functions.reflect_point_across_plane
    n = DIRECTIONS[p["i"]] / np.linalg.norm(DIRECTIONS[p["i"]])
    got = []
    for at in [np.array(v, float) for v in ((0, 0, 0), (1, -2, 3), (0, 0.5, 0), (-10, 0.1, 7), (100, 200, -300), (0, 0, 1e-3), (5, 5, 5), (-1, 0, 0))][:p["points"]]:
        for x in lattice(p["tier"]):
            kn, ka, kx = n.copy(), at.copy(), x.copy()
            y = f(x, n, at)
            ob.close(y, ref.reflect(x, n, at), "reflection of %s across the plane at %s" % (x.tolist(), at.tolist()), rtol=1e-12, atol=1e-11)
            ob.close(f(np.array(y), n, at), x, "reflected twice", rtol=1e-12, atol=1e-10)
            for s in (1e-5, 1e5):
                ob.close(f(s * x, n, s * at), s * y, "reflection in another scale", rtol=1e-12, scale=s * 500)
            ob.true((n == kn).all() and (at == ka).all() and (x == kx).all(), "the arguments are changed")
            ob.transitions += 1
            got.append(y)
        ob.state("reflection", p["i"], at)
    ob.sig(p["fn"], got)


def cross(p, ob, ps):
    f = ps.functions.numba_1d_explicit_cross
    all_ = np.array(lattice(p["tier"]))
    for a in all_[p["k"]:p["k"] + 25]:
        A = np.tile(a, (len(all_), 1))
        want = np.array([[u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]] for u, v in zip(A, all_)])
        ob.close(f(A, all_), want, "cross products with %s" % a.tolist(), rtol=1e-13)
        ob.close(f(all_, A), -want, "cross products the other way with %s" % a.tolist(), rtol=1e-13)
        for s, t in ((1e-5, 1e-5), (1e6, 1e-3), (3e4, -2e4)):
            ob.close(f(s * A, t * all_), s * t * want, "cross products of vectors %g and %g times as long" % (s, t), rtol=1e-13)
        ob.close(f(A[:1], all_[:1]), want[:1], "a single cross product", rtol=1e-13)
        ob.transitions += 2 * len(all_)
        ob.state("cross", a)
    ob.sig(p["fn"], p["k"], want)


def centre(p, ob, ps):
    f = ps.functions.numba_centroid_of_quadrilateral
    all_ = lattice(p["tier"])
    m = len(all_)
    got = []
    for i in range(p["k"], min(p["k"] + 25, m)):
        for j in range(0, m, 3):
            q = [all_[i], all_[j], all_[(i * 7 + j) % m], all_[(i + j * 11 + 5) % m]]
            for scale, shift in PLACES:
                r = [scale * x + shift for x in q]
                c = f(*[x.copy() for x in r])
                ob.close(c, sum(r) / 4, "centre of %s" % [x.tolist() for x in r], rtol=1e-13)
                ob.transitions += 1
            got.append(c)
        ob.state("centre", i)
    ob.sig(p["fn"], got)


def cosspace(p, ob, ps):
    f = ps.functions.cosspace
    got = []
    for lo, hi in itertools.product((0.0, -1.0, 2.5, 100.0, -0.001, -5e4), (1.0, 0.0, -3.0, 7.5, 1e5)):
        x = f(lo, hi, p["n"], p["end"])
        m = p["n"] - 1 if p["end"] else p["n"]
        k = np.arange(p["n"]) / max(m, 1)
        ob.close(x, lo + (hi - lo) * 0.5 * (1 - np.cos(np.pi * k)), "spacing from %g to %g" % (lo, hi), rtol=1e-13, atol=1e-13, scale=max(abs(lo), abs(hi)))
        ob.transitions += 1
        got.append(x)
    ob.state("cosspace", p["n"], p["end"])
    ob.sig(p["fn"], p["n"], p["end"], got)


def interp(p, ob, ps):
    f = ps.functions.interp_between_points
    pts = [np.array(v, float) for v in itertools.product((-1.0, 0.0, 2.5) if p["tier"] == "quick" else (-30.0, -1.0, 0.0, 0.125, 2.5), repeat=3)]
    a = np.array(pts)
    for spacing in (np.linspace(0, 1, p["n"]), ref.spacing(p["n"], "cosine"), np.linspace(1, 0, p["n"]) ** 2):
        for turn in (1, 5, 8):
            b = np.array(pts[turn:] + pts[:turn])
            want = np.array([[(1 - t) * u + t * v for t in spacing] for u, v in zip(a, b)])
            ob.close(f(a, b, spacing), want, "points between %d pairs" % len(a), rtol=1e-13)
            for s, d in ((1e-5, 0.0), (1e4, -3e4)):
                ob.close(f(s * a + d, s * b + d, spacing), s * want + d, "points between pairs far apart or close together", rtol=1e-12, atol=1e-18)
            ob.close(f(a[:1].copy(), b[:1].copy(), spacing), want[:1], "points between one pair", rtol=1e-13, atol=1e-13)
            ob.transitions += 2
    ob.state("interp", p["n"])
    ob.sig(p["fn"], p["n"], want)


def law(p, ob, ps):
    m = ps.movement
    kind = {"sine": "sine", "uniform": "uniform"}.get(p["kind"]) or gen.CUSTOM[p["kind"]]
    got = []
    for base in p["bases"]:
        for n, dt in p["plans"]:
            args = (p["amp"], p["T"], base, n, dt)
            x = {"sine": m.oscillating_sinspace, "uniform": m.oscillating_linspace}[kind](*args) if isinstance(kind, str) else m.oscillating_customspace(*args, kind)
            # (The phase itself is only known to within rounding.)
            turns = 0.0 if p["T"] == 0 else n * dt / p["T"]
            ob.close(x, ref.schedule(base, p["amp"], p["T"], kind, n, dt), "%s law with %s" % (p["kind"], args), rtol=1e-12, atol=1e-12 + 1e-13 * abs(p["amp"]) * (10 + turns))
            ob.transitions += 1
            ob.state(p["kind"], args)
            got.append(x)
    ob.sig(p["fn"], p["kind"], got)


def warm():
    import pterasoftware as ps
    z = np.zeros((1, 3))
    ps.functions.numba_1d_explicit_cross(z, z)
    ps.functions.numba_centroid_of_quadrilateral(z[0], z[0], z[0], z[0])
    ps.functions.interp_between_points(z, z, np.zeros(1))
