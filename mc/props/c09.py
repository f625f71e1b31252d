"""C09: the operating point's axes, freestream and dynamic pressure."""
import itertools
import math

import numpy as np

from mc import gen, ref

PID = "C09"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of an angle grid against closed-form axes"
NOTE = "Covers the whole enumerated grid of angles, speeds and densities, and every order of changing an existing operating point, and every move of one operating point between two states of a lattice; other values are not covered."
RULE = "Full product of angles of attack, sideslip angles, speeds and densities; outcomes are distinct rotation matrices."
BOUND = {"quick": "25 x 25 angles, 3 speeds, 2 densities; one operating point between all ordered pairs of 64 states", "thorough": "73 x 73 angles, 4 speeds, 3 densities; one operating point between all ordered pairs of 196 states"}


ANGLES = {"quick": (-5.0, 0.0, 5.0, 10.0), "thorough": (-20.0, -10.0, -5.0, 0.0, 5.0, 10.0, 20.0)}


def cases(tier):
    g = list(range(-180, 181, 15)) if tier == "quick" else list(range(-180, 181, 5))
    return [("alpha=%g" % a, dict(a=float(a), bs=[float(b) + 0.25 * (b != 0) for b in g], tier=tier)) for a in g] + \
           [("alpha=%g" % a, dict(a=a, bs=[float(b) for b in g], tier=tier)) for a in (0.5, -2.75, 4.123, 44.9, 89.99)] + \
           [("from a=%g b=%g v=%g rho=%g" % q, dict(visits=dict(zip(("a", "b", "v", "rho"), q)), angles=ANGLES[tier], n=2))
            for q in itertools.product(ANGLES[tier], ANGLES[tier], (10.0, 20.0), (1.225, 0.6))]


def check(ob, o, s):
    M = o.calculate_rotation_matrix_wind_to_geometry()
    ob.close(M, ref.wind_to_geometry(s["a"], s["b"]), "wind-to-geometry rotation", atol=1e-12)
    ob.close(M @ M.T, np.eye(3), "orthogonality", atol=1e-12)
    ob.close(np.linalg.det(M), 1.0, "handedness", atol=1e-12)
    a, b = math.radians(s["a"]), math.radians(s["b"])
    d = np.array([math.cos(b) * math.cos(a), -math.sin(b), math.cos(b) * math.sin(a)])
    ob.close(o.calculate_freestream_direction_geometry_axes(), d, "freestream direction", atol=1e-12)
    ob.close(o.calculate_freestream_velocity_geometry_axes(), s["v"] * d, "freestream velocity", atol=1e-12 * s["v"])
    ob.close(o.calculate_dynamic_pressure(), 0.5 * s["rho"] * s["v"] ** 2, "dynamic pressure", rtol=1e-12)
    ob.equal((o.alpha, o.beta, o.velocity, o.density, o.external_thrust, o.nu), (s["a"], s["b"], s["v"], s["rho"], s["thrust"], s["nu"]), "attributes")


def visits(p, ob):
    """One operating point that was asked for everything in one state and is then set to another."""
    n = p["n"]
    lattice = [dict(a=a, b=b, v=v, rho=rho) for a in p["angles"] for b in p["angles"] for v in (10.0, 20.0)[:n] for rho in (1.225, 0.6)[:n]]
    here = {k: p["visits"][k] for k in ("a", "b", "v", "rho")}
    for there in lattice:
        o = gen.build_op(gen.op(**here))
        check(ob, o, gen.op(**here))
        o.alpha, o.beta, o.velocity, o.density = there["a"], there["b"], there["v"], there["rho"]
        check(ob, o, gen.op(**there))
        ob.transitions += 1
    ob.sig("visits", here)


def run(p, ob):
    if "visits" in p:
        return visits(p, ob)
    sig = []
    vs = (10.0, 0.3, 250.0) if p["tier"] == "quick" else (10.0, 0.3, 250.0, 1e-3)
    rhos = (1.225, 1000.0) if p["tier"] == "quick" else (1.225, 1000.0, 0.02)
    for b in p["bs"]:
        for v, rho in itertools.product(vs, rhos):
            s = gen.op(a=p["a"], b=b, v=v, rho=rho, thrust=3.0, nu=1e-5)
            o = gen.build_op(s)
            check(ob, o, s)
        # Changing the attributes afterwards is what the trim analyses do.
        for ch in itertools.permutations((("a", "alpha", -7.0), ("b", "beta", 3.5), ("v", "velocity", 21.0)), 2):
            s2 = dict(s)
            o = gen.build_op(s)
            for k, n, x in ch:
                o.calculate_freestream_velocity_geometry_axes()
                setattr(o, n, x)
                s2[k] = x
                check(ob, o, s2)
        sig.append(ref.wind_to_geometry(p["a"], b))
    import pterasoftware as ps
    check(ob, ps.operating_point.OperatingPoint(), gen.op())
    ob.sig(sig)
