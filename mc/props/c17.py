"""C17: movements keep everything they do not move, and never touch the objects they start from."""
import itertools

import numpy as np

from mc import aero, gen
from mc.props import c01

PID = "C17"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of base definitions and motions; every snapshot compared attribute by attribute with its base"
NOTE = ("For every enumerated base definition every unmoved attribute of every snapshot equals the base's, snapshots share no mutable objects with each other or the "
        "base, and the base objects are bit-for-bit unchanged by building, solving and averaging. Other definitions are not covered.")
RULE = ("All wings within k deviations of two base wings, all airplane and operating-point attributes in full product, each without motion and with motion of every "
        "quantity; outcomes are distinct definitions.")
BOUND = {"quick": "k = 1 from 2 base wings, 2 motions; 144 airplane/flight-state definitions; 6 formations", "thorough": "k = 2 from 2 base wings, 2 motions; 144 definitions and 6 formations, solved"}

XS = ["chord", "control_surface_type", "control_surface_hinge_point", "control_surface_deflection", "num_spanwise_panels", "spanwise_spacing"]
WG = ["name", "symmetric", "num_chordwise_panels", "chordwise_spacing", "num_spanwise_panels", "num_panels"]
AP = ["name", "weight", "num_panels"]
OP = ["density", "alpha", "beta", "external_thrust", "nu"]
VARY = {"XS": {"x_le", "y_le", "z_le", "twist"}, "WG": {"x_le", "y_le", "z_le"}, "AP": {"x_ref", "y_ref", "z_ref"}, "OP": {"velocity"}}


def cases(tier):
    q = tier == "quick"
    out = []
    for b, base in (("plain", c01.PLAIN), ("full", dict(c01.FULL, ns1=2, nc=2))):
        for key, p in gen.named(b, gen.deviations(c01.SPACE, base, 1 if q else 2)):
            if c01.legal(p):
                for move in (False, True):
                    # Sections in other planes than the wing's cannot move yet, so they stay still here.
                    out.append(("%s %s" % (key, "moving" if move else "still"), dict(wing=c01.spec(p), move=move and p["plane"] == "y", ap={}, op={}, solve=False)))
    w = dict(aero.rect(nc=2, ns=2), name="main wing")
    for s, c, bb, wt, name, xz, mv in itertools.product((None, 3.0), (None, 0.9), (None, 7.0), (0.0, 250.0), ("A", " Flyer\ttwo\u00e9 ", ""), (0.0, 0.4), (False, True)):
        i = len(out)
        o = [dict(), dict(nu=0.0), dict(rho=0.4, a=-3.0), dict(b=9.0, thrust=20.0, nu=1.5e-5), dict(v=33.0, rho=1000.0, nu=1e-6, thrust=-1.0)][i % 5]
        out.append(("airplane s=%s c=%s b=%s weight=%g %s ref=%g %s" % (s, c, bb, wt, name, xz, "moving" if mv else "still"),
                    dict(wing=w, move=mv, ap=dict(s_ref=s, c_ref=c, b_ref=bb, weight=wt, name=name, x=xz, z=-xz), op=o, solve=not q or i % 3 == 0)))
    # Formations: nothing of one wing or airplane may stand in for another's.
    for move in (False, True):
        for name in ("wing, tail and fin", "three airplanes", "two airplanes", "four wings", "tail first", "biplane"):
            aps = [dict(a, name="P%d" % i, weight=10.0 + i, **({"s_ref": 2.0 + i} if i % 2 else {"b_ref": 3.0 + i})) for i, a in enumerate(aero.configs()[name])]
            for i, a in enumerate(aps):
                a["wings"] = [dict(w, name=" W%d%d " % (i, j)) for j, w in enumerate(a["wings"])]
            out.append(("formation %s %s" % (name, "moving" if move else "still"), dict(aps=aps, wing=None, move=move and "fin" not in name and "four" not in name, ap={}, op={}, solve=not q or name in ("three airplanes", "biplane"))))
    return out


def freeze(x, seen=None):
    """A value snapshot of an object graph."""
    seen = {} if seen is None else seen
    if isinstance(x, np.ndarray) and x.dtype != object:
        return (x.shape, x.tobytes())
    if x is None or isinstance(x, (str, int, float, bool, np.generic)):
        return x
    if callable(x):
        return "callable"
    if id(x) in seen:
        return seen[id(x)]
    seen[id(x)] = "ref %d" % len(seen)
    if isinstance(x, (list, tuple, np.ndarray)):
        return [freeze(v, seen) for v in (x.ravel() if isinstance(x, np.ndarray) else x)]
    if isinstance(x, dict):
        return sorted((str(k), repr(freeze(v, seen))) for k, v in x.items())
    return (type(x).__name__, [(k, freeze(v, seen)) for k, v in sorted(vars(x).items()) if not k.startswith("_")])


def inner(x):
    """The mutable parts of an airplane."""
    out = [x] + list(x.wings)
    for w in x.wings:
        out += list(w.wing_cross_sections)
        out += list(np.ravel(w.panels))
    return out


def run(p, ob):
    import pterasoftware as ps
    aps = p.get("aps") or [gen.airplane([p["wing"]], **p["ap"])]
    o = gen.op(**p["op"])
    n = 3
    if p["move"]:
        ams = aero.moving(aps, sec=dict(sa=5.0, sT=0.3, pa=2.0, pT=0.4, ha=1.0, hT=0.2), root=dict(pa=1.0, pT=0.3), wing=dict(xa=0.1, xT=0.3, za=0.2, zT=0.2), ap=dict(xa=0.1, xT=0.3, ya=0.2, yT=0.2))
        om = dict(gen.OM, va=1.0, vT=0.3)
    else:
        ams, om = gen.still(aps), gen.OM
    # The builder makes base objects and keeps them inside the movements.
    m = ps.movement
    mv = gen.build_movement(aps, ams, o, om, dict(gen.MV, steps=n, dt=0.05))
    for i in range(len(aps)):
        one(p, ob, ps, mv, i, aps, ams, o, om, n)
    if p["solve"]:
        prob = ps.problems.UnsteadyProblem(movement=mv)
        s = ps.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver(prob)
        aero.run_quiet(s, prescribed_wake=False)
        bop = mv.operating_point_movement.base_operating_point
        ob.true(freeze(bop) == freeze(gen.build_op(o)), "the base operating point is as it was before the solver ran")
        again = gen.build_movement(aps, ams, o, om, dict(gen.MV, steps=n, dt=0.05))
        for i, am in enumerate(mv.airplane_movements):
            ob.true(freeze(am.base_airplane) == freeze(gen.build_airplane(aps[i])), "base airplane %d is as it was before the solver ran" % i)
            for a, b in zip(again.airplanes[i], am.generate_airplanes(num_steps=n, delta_time=0.05)):
                ob.true(freeze(a) == freeze(b), "generating snapshots again gives the same snapshots")
    last = mv.airplanes[-1][-1].wings[-1]
    ob.sig(p["ap"], p["op"], p["move"], [np.ravel(getattr(q, "back_right_vertex")) for q in np.ravel(last.panels)], gen.short(p["wing"]), len(aps))


def one(p, ob, ps, mv, i, aps, ams, o, om, n):
    twin_a, twin_o = gen.build_airplane(aps[i]), gen.build_op(o)
    am = mv.airplane_movements[i]
    base, bop = am.base_airplane, mv.operating_point_movement.base_operating_point
    ob.true(freeze(base) == freeze(twin_a), "the base airplane is as it was before the movement was made")
    ob.true(freeze(bop) == freeze(twin_o), "the base operating point is as it was before the movement was made")
    snaps = mv.airplanes[i]
    ids = [id(v) for s in [base] + list(snaps) for v in inner(s)]
    ob.equal(len(set(ids)), len(ids), "objects shared between snapshots")
    for t, s in enumerate(snaps):
        what = "step %d: " % t
        for nme in AP:
            ob.equal(getattr(s, nme), getattr(base, nme), what + "airplane " + nme)
        for nme in ("s_ref", "c_ref", "b_ref"):
            ob.close(getattr(s, nme), getattr(base, nme), what + "airplane " + nme, rtol=1e-12)
            if aps[i][nme] is not None:
                ob.equal(getattr(s, nme), aps[i][nme], what + "given airplane " + nme)
        for w, bw in zip(s.wings, base.wings):
            for nme in WG:
                ob.equal(getattr(w, nme), getattr(bw, nme), what + "wing " + nme)
            for nme in ("unit_normal_vector", "unit_chordwise_vector"):
                ob.close(getattr(w, nme), getattr(bw, nme), what + "wing " + nme, atol=1e-14)
            for k, (x, bx) in enumerate(zip(w.wing_cross_sections, bw.wing_cross_sections)):
                for nme in XS:
                    ob.equal(getattr(x, nme), getattr(bx, nme), what + "section %d %s" % (k, nme))
                ob.close(x.unit_normal_vector, bx.unit_normal_vector, what + "section %d unit_normal_vector" % k, atol=1e-14)
                ob.equal(x.airfoil.name, bx.airfoil.name, what + "section %d airfoil" % k)
                ob.equal(np.asarray(x.airfoil.coordinates).tolist(), np.asarray(bx.airfoil.coordinates).tolist(), what + "section %d outline" % k)
        q = mv.operating_points[t]
        for nme in OP:
            ob.equal(getattr(q, nme), getattr(bop, nme), what + "operating point " + nme)
        if not p["move"]:
            for nme in ("x_ref", "y_ref", "z_ref"):
                ob.close(getattr(s, nme), getattr(base, nme), what + nme, atol=1e-13)
            ob.close(q.velocity, bop.velocity, what + "velocity")
            for u, v in [uv for w, bw in zip(s.wings, base.wings) for uv in zip(np.ravel(w.panels), np.ravel(bw.panels))]:
                for nme in ("front_left_vertex", "front_right_vertex", "back_left_vertex", "back_right_vertex"):
                    ob.close(getattr(u, nme), getattr(v, nme), what + "mesh of a still wing", atol=1e-10, rtol=1e-9)


warm = aero.warm_all
