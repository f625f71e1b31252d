"""C12: loads are attributed to the right airplane and made dimensionless with that airplane's references."""
import itertools

import numpy as np

from mc import aero, gen, ref

PID = "C12"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of reference points, reference dimensions and airplane orders for all three solvers"
NOTE = ("Moment transfer, summation and non-dimensionalisation are checked on every enumerated combination for all three solvers; the panel forces "
        "themselves are taken as reported (C10, C11 and C23 decide those).")
RULE = ("Full product of formations x moment reference points x overridden reference dimensions x solvers, each compared with the same formation at its "
        "base references; outcomes are distinct loads.")
BOUND = {"quick": "4 formations, 5 reference points, 5 override sets, 4 solver runs", "thorough": "8 formations, 9 reference points, 9 override sets, 4 solver runs"}

REFS = [(0.0, 0.0, 0.0), (0.25, 0.0, 0.0), (-1.0, 2.0, 0.5), (0.0, 0.0, 3.0), (10.0, -4.0, 0.7), (0.0, 1.0, 0.0), (-0.25, -1.0, -1.0), (100.0, 0.0, 0.0), (0.0, 0.0, -2.0)]
OVERS = [{}, dict(s_ref=3.3), dict(c_ref=0.7), dict(c_ref=30.0, b_ref=0.1), dict(s_ref=2.0, c_ref=1.5, b_ref=4.0), dict(s_ref=0.01), dict(b_ref=9.0), dict(s_ref=5, b_ref=6), dict(s_ref=5, c_ref=6)]
NAMES = ["full", "three airplanes", "two airplanes", "wing, tail and fin", "full half", "tail first", "biplane", "one panel"]


def cases(tier):
    nf, nr, no = (4, 5, 5) if tier == "quick" else (8, 9, 9)
    o = gen.op(v=14.0, a=6.0, b=-4.0, rho=1.1)
    return [("%s %s ref=%s over=%s" % (n, kind, r, gen.short(ov)), dict(name=n, kind=kind, ref=r, over=ov, op=o))
            for n in NAMES[:nf] for kind in ("horseshoe", "ring", "unsteady", "unsteady free wake") for r in REFS[:nr] for ov in OVERS[:no]]


def solve(aps, p):
    o = p["op"]
    if p["kind"] in ("horseshoe", "ring"):
        prob = gen.steady_problem(aps, o)
        aero.run_quiet(aero.steady_solver(p["kind"], prob))
        return [(prob.airplanes, o)], prob
    prob, s = aero.unsteady((aps, gen.still(aps), o, dict(gen.OM, va=3.0, vT=0.2), dict(gen.MV, steps=3, dt=0.05)))
    aero.run_quiet(s, prescribed_wake="free" not in p["kind"], calculate_streamlines=False)
    return [(sp.airplanes, aero.op_dict(sp.operating_point)) for sp in prob.steady_problems], prob


def run(p, ob):
    base = aero.configs()[p["name"]]
    # The last airplane gets the reference, the others keep theirs: nothing may leak between airplanes.
    aps = [dict(a) for a in base]
    aps[-1] = dict(aps[-1], x=p["ref"][0], y=p["ref"][1], z=p["ref"][2], **p["over"])
    new, prob = solve(aps, p)
    old, _ = solve(base, p)
    sig = []
    for k, ((na, o), (oa, _)) in enumerate(zip(new, old)):
        mesh = aero.Mesh(na)
        aero.check_panels(ob, mesh, o, "step %d: " % k)
        aero.check_totals(ob, na, mesh, o, "step %d: " % k)
        R = ref.wind_to_geometry(o["a"], o["b"])
        for i, (a, b) in enumerate(zip(na, oa)):
            fs = np.abs(b.total_near_field_force_wind_axes).max()
            ob.close(a.total_near_field_force_wind_axes, b.total_near_field_force_wind_axes, "forces do not depend on the references", scale=fs, rtol=1e-9)
            d = np.asarray(b.xyz_ref, float) - np.asarray(a.xyz_ref, float)
            want = R @ b.total_near_field_moment_wind_axes + np.cross(d, R @ b.total_near_field_force_wind_axes)
            ob.close(R @ a.total_near_field_moment_wind_axes, want, "moment about the new reference point", rtol=1e-9,
                     scale=np.abs(want).max() + fs * (1 + np.abs(d).max()))
            if i == len(na) - 1:
                ob.close(a.xyz_ref, p["ref"], "reference point")
                for n, v in p["over"].items():
                    ob.close(getattr(a, n), v, n)
            else:
                ob.equal((a.s_ref, a.c_ref, a.b_ref), (b.s_ref, b.c_ref, b.b_ref), "references of the other airplanes")
            q = 0.5 * o["rho"] * o["v"] ** 2
            f, m = a.total_near_field_force_wind_axes, a.total_near_field_moment_wind_axes
            ob.close(a.total_near_field_force_coefficients_wind_axes, np.array([-f[0], f[1], -f[2]]) / q / a.s_ref, "force coefficients", rtol=1e-12)
            ob.close(a.total_near_field_moment_coefficients_wind_axes, m / q / a.s_ref / np.array([a.b_ref, a.c_ref, a.b_ref]), "moment coefficients", rtol=1e-12)
        sig.append(aero.totals(na))
    ob.sig(sig)


warm = aero.warm_all
