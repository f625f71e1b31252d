"""C32: malformed requests are refused, well-formed ones accepted."""
import copy
import itertools
import logging

import numpy as np

from mc import aero, gen, ref

PID = "C32"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of combinations of valid and invalid arguments against the documented restrictions"
NOTE = ("Every combination of the enumerated valid and invalid values is tried on the real constructors and analyses; a combination must be accepted exactly if it breaks no documented "
        "restriction. Other kinds of malformed input (wrong types, NaN) are not covered, nor are restrictions that are only documented as logged.")
RULE = ("Full products of valid and invalid values for sections, wings (in several frames), airplanes, airfoils, movements of every kind, logging levels of every solver and solver names of "
        "the convergence analysis; outcomes are distinct (request, verdict) pairs.")
BOUND = {"quick": "wings: 4 section counts x 3 spacings x 7 root offsets x 6 plane errors x 9 frames; movements: every spacing of 13 quantities", "thorough": "as quick with 4 plane angles, 40 frames and pairs of movement faults"}


def frames(tier):
    out = [(0.0, 0.0, 0.0), (0.0, 0.0, 35.0), (0.0, 12.0, 0.0), (0.0, 0.0, 90.0), (30.0, 0.0, 0.0), (7.0, 21.0, 0.0), (50.0, 14.0, 77.0), (123.0, 63.0, 11.0), (180.0, 0.0, 0.0)]
    if tier != "quick":
        out += [(float(a), float(b), float(c)) for a in (0, 33, 111) for b in (5, 41) for c in (0, 17, 58, 89, 140)] + [(1.0, 0.1, 0.01)]
    return out


def cases(tier):
    q = tier == "quick"
    out = []
    for chord in (1.0, 1e-6, 0.0, -1.0):
        for cs in ("symmetric", "asymmetric", "Symmetric", "none", None):
            for sp in ("cosine", "uniform", "linear", "", None):
                out.append(("section chord=%g cs=%s spacing=%s" % (chord, cs, sp), dict(what="section", chord=chord, cs=cs, sp=sp)))
    for f in frames(tier):
        for sym in (False, True):
            out.append(("wing frame=%g,%g,%g%s" % (f + (" symmetric" if sym else "",)), dict(what="wing", frame=f, sym=sym, angles=(15.0,) if q else (5.0, 15.0, -40.0, 75.0))))
    for n in range(4):
        out.append(("airplane with %d wings" % n, dict(what="airplane", n=n)))
    for name in ("", "naca", "naca99", "naca12345678", "naca00x2", "nosuchfoil", "naca 0012", "0012", "naca0012.dat"):
        out.append(("airfoil %r" % name, dict(what="airfoil", name=name)))
    for d in (-180.0, -90.0001, -90.0, -5.0, 0.0, 90.0, 90.0001, 1e9):
        out.append(("deflection %g" % d, dict(what="deflection", d=d)))
    Q = quantities()
    SP = ("sine", "uniform", "custom", "Sine", "cosine", None)
    for i, (n, part, key, custom) in enumerate(Q):
        for sp in SP:
            for fn in ((None, "mix") if custom else (None,)):
                for amp in (0.0, 0.2):
                    out.append(("movement %s spacing=%s%s%s" % (n, sp, " with a function" if fn else "", "" if amp else ", still"), dict(what="movement", faults=[(i, sp, fn)], amp=amp)))
    if not q:
        for i, j in itertools.combinations(range(len(Q)), 2):
            for a, b in itertools.product(("sine", "uniform", "bad"), repeat=2):
                out.append(("movement %s=%s %s=%s" % (Q[i][0], a, Q[j][0], b), dict(what="movement", faults=[(i, a, None), (j, b, None)], amp=0.1)))
    for sa, sT, ha, hT in itertools.product((0.0, 3.0), (0.0, 0.4), (0.0, 2.0), (0.0, 0.4)):
        for pa in (0.0, 4.0):
            out.append(("root sweep=%g,%g heave=%g,%g pitch=%g" % (sa, sT, ha, hT, pa), dict(what="root", m=dict(sa=sa, sT=sT, ha=ha, hT=hT, pa=pa, pT=0.4 if pa else 0.0))))
    for kind in ("function", "horseshoe", "ring", "unsteady"):
        for lev in ("Debug", "Info", "Warning", "Error", "Critical", "debug", "DEBUG", "", "Fatal", 10, None, "Warn", "E", "INFO", "Debug ", " Info", "Warnings", "Notset", 30.0, True):
            out.append(("logging %s %r" % (kind, lev), dict(what="logging", kind=kind, level=lev)))
    for s in ("steady horseshoe vortex lattice method", "steady ring vortex lattice method", "unsteady ring vortex lattice method", "ring", "", None, "Steady ring vortex lattice method"):
        out.append(("convergence solver %r" % (s,), dict(what="convergence", solver=s)))
    return out


def quantities():
    """(name, object, key of its spacing in the movement specs, whether custom spacing exists)"""
    out = [("section " + n, "sec", k, True) for n, k in (("sweep", "ss"), ("pitch", "psp"), ("heave", "hs"))]
    out += [("wing " + a, "wing", a, False) for a in "xyz"] + [("airplane " + a, "airplane", a, False) for a in "xyz"] + [("velocity", "op", "v", False)]
    return out


def verdict(ob, what, bad, fn):
    """`bad` says why the request must be refused, or is None."""
    ob.checks += 1
    try:
        fn()
    except Exception as e:
        if bad is None:
            ob.fail("%s: refused although it breaks no restriction (%s: %s)" % (what, type(e).__name__, str(e)[:100]))
        return False
    if bad is not None:
        ob.fail("%s: accepted although %s" % (what, bad))
    return True


def run_wing(p, ob):
    import pterasoftware as ps
    a, b, c = p["frame"]
    R = ref.rotation((0.0, 0.0, 1.0), a) @ ref.rotation((0.0, 1.0, 0.0), b) @ ref.rotation((1.0, 0.0, 0.0), c)
    chordvec, normal, up = R[:, 0].copy(), R[:, 1].copy(), R[:, 2].copy()
    af = gen.airfoil("naca0012", n=20)
    n = 0
    # 0: all parallel; 1: the last plane turned about the chord; the rest are errors.
    for angle in p["angles"]:
        turned = ref.rotation(chordvec, angle) @ normal
        planes = {"parallel": (None, normal, turned * 0 + normal, chordvec),
                  "turned about the chord": (None, normal, turned, chordvec),
                  "turned about up": ("a section's plane meets the symmetry plane elsewhere", normal, ref.rotation(up, 3.0) @ normal, chordvec),
                  "turned askew": ("a section's plane meets the symmetry plane elsewhere", normal, ref.rotation(up, 0.1) @ turned, chordvec),
                  "chord out of the plane": ("the chordwise direction is not in the symmetry plane", normal, normal, ref.rotation(up, 0.1) @ chordvec),
                  "root turned": ("the root section is not in the symmetry plane", turned, normal, chordvec)}
        for (pl, (why, n0, n1, cv)) in planes.items():
            for count in (0, 1, 2, 3):
                for sp in ("cosine", "uniform", "sine"):
                    for off in [(0.0, 0.0, 0.0)] + [tuple(s * (i == j) for j in range(3)) for i in range(3) for s in (0.2, -1e-3)]:
                        bad = None
                        if count < 2:
                            bad = "it has %d sections" % count
                        elif sp == "sine":
                            bad = "its chordwise spacing is unknown"
                        elif any(off):
                            bad = "its root section is offset"
                        elif why:
                            bad = why
                        if off[2] and count == 3 and sp == "uniform":
                            continue
                        secs = []
                        for i in range(count):
                            pos = R @ np.array([0.1 * i, 1.2 * i, 0.1 * i * i]) + (np.array(off) if i == 0 else 0.0)
                            if i == 0 and not any(off):
                                pos = np.zeros(3)
                            secs.append(ps.geometry.WingCrossSection(airfoil=af, x_le=pos[0], y_le=pos[1], z_le=pos[2], chord=1.0 - 0.1 * i, num_spanwise_panels=1,
                                                                     unit_normal_vector=(n0 if i == 0 else n1 if i == count - 1 else normal).copy(), spanwise_spacing="uniform"))
                        before = [{k: copy.deepcopy(v) for k, v in s.__dict__.items() if k != "airfoil"} for s in secs]
                        made = []
                        what = "wing of %d sections, %s, %s spacing, root offset %s, turned by %g" % (count, pl, sp, off, angle)
                        ok = verdict(ob, what, bad, lambda: made.append(ps.geometry.Wing(
                            wing_cross_sections=secs, unit_normal_vector=normal.copy(), unit_chordwise_vector=cv.copy(), symmetric=p["sym"], num_chordwise_panels=1, chordwise_spacing=sp)))
                        if ok:
                            ob.equal(made[0].panels.shape, (1, (count - 1) * (2 if p["sym"] else 1)), what + ": mesh")
                        else:
                            for s, old in zip(secs, before):
                                ob.true(all(np.array_equal(s.__dict__[k], v) if v is not None else s.__dict__[k] is None for k, v in old.items()), what + ": the refused wing's sections were changed")
                        n += 1
    ob.note("wings", n)
    ob.sig("wing", p["frame"], p["sym"], n)


def base_movement(p):
    aps = [aero.plane(aero.rect(sym=True, nc=1, ns=1))]
    return aps, gen.still(aps)


def run(p, ob):
    import pterasoftware as ps
    w = p["what"]
    if w == "wing":
        return run_wing(p, ob)
    if w == "section":
        bad = None
        if p["chord"] <= 0:
            bad = "its chord is not positive"
        elif p["cs"] not in ("symmetric", "asymmetric"):
            bad = "its control surface type is unknown"
        elif p["sp"] not in ("cosine", "uniform"):
            bad = "its spacing is unknown"
        ok = verdict(ob, "the section", bad, lambda: ps.geometry.WingCrossSection(airfoil=gen.airfoil("naca0012", n=20), chord=p["chord"], control_surface_type=p["cs"], spanwise_spacing=p["sp"]))
        return ob.sig(w, p["chord"], p["cs"], p["sp"], ok)
    if w == "airplane":
        wings = [gen.build_wing(aero.rect(sym=False, nc=1, ns=1, at=(2.0 * i, 0, 0))) for i in range(p["n"])]
        ok = verdict(ob, "the airplane", None if wings else "it has no wings", lambda: ps.geometry.Airplane(wings=wings))
        return ob.sig(w, p["n"], ok)
    if w == "airfoil":
        ok = verdict(ob, "the airfoil", "there is no such airfoil", lambda: ps.geometry.Airfoil(name=p["name"]))
        return ob.sig(w, p["name"], ok)
    if w == "deflection":
        a = gen.airfoil("naca2412", n=20)
        ok = verdict(ob, "the deflection", "it exceeds 90 degrees" if abs(p["d"]) > 90 else None, lambda: a.add_control_surface(deflection=p["d"], hinge_point=0.7))
        return ob.sig(w, p["d"], ok)
    if w == "movement":
        aps, ams = base_movement(p)
        om = dict(gen.OM)
        bad = None
        pairs = []
        for i, sp, fn in p["faults"]:
            n, part, key, custom = quantities()[i]
            pairs.append((n, part, key, sp, fn))
            if sp == "custom" and custom:
                if fn is None:
                    bad = bad or "%s has no custom function" % n
            elif sp not in ("sine", "uniform"):
                bad = bad or "the spacing of %s is unknown" % n
        kw = {"sec": {}, "wing": {}, "airplane": {}, "op": {}}
        for n, part, key, sp, fn in pairs:
            if part == "sec":
                long = {"ss": "sweeping", "psp": "pitching", "hs": "heaving"}[key]
                short = {"ss": "sweep", "psp": "pitch", "hs": "heave"}[key]
                kw["sec"].update({long + "_spacing": sp, "custom_%s_function" % short: (lambda t: np.sin(t)) if fn else None, long + "_amplitude": 10 * p["amp"], long + "_period": 0.3 if p["amp"] else 0.0})
            elif part == "op":
                kw["op"].update(velocity_spacing=sp, velocity_amplitude=p["amp"], velocity_period=0.3 if p["amp"] else 0.0)
            else:
                f = key + ("_le" if part == "wing" else "_ref")
                kw[part].update({f + "_spacing": sp, f + "_amplitude": p["amp"], f + "_period": 0.3 if p["amp"] else 0.0})

        def build():
            M = ps.movement
            a = gen.build_airplane(aps[0])
            secs = [M.WingCrossSectionMovement(base_wing_cross_section=x, **(kw["sec"] if i else {})) for i, x in enumerate(a.wings[0].wing_cross_sections)]
            wm = M.WingMovement(base_wing=a.wings[0], wing_cross_sections_movements=secs, **kw["wing"])
            am = M.AirplaneMovement(base_airplane=a, wing_movements=[wm], **kw["airplane"])
            opm = M.OperatingPointMovement(base_operating_point=gen.build_op(gen.op()), **kw["op"])
            m = M.Movement(airplane_movements=[am], operating_point_movement=opm, num_steps=3, delta_time=0.05)
            ps.problems.UnsteadyProblem(m)
        ok = verdict(ob, "the movement", bad, build)
        return ob.sig(w, p["faults"], p["amp"], ok)
    if w == "root":
        m = p["m"]
        aps, _ = base_movement(p)
        bad = "its first section sweeps or heaves" if m["sa"] or m["sT"] or m["ha"] or m["hT"] else None
        ams = aero.moving(aps, root=m)
        ok = verdict(ob, "the movement", bad, lambda: gen.build_movement(aps, ams, gen.op(), gen.OM, dict(gen.MV, steps=3, dt=0.05)))
        return ob.sig(w, sorted(m.items()), ok)
    if w == "logging":
        values = {"Debug": 10, "Info": 20, "Warning": 30, "Error": 40, "Critical": 50}
        bad = None if p["level"] in values else "there is no such level"
        root = logging.getLogger()
        keep = root.level, logging.root.manager.disable
        try:
            if p["kind"] == "function":
                got = []
                ok = verdict(ob, "the level", bad, lambda: got.append(ps.functions.convert_logging_level_name_to_value(p["level"])))
                if ok:
                    ob.equal(got[0], values[p["level"]], "the level's value")
            else:
                aps = [aero.plane(aero.rect(sym=False, nc=1, ns=1))]
                if p["kind"] == "unsteady":
                    s = aero.unsteady((aps, gen.still(aps), gen.op(), gen.OM, dict(gen.MV, steps=2, dt=0.05)))[1]
                else:
                    s = aero.steady_solver(p["kind"], gen.steady_problem(aps, gen.op()))
                ok = verdict(ob, "the run", bad, lambda: s.run(logging_level=p["level"]))
                if not ok:
                    a = (s.steady_problems[0] if p["kind"] == "unsteady" else s).airplanes[0]
                    ob.true(a.total_near_field_force_wind_axes is None, "the refused run left results")
        finally:
            root.setLevel(keep[0])
        return ob.sig(w, p["kind"], p["level"], ok)
    if w == "convergence":
        bad = None if p["solver"] in ("steady horseshoe vortex lattice method", "steady ring vortex lattice method") else "there is no such solver"
        prob = gen.steady_problem([aero.plane(aero.rect(sym=False, nc=1, ns=1))], gen.op())
        ok = verdict(ob, "the analysis", bad, lambda: ps.convergence.analyze_steady_convergence(
            ref_problem=prob, solver_type=p["solver"], panel_aspect_ratio_bounds=(2, 1), num_chordwise_panels_bounds=(1, 2), convergence_criteria=50.0))
        return ob.sig(w, p["solver"], ok)
    raise AssertionError(w)


warm = aero.warm_all
