"""C13: the loads obey the symmetries and scaling laws of the flow they model."""
import numpy as np

from mc import aero, gen, ref

PID = "C13"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of (configuration, flight state, solver, transformation) with both members of each pair executed"
NOTE = ("Relations between two executions of the real code, for every enumerated configuration, transformation and solver; no reference model is involved. "
        "Other configurations and transformations are not covered.")
RULE = ("Full product of configurations x transformations x four solver runs: mirror image, shift, turning airplane and wind together, scaling of lengths, speed and density, reordering of "
        "airplanes and wings, planes of fins, company too far away to matter, a section added where nothing changes, small control deflections; outcomes are distinct loads.")
BOUND = {"quick": "9 configurations, 17 transformations, 4 solver runs; 3 fins in 3 planes", "thorough": "16 configurations, 30 transformations, 4 solver runs in 3 flight states; 3 fins in 12 planes"}


def smooth():
    """Configurations whose meshes have no hairline gaps (control surfaces deflect in one piece)."""
    X, C = aero.X, aero.configs()
    full = lambda sym=True, at=(0.1, 0.0, 0.05), nc=2: gen.wing(
        [X(0, 0, 0, 1.5, ns=2, sp="uniform", twist=2.0, airfoil="naca2412", defl=4.0, hinge=0.7),
         X(0.2, 1.4, 0.1, 1.1, ns=3, twist=-1.0, airfoil="naca4409", defl=4.0, hinge=0.7), X(0.8, 3.1, 0.7, 0.5, twist=1.5, airfoil="naca0012")],
        sym=sym, nc=nc, sp="cosine", x=at[0], y=at[1], z=at[2])
    c = {}
    c["full"] = [aero.plane(full(), x=0.3)]
    c["half"] = [aero.plane(full(sym=False, at=(0.1, 0.2, 0.0)), x=0.3, y=0.1, z=-0.2)]
    c["wing, tail and fin"] = [aero.plane(full(), aero.tail(), aero.fin(), x=0.3, z=0.1)]
    c["three airplanes"] = C["three airplanes"]
    c["two airplanes"] = [aero.plane(aero.rect(twist=1.0)), aero.plane(full(at=(3.0, 4.5, -0.6)), x=3.2, y=4.5, z=-0.6, s_ref=2.0)]
    for n in ("one panel", "flat", "biplane", "dihedral plane", "twisted tip", "tail first", "fin only", "one row", "one column", "tilted chord"):
        c[n] = C[n]
    return c


def mir(v):
    return (v[0], -v[1], v[2])


def mirror_wing(w):
    w = dict(w, y=-w["y"])
    if w["sym"]:
        w["xs"] = [dict(s, defl=-s["defl"] if s["cs"] == "asymmetric" else s["defl"]) for s in w["xs"]]
        return w
    n = w["normal"]
    if n[1] == 0:  # a fin: the plane is its own mirror image, incidence and camber change sides
        w["xs"] = [dict(s, y=-s["y"], twist=-s["twist"]) for s in w["xs"]]
        return w
    # Sections run from left to right; panels and controls belong to the strip, not the section.
    old, new = w["xs"], []
    for i in range(len(old) - 1, -1, -1):
        s = dict(old[i], y=-old[i]["y"], normal=(old[i]["normal"][0], old[i]["normal"][1], -old[i]["normal"][2]))
        strip = old[i - 1] if i else old[-1]
        s.update({k: strip[k] for k in ("ns", "sp", "cs", "hinge", "defl")})
        new.append(s)
    # The leading edge of the wing is that of its first section.
    f = new[0]
    w.update(x=w["x"] + f["x"], y=w["y"] + f["y"], z=w["z"] + f["z"])
    w["xs"] = [dict(s, x=s["x"] - f["x"], y=s["y"] - f["y"], z=s["z"] - f["z"]) for s in new]
    return w


def rescale(a, k):
    def sx(s):
        return dict(s, x=s["x"] * k, y=s["y"] * k, z=s["z"] * k, chord=s["chord"] * k)
    r = dict(a, x=a["x"] * k, y=a["y"] * k, z=a["z"] * k,
             wings=[dict(w, x=w["x"] * k, y=w["y"] * k, z=w["z"] * k, xs=[sx(s) for s in w["xs"]]) for w in a["wings"]])
    for n, p in (("s_ref", 2), ("c_ref", 1), ("b_ref", 1)):
        if a[n] is not None:
            r[n] = a[n] * k ** p
    return r


def shift(a, d):
    return dict(a, x=a["x"] + d[0], y=a["y"] + d[1], z=a["z"] + d[2],
                wings=[dict(w, x=w["x"] + d[0], y=w["y"] + d[1], z=w["z"] + d[2]) for w in a["wings"]])


def split(w):
    """The same wing with an extra cross section half way along each uniform strip with an even number of panels."""
    out, did = [], False
    for a, b in zip(w["xs"], w["xs"][1:]):
        same = a["airfoil"] == b["airfoil"] and a["twist"] == b["twist"] and a["normal"] == b["normal"]
        if a["sp"] == "uniform" and a["ns"] % 2 == 0 and same:
            m = dict(a, ns=a["ns"] // 2)
            for n in ("x", "y", "z", "chord"):
                m[n] = (a[n] + b[n]) / 2
            out += [dict(a, ns=a["ns"] // 2), m]
            did = True
        else:
            out.append(a)
    return dict(w, xs=out + [w["xs"][-1]]), did


def turn(a, R):
    """The airplane turned bodily about the origin."""
    def at(d):
        return dict(zip("xyz", (float(v) for v in R @ np.array([d["x"], d["y"], d["z"]]))))

    def vec(v):
        return tuple(float(x) for x in R @ np.array(v, float))
    return dict(a, **at(a), wings=[dict(w, normal=vec(w["normal"]), chordvec=vec(w["chordvec"]), xs=[dict(s, normal=vec(s["normal"]), **at(s)) for s in w["xs"]], **at(w)) for w in a["wings"]])


TRANS = ["attitude (-10.0,0.0)", "attitude (33.0,-4.0)", "attitude (2.0,40.0)", "mirror", "shift (3,-7,2)", "shift (100,0,0)", "shift (0,-250,40)", "size 3", "size 0.02", "speed 4", "speed 0.1", "density 7", "density 0.01",
         "airplanes reversed", "wings reversed", "far company", "split sections", "shift (0.1,0.2,0.3)", "shift (-1e3,1e3,1e3)", "size 100", "size 0.5", "speed 30", "speed 0.7",
         "far company in front", "far company above", "rotate names", "mirror twice", "attitude (0.0,0.0)", "attitude (-75.0,20.0)", "attitude (5.0,-85.0)"]


def cases(tier):
    S = smooth()
    names = list(S) if tier != "quick" else ["full", "half", "wing, tail and fin", "three airplanes", "two airplanes", "one panel", "flat", "biplane", "dihedral plane"]
    nt = 17 if tier == "quick" else len(TRANS)
    ops = [gen.op(v=12.0, a=5.0, b=-4.0, rho=1.1)] + ([] if tier == "quick" else [gen.op(v=9.0, a=0.5, b=0.0), gen.op(v=30.0, a=-7.0, b=11.0)])
    out = []
    for n in names:
        for i, o in enumerate(ops):
            for kind in ("horseshoe", "ring", "unsteady", "unsteady free wake"):
                for t in TRANS[:nt]:
                    out.append(("%s %s %s%s" % (n, kind, t, " state %d" % i if i else ""), dict(aps=S[n], op=o, kind=kind, trans=t)))
    for kind in ("horseshoe", "ring"):
        for af, hinge in (("naca0012", 0.75), ("naca2412", 0.7)):
            for where in ("all", "inboard", "outboard"):
                for cs in ("symmetric", "asymmetric"):
                    out.append(("small deflection %s %s hinge=%g %s %s" % (kind, af, hinge, where, cs), dict(small=True, kind=kind, af=af, hinge=hinge, where=where, cs=cs)))
    for kind in ("horseshoe", "ring", "unsteady", "unsteady free wake"):
        for n in ("alone", "behind a wing", "below"):
            for ang in ([0, 45, 180] if tier == "quick" else [0, 10, 30, 45, 60, 89, 120, 150, 180, 225, 270, 330]):
                for i, o in enumerate(ops):
                    out.append(("plane of a fin %s %s %d degrees%s" % (kind, n, ang, " state %d" % i if i else ""), dict(kind=kind, fin=n, ang=ang, op=o)))
    return out


def solve(aps, o, kind, dt=0.04, still=False):
    """Totals of every airplane (all steps of an unsteady run): array (steps, airplanes, 4, 3)."""
    if kind in ("horseshoe", "ring"):
        prob = gen.steady_problem(aps, o)
        aero.run_quiet(aero.steady_solver(kind, prob))
        return aero.totals(prob.airplanes)[None]
    move = gen.still(aps) if still else aero.moving(aps, sec=dict(pa=2.0, pT=dt * 7, sa=3.0, sT=dt * 5))
    om = dict(gen.OM, va=0.2 * o["v"], vT=dt * 6)
    prob, s = aero.unsteady((aps, move, o, om, dict(gen.MV, steps=4, dt=dt)))
    aero.run_quiet(s, prescribed_wake="free" not in kind, calculate_streamlines=False)
    return np.array([aero.totals(sp.airplanes) for sp in prob.steady_problems])


def compare(ob, got, want, what, rtol=1e-8):
    ob.equal(got.shape, want.shape, what + ": shape")
    for j, n in enumerate(("forces", "moments", "force coefficients", "moment coefficients")):
        # Moments depend on an arm; a length scale of the largest moment or force serves both.
        scale = np.abs(want[:, :, j]).max() + np.abs(want[:, :, 2 * (j // 2)]).max()
        ob.close(got[:, :, j], want[:, :, j], "%s: %s" % (what, n), scale=scale, rtol=rtol, atol=0)


def run(p, ob):
    if "small" in p:
        return small(p, ob)
    if "fin" in p:
        return plane_of_fin(p, ob)
    aps, o, kind, t = p["aps"], p["op"], p["kind"], p["trans"]
    dt = 0.04
    base = solve(aps, o, kind, dt)
    ob.true(np.all(np.isfinite(base)), "finite loads")
    ob.sig(t, base)
    fac = np.ones((4, 3))
    if t.startswith("mirror"):
        m = [dict(a, y=-a["y"], wings=[mirror_wing(w) for w in a["wings"]]) for a in aps]
        # (A wing flaps about its first section, which is the other end of a mirrored half wing.)
        still = any(not w["sym"] for a in aps for w in a["wings"])
        if still:
            base = solve(aps, o, kind, dt, still)
        if t == "mirror twice":
            m = [dict(a, y=-a["y"], wings=[mirror_wing(w) for w in a["wings"]]) for a in m]
            got = solve(m, o, kind, dt, still)
        else:
            got = solve(m, dict(o, b=-o["b"]), kind, dt, still)
            fac[0::2, 1] = -1
            fac[1::2, 0] = fac[1::2, 2] = -1
        compare(ob, got, base * fac, "mirror image")
    elif t.startswith("attitude"):
        # The airplane and the wind turned together: nothing changes in wind axes. (Wings flap about fixed axes, so a still one is compared.)
        al, be = eval(t[9:])
        R = ref.wind_to_geometry(al, be) @ ref.wind_to_geometry(o["a"], o["b"]).T
        compare(ob, solve([turn(a, R) for a in aps], dict(o, a=al, b=be), kind, dt, True), solve(aps, o, kind, dt, True), "airplane and wind turned together", rtol=1e-7)
    elif t.startswith("shift"):
        d = eval(t[6:])
        compare(ob, solve([shift(a, d) for a in aps], o, kind, dt), base, "shifted", rtol=1e-7 if max(map(abs, d)) > 10 else 1e-8)
    elif t.startswith("size"):
        k = float(t[5:])
        fac[0], fac[1] = k ** 2, k ** 3
        got = solve([rescale(a, k) for a in aps], dict(o, nu=o["nu"] * k), kind, dt * k)
        compare(ob, got, base * fac, "scaled")
    elif t.startswith("speed"):
        k = float(t[6:])
        fac[0] = fac[1] = k ** 2
        compare(ob, solve(aps, dict(o, v=o["v"] * k, nu=o["nu"] * k), kind, dt / k), base * fac, "faster or slower")
    elif t.startswith("density"):
        k = float(t[8:])
        fac[0] = fac[1] = k
        compare(ob, solve(aps, dict(o, rho=o["rho"] * k), kind, dt), base * fac, "denser or thinner")
    elif t == "airplanes reversed":
        if len(aps) == 1:
            ob.trivial()
        compare(ob, solve(aps[::-1], o, kind, dt)[:, ::-1], base, "airplanes in another order")
    elif t == "wings reversed":
        built = [gen.build_airplane(a) for a in aps]
        rev = [dict(a, wings=a["wings"][::-1], s_ref=b.s_ref, c_ref=b.c_ref, b_ref=b.b_ref) for a, b in zip(aps, built)]
        if all(len(a["wings"]) == 1 for a in aps):
            ob.trivial()
        compare(ob, solve(rev, o, kind, dt), base, "wings in another order")
    elif t.startswith("far company"):
        d = {"far company": (0.0, 1e5, 0.0), "far company in front": (-1e5, 3e4, 0.0), "far company above": (1e3, 0.0, 1e5)}[t]
        other = shift(aero.plane(aero.rect(nc=1, ns=2, twist=5.0), name="far"), d)
        compare(ob, solve(aps + [other], o, kind, dt)[:, :-1], base, "with company far away", rtol=1e-6)
        alone = solve([other], o, kind, dt)
        compare(ob, solve([other] + aps, o, kind, dt)[:, :1], alone, "the far company itself", rtol=1e-6)
    elif t == "split sections":
        done = [[split(w) for w in a["wings"]] for a in aps]
        if not any(d for a in done for _, d in a):
            ob.trivial()
        # A moving wing flaps about its sections, so only a still one is the same wing.
        base = solve(aps, o, kind, dt, True)
        refs = [gen.build_airplane(a) for a in aps]
        new = [dict(a, wings=[w for w, _ in ws], s_ref=b.s_ref, c_ref=b.c_ref, b_ref=b.b_ref) for a, ws, b in zip(aps, done, refs)]
        compare(ob, solve(new, o, kind, dt, True), base, "with sections added where nothing changes")
    elif t == "rotate names":
        ren = [dict(a, name="Z%d" % i, weight=100.0, wings=[dict(w, name="Q") for w in a["wings"]]) for i, a in enumerate(aps)]
        compare(ob, solve(ren, o, kind, dt), base, "renamed")
    else:
        raise AssertionError(t)


def plane_of_fin(p, ob):
    """An uncambered, untwisted fin has the same panels, and so the same loads, whichever plane its sections are said to lie in."""
    def build(ang):
        n = (0.0, float(np.cos(np.radians(ang))), float(np.sin(np.radians(ang))))
        X = aero.X
        up = -1.0 if p["fin"] == "below" else 1.0
        fin = gen.wing([X(0, 0, 0, 0.9, ns=2, normal=n), X(0.3, 0, 0.7 * up, 0.7, ns=1, normal=n, airfoil="naca0006"), X(0.6, 0, 1.2 * up, 0.4, normal=n)], sym=False, nc=2,
                       normal=n, x=0.2, y=0.1, z=0.05, name="fin")
        if p["fin"] == "alone":
            return [aero.plane(fin, x=0.3, s_ref=0.8, c_ref=0.7, b_ref=1.2)]
        return [aero.plane(aero.rect(nc=2, ns=2, twist=2.0), dict(fin, x=3.0, z=0.4 * up), x=0.3)]
    base = solve(build(90), p["op"], p["kind"])
    ob.true(np.all(np.isfinite(base)), "finite loads")
    ob.sig(base, p["ang"])
    compare(ob, solve(build(p["ang"]), p["op"], p["kind"]), base, "a fin with its sections' planes turned to %d degrees" % p["ang"])


def small(p, ob):
    """A hundredth of a degree of control deflection changes the loads a little."""
    def w(d):
        X = aero.X
        di = d if p["where"] in ("all", "inboard") else 0.0
        do = d if p["where"] in ("all", "outboard") else 0.0
        kw = dict(airfoil=p["af"], hinge=p["hinge"], cs=p["cs"], ns=3)
        return [aero.plane(gen.wing([X(0, 0, 0, 1, defl=di, **kw), X(0, 2, 0, 1, defl=do, **kw), X(0, 4, 0, 1, **kw)], sym=True, nc=4))]
    o = gen.op(a=5.0)
    a, b = solve(w(0.0), o, p["kind"]), solve(w(0.01), o, p["kind"])
    ob.sig(b)
    ob.close(b[0, 0, 2:], a[0, 0, 2:], "load coefficients after 0.01 degrees of control deflection", rtol=0, atol=2e-3)


warm = aero.warm_all
