"""C01: the mesh of a wing tiles the surface its cross sections define."""
import numpy as np

from mc import gen, ref

PID = "C01"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of wing definitions against an independent mesh model"
NOTE = ("Every wing within the stated deviation bound is meshed by the real code and compared vertex by vertex with an "
        "independent model; wings outside the enumerated values are not covered. Airfoil outlines are taken from the library (C05).")
RULE = ("All wings that depart from a plain and from a fully featured base wing in at most k of the listed parameters, plus full "
        "products of panel counts, spacings, symmetry and number of sections, plus sequences of wings built of the same section objects; non-trivial: the mesh was compared; outcomes are distinct meshes.")
BOUND = {"quick": "k = 2 from both base wings; k = 1 in 8 other frames; panel-count products up to 3 sections; 128 bent wings; wings of up to 17 sections and 130 panels; 250 wings with outlines of their own",
         "thorough": "k = 3 from the full base wing, k = 2 from the plain one; k = 2 in 8 other frames; panel-count products up to 4 sections; 128 bent wings; wings of up to 17 sections and 130 panels; 250 wings with outlines of their own"}
C30, S30 = float(np.cos(np.pi / 6)), float(np.sin(np.pi / 6))

SPACE = dict(
    nc=[1, 2, 3, 5, 11], csp=["cosine", "uniform"], sym=[False, True], le=[(0.0, 0.0, 0.0), (0.7, 0.4, -0.3), (-3.0, -6.0, 2.0)],
    chordvec=[(1.0, 0.0, 0.0), (C30, 0.0, S30)],
    ns0=[1, 2, 3, 9], ns1=[1, 2, 4], ss0=["cosine", "uniform"], ss1=["cosine", "uniform"],
    chord0=[1.0, 1.6, 0.04], chord1=[1.0, 0.8, 12.0], chord2=[1.0, 0.35, 2.2],
    tw0=[0.0, 3.0, -50.0], tw1=[0.0, -4.0, 95.0], tw2=[0.0, 7.5, -7.5],
    le1=[(0.0, 1.0, 0.0), (0.3, 1.1, 0.15), (-0.4, 0.9, -0.2)], le2=[(0.0, 2.0, 0.0), (0.9, 2.4, 0.7), (-0.6, 1.7, -0.3)], side=[1.0, -1.0],
    d0=[0.0, 6.0, -15.0, 55.0], d1=[0.0, 9.0, -3.0], h0=[0.75, 0.4, 0.08], h1=[0.75, 0.85, 0.5],
    cs0=["symmetric", "asymmetric"], cs1=["symmetric", "asymmetric"],
    af0=["naca0012", "naca2412"], af1=["naca0012", "naca4409"], af2=["naca0012", "naca6315"],
    n2=["y", "dihedral"], plane=["y", "z"],
)
PLAIN = {k: v[0] for k, v in SPACE.items()}
PLAIN.update(nc=2, ns0=2)
FULL = dict(PLAIN, nc=3, csp="cosine", sym=True, le=SPACE["le"][1], ns0=2, ns1=4, ss0="uniform", chord0=1.6, chord1=0.8,
            chord2=0.35, tw0=3.0, tw1=-4.0, tw2=7.5, le1=SPACE["le1"][1], le2=SPACE["le2"][1], d0=6.0, d1=9.0, h0=0.4, h1=0.85,
            cs0="asymmetric", af0="naca2412", af1="naca4409", af2="naca6315", n2="dihedral")


def swap(v):  # the same wing standing on its side: y -> z, z -> -y
    return (v[0], -v[2], v[1])


def spec(p):
    n = (0.0, 1.0, 0.0)
    n2 = n if p["n2"] == "y" else (0.0, C30, S30)
    f = (lambda v: v) if p["plane"] == "y" else swap
    cv = p["chordvec"]
    l1, l2 = (f((v[0], v[1] * p["side"], v[2])) for v in (p["le1"], p["le2"]))
    X = gen.xsec
    xs = [X(airfoil=p["af0"], chord=p["chord0"], twist=p["tw0"], ns=p["ns0"], sp=p["ss0"], defl=p["d0"], hinge=p["h0"], cs=p["cs0"], normal=f(n)),
          X(airfoil=p["af1"], x=l1[0], y=l1[1], z=l1[2], chord=p["chord1"], twist=p["tw1"], ns=p["ns1"], sp=p["ss1"], defl=p["d1"], hinge=p["h1"], cs=p["cs1"], normal=f(n)),
          X(airfoil=p["af2"], x=l2[0], y=l2[1], z=l2[2], chord=p["chord2"], twist=p["tw2"], ns=3, defl=-12.0, hinge=0.6, normal=f(n2))]
    le = p["le"]
    return gen.wing(xs, x=le[0], y=le[1], z=le[2], normal=f(n), chordvec=f(cv), sym=p["sym"], nc=p["nc"], sp=p["csp"])


def turned(w, angles):
    """The same wing in another frame."""
    R = ref.rotation((0.0, 0.0, 1.0), angles[0]) @ ref.rotation((0.0, 1.0, 0.0), angles[1]) @ ref.rotation((1.0, 0.0, 0.0), angles[2])
    at = lambda d: dict(zip("xyz", (float(v) for v in R @ np.array([d["x"], d["y"], d["z"]]))))
    vec = lambda v: tuple(float(x) for x in R @ np.array(v, float))
    return dict(w, normal=vec(w["normal"]), chordvec=vec(w["chordvec"]), xs=[dict(s, normal=vec(s["normal"]), **at(s)) for s in w["xs"]], **at(w))


FRAMES = [(7.0, 0.0, 0.0), (0.0, 21.0, 0.0), (0.0, 0.0, 33.0), (50.0, 14.0, 77.0), (123.0, -63.0, 11.0), (180.0, 0.0, 0.0), (90.0, 0.0, 90.0), (-17.0, 88.0, 140.0)]


def bent():
    """Wings whose sections are swept, raised or lowered so far that the tip need not be the section farthest from the root."""
    for i, l1 in enumerate([(0.0, 1.0, 0.0), (3.0, 1.0, 0.0), (-2.5, 0.8, 0.4), (0.2, 1.0, 4.0)]):
        for j, l2 in enumerate([(0.0, 2.0, 0.0), (0.1, 1.2, 0.1), (3.0, 1.1, -0.5), (0.2, 2.0, -3.0)]):
            for sym in (False, True):
                for side in (1.0, -1.0):
                    for pl in ("y", "z"):
                        yield "bent %d,%d sym=%s side=%g plane=%s" % (i, j, sym, side, pl), spec(dict(
                            PLAIN, le1=l1, le2=l2, sym=sym, side=side, plane=pl, chord1=0.8, chord2=0.35, ns1=2))


def legal(p):
    # A cross section's plane may only be tilted about the chordwise direction.
    return p["n2"] == "y" or p["chordvec"] == (1.0, 0.0, 0.0)


def many(counts, nc, csp, sp, sym):
    xs = [gen.xsec(airfoil="naca2412", ns=counts[0], sp=sp, chord=1.2, twist=2.0)]
    for i, c in enumerate(list(counts[1:]) + [7]):
        xs.append(gen.xsec(airfoil=["naca0012", "naca4409"][i % 2], x=0.1 * (i + 1) ** 1.5, y=0.9 * (i + 1), z=0.05 * (i + 1) ** 2, chord=1.1 - 0.2 * i if len(counts) < 5 else 1.1 - 0.05 * i,
                           ns=c, sp=sp if i % 2 else ("uniform" if sp == "cosine" else "cosine"), twist=1.0 - i, defl=3.0 * i,
                           cs=["asymmetric", "symmetric"][i % 2]))
    return gen.wing(xs, sym=sym, nc=nc, sp=csp, x=0.2, z=0.1)


def cases(tier):
    out = []
    k = 2 if tier == "quick" else 3
    for key, p in gen.named("plain", gen.deviations(SPACE, PLAIN, 2)):
        if legal(p):
            out.append((key, spec(p)))
    for key, p in gen.named("full", gen.deviations(SPACE, FULL, k)):
        if legal(p):
            out.append((key, spec(p)))
    for f in FRAMES:
        for name, base in (("plain", PLAIN), ("full", FULL)):
            for key, p in gen.deviations(SPACE, base, 1 if tier == "quick" else 2):
                if legal(p):
                    out.append(("frame %g,%g,%g %s:%s" % (f + (name, key)), turned(spec(p), f)))
    import itertools
    for secs in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for counts in itertools.product((1, 2, 3) if secs < 4 else (1, 2), repeat=secs):
            for nc in (1, 2, 4) if tier == "quick" else (1, 2, 3, 4, 6):
                for csp in ("cosine", "uniform"):
                    for sp in ("cosine", "uniform"):
                        for sym in (False, True):
                            out.append(("counts:%s nc=%d %s %s %s" % (counts, nc, csp, sp, sym), many(counts, nc, csp, sp, sym)))
    # Many sections, and many panels.
    for counts, nc in (((1,) * 9, 1), ((2, 1, 3, 1, 2, 1, 1), 3), ((1, 2) * 8, 2), ((40, 1), 2), ((2, 70), 1), ((1,), 40), ((1, 1), 130), ((17,), 17)):
        for csp in ("cosine", "uniform"):
            for sp in ("cosine", "uniform"):
                for sym in (False, True):
                    out.append(("many:%s nc=%d %s %s %s" % (counts, nc, csp, sp, sym), many(counts, nc, csp, sp, sym)))
    out += list(shared()) + list(bent()) + list(outlines())
    return out


def outline(at, height):
    """An outline given by points: thin, cambered by a roof whose ridge is at the given place."""
    x = np.linspace(0.0, 1.0, 51)
    y = height * np.where(x <= at, x / at, (1 - x) / (1 - at))
    t = 0.01 * np.sin(np.pi * x)
    return dict(coordinates=[[float(a), float(b)] for a, b in list(zip(x[::-1], (y + t)[::-1])) + list(zip(x[1:], (y - t)[1:]))])


def outlines():
    """Wings whose sections all have outlines of their own under one and the same name."""
    import itertools
    kinds = [outline(0.2, 0.05), outline(0.8, 0.05), outline(0.5, 0.05), outline(0.2, -0.05), outline(0.5, 0.02)]
    for name, base in (("plain", PLAIN), ("full", FULL)):
        for seq in itertools.product(range(len(kinds)), repeat=3):
            w = spec(base)
            yield "own outlines %s %s" % (name, seq), dict(w, xs=[dict(x, airfoil=kinds[i]) for x, i in zip(w["xs"], seq)])


def shared():
    """Sequences of wings built from the same section objects: each must be meshed as if the sections were its own."""
    import itertools
    tilted = (np.cos(0.25), 0.0, -np.sin(0.25))
    kinds = [dict(), dict(chordvec=tilted), dict(sym=True, nc=3, x=0.4, y=0.2), dict(chordvec=(np.cos(0.4), 0.0, np.sin(0.4)), sp="uniform", sym=True)]
    for name, base in (("plain", PLAIN), ("full", FULL)):
        w = spec(dict(base, n2="y"))
        for seq in itertools.product(range(len(kinds)), repeat=3):
            yield "shared sections %s %s" % (name, seq), dict(seq=[dict(w, **kinds[i]) for i in seq])


def run(w, ob):
    if "seq" in w:
        import pterasoftware as ps
        sections = [gen.build_xsec(s) for s in w["seq"][0]["xs"]]
        for k, one in enumerate(w["seq"]):
            check(one, ps.geometry.Wing(
                wing_cross_sections=list(sections), name=one["name"], x_le=one["x"], y_le=one["y"], z_le=one["z"], unit_normal_vector=gen.vec(one["normal"]),
                symmetric=one["sym"], unit_chordwise_vector=gen.vec(one["chordvec"]), num_chordwise_panels=one["nc"], chordwise_spacing=one["sp"]), ob)
    else:
        check(w, gen.build_wing(w), ob)


def check(w, wg, ob):
    want = ref.wing_panels(w, lambda a: gen.airfoil(a).coordinates)
    nc, n = w["nc"], sum(x["ns"] for x in w["xs"][:-1]) * (2 if w["sym"] else 1)
    ob.equal(wg.panels.shape, (nc, n), "shape of the panel grid")
    ob.equal((wg.num_spanwise_panels, wg.num_panels), (n, nc * n), "panel counts")
    got = ref.panel_arrays(wg)
    for name, g, v in zip(("front left", "front right", "back left", "back right"), got, want):
        ob.close(g, v, name + " vertices", rtol=1e-9, atol=1e-11)
    fl, fr, bl, br = got
    # Neighbours share edges, and no panel is skipped or repeated.
    # (A control surface may open a gap where two sections meet, so those columns are left to the comparison above.)
    counts = [x["ns"] for x in w["xs"][:-1]]
    counts = (counts[::-1] if w["sym"] else []) + counts
    inner = [j for j in range(n - 1) if j + 1 not in np.cumsum(counts)]
    right = [j + 1 for j in inner]
    ob.close(fr[:, inner], fl[:, right], "spanwise neighbours' front vertices", rtol=1e-9)
    ob.close(br[:, inner], bl[:, right], "spanwise neighbours' back vertices", rtol=1e-9)
    ob.close(bl[:-1], fl[1:], "chordwise neighbours' left vertices", rtol=1e-9)
    ob.close(br[:-1], fr[1:], "chordwise neighbours' right vertices", rtol=1e-9)
    ob.equal(len({id(q) for q in wg.panels.ravel()}), nc * n, "number of distinct panel objects")
    for i in range(nc):
        for j in range(n):
            q = wg.panels[i, j]
            ob.equal((bool(q.is_leading_edge), bool(q.is_trailing_edge), bool(q.is_left_edge), bool(q.is_right_edge),
                      q.local_chordwise_position, q.local_spanwise_position),
                     (i == 0, i == nc - 1, j == 0, j == n - 1, i, j), "flags of panel (%d, %d)" % (i, j))
    ob.sig(want)
