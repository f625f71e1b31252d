"""Airplanes and flight states for the solver checks, and the reference flow they are judged with."""
import itertools

import numpy as np

from mc import gen, ref

C30, S30 = float(np.cos(np.pi / 6)), 0.5


def X(x, y, z, chord, **kw):
    return gen.xsec(x=float(x), y=float(y), z=float(z), chord=float(chord), **kw)


def rect(sym=True, nc=2, ns=2, span=2.5, at=(0, 0, 0), twist=0.0, af="naca0012", csp="uniform", sp="uniform", chord=1.0):
    return gen.wing([X(0, 0, 0, chord, ns=ns, sp=sp, twist=twist, airfoil=af), X(0, span, 0, chord, ns=ns, sp=sp, twist=twist, airfoil=af)], sym=sym, nc=nc, sp=csp,
                    x=float(at[0]), y=float(at[1]), z=float(at[2]))


def full(sym=True, nc=3, n0=2, n1=3, at=(0.1, 0.0, 0.05), asym=True):
    return gen.wing([X(0, 0, 0, 1.5, ns=n0, sp="uniform", twist=2.0, airfoil="naca2412", defl=4.0, hinge=0.7, cs="asymmetric" if asym else "symmetric"),
                     X(0.2, 1.4, 0.1, 1.1, ns=n1, sp="cosine", twist=-1.0, airfoil="naca4409", defl=-6.0, hinge=0.6),
                     X(0.8, 3.1, 0.7, 0.5, twist=1.5, airfoil="naca0012")], sym=sym, nc=nc, sp="cosine",
                    x=float(at[0]), y=float(at[1]), z=float(at[2]))


def tail(at=(4.0, 0.0, 0.3), nc=1, ns=2):
    return gen.wing([X(0, 0, 0, 0.7, ns=ns, airfoil="naca0012", twist=-1.0), X(0.2, 0.9, 0.05, 0.5, airfoil="naca0006")], sym=True, nc=nc, sp="uniform",
                    x=at[0], y=at[1], z=at[2], name="tail")


def fin(at=(4.1, 0.0, 0.4), nc=2, ns=2, yaw=3.0):
    n = (0.0, 0.0, 1.0)
    return gen.wing([X(0, 0, 0, 0.8, ns=ns, normal=n, twist=yaw), X(0.4, 0, 1.0, 0.4, normal=n, twist=yaw, airfoil="naca0006")], sym=False, nc=nc, sp="uniform",
                    normal=n, x=at[0], y=at[1], z=at[2], name="fin")


def upright(at=(4.1, 0.2, 0.3), nc=2, ns=2):
    """A vertical wing described with the default sideways normal, so that its span along the normal is zero."""
    return gen.wing([X(0, 0, 0, 0.8, ns=ns), X(0.4, 0, 1.0, 0.5, airfoil="naca0006")], sym=False, nc=nc, sp="uniform", x=at[0], y=at[1], z=at[2], name="upright")


def plane(*wings, **kw):
    return gen.airplane(list(wings), **kw)


def configs():
    """name -> list of airplane specs; small meshes with every structural feature."""
    c = {}
    c["one panel"] = [plane(rect(sym=False, nc=1, ns=1))]
    c["one column"] = [plane(rect(sym=False, nc=3, ns=1, twist=1.0, af="naca2412"))]
    c["one row"] = [plane(rect(sym=True, nc=1, ns=3, twist=3.0))]
    c["flat"] = [plane(rect())]
    c["half"] = [plane(rect(sym=False, nc=2, ns=3, at=(0, 0.3, 0)))]
    c["full"] = [plane(full())]
    c["full half"] = [plane(full(sym=False), x=0.4, y=0.2, z=-0.1)]
    c["fine"] = [plane(full(nc=5, n0=4, n1=5))]
    c["wing and tail"] = [plane(rect(nc=2, ns=2, twist=2.0), tail(), x=0.25)]
    c["wing, tail and fin"] = [plane(full(nc=2, n0=1, n1=2), tail(), fin(), x=0.3, z=0.1, name="T")]
    c["fin only"] = [plane(fin(at=(0.0, 0.0, 0.0)))]
    c["tail first"] = [plane(tail(), rect(nc=2, ns=2, twist=2.0), s_ref=4.0, c_ref=0.9, b_ref=5.5)]
    c["biplane"] = [plane(rect(nc=2, ns=2), rect(nc=2, ns=2, at=(0.2, 0, 0.9), twist=-1.0), x=0.5, z=0.5)]
    c["two airplanes"] = [plane(rect(nc=2, ns=2, twist=1.0), name="L"), plane(full(nc=2, n0=1, n1=1, at=(3.0, 4.5, -0.6)), name="R", x=3.2, y=4.5, z=-0.6, s_ref=2.0)]
    c["three airplanes"] = [plane(rect(nc=1, ns=2, twist=2.0)), plane(rect(nc=2, ns=1, at=(2.5, 3.0, 0.4)), x=2.5, y=3.0, z=0.4, c_ref=1.7),
                            plane(rect(sym=False, nc=1, ns=1, at=(3.0, -3.5, 0.2)), tail(at=(5.0, -3.5, 0.0)), x=3.1, y=-3.3, b_ref=0.8)]
    c["tilted chord"] = [plane(gen.wing([X(0, 0, 0, 1.2, ns=2), X(0.1, 1.5, 0.3, 0.8)], sym=True, nc=2, chordvec=(C30, 0.0, S30)))]
    c["dihedral plane"] = [plane(gen.wing([X(0, 0, 0, 1.0, ns=2, airfoil="naca2412"), X(0.3, 1.8, 0.9, 0.6, normal=(0.0, C30, S30), twist=4.0)], sym=True, nc=2))]
    c["twisted tip"] = [plane(gen.wing([X(0, 0, 0, 1.0, ns=3, twist=-8.0), X(0.0, 2.0, 0.0, 1.0, twist=12.0)], sym=True, nc=2))]
    c["four airplanes"] = [plane(rect(sym=False, nc=1 + i % 2, ns=1 + i // 2, at=(1.3 * i, 3.4 * i, 0.3 * (-1) ** i), twist=i - 1.0, chord=1.0 - 0.15 * i), x=1.3 * i, y=3.4 * i, name="N%d" % i)
                           for i in range(4)]
    c["four wings"] = [plane(rect(nc=1, ns=2, twist=1.0), tail(), fin(nc=1, ns=1), rect(sym=False, nc=2, ns=1, at=(-2.0, 0.4, -0.3), span=1.2, chord=0.6), x=0.1)]
    c["large"] = [plane(full(nc=7, n0=8, n1=8), tail(nc=4, ns=5), x=0.4)]
    c["left half"] = [plane(gen.wing([X(0, 0, 0, 0.6, ns=2, airfoil="naca2412"), X(-0.3, 1.2, -0.2, 1.4, twist=-2.0)], sym=False, nc=2, y=-4.0))]
    c["upright"] = [plane(rect(nc=2, ns=2, twist=2.0), upright(), x=0.3)]
    c["upright only"] = [plane(upright(at=(0.0, 0.0, 0.0), nc=3, ns=3), s_ref=0.6, c_ref=0.65, b_ref=1.0)]
    c["insect"] = [plane(gen.wing([X(0, 0, 0, 0.004, ns=2, twist=3.0), X(0.001, 0.012, 0.0005, 0.0025, airfoil="naca2412")], sym=True, nc=2, x=0.001), x=0.0015)]
    c["giant"] = [plane(gen.wing([X(0, 0, 0, 40.0, ns=2, twist=2.0), X(30.0, 120.0, 8.0, 15.0)], sym=True, nc=2, x=3.0), tail(at=(90.0, 0.0, 6.0)), x=20.0)]
    c["large and small"] = [plane(rect(nc=1, ns=1, chord=10.0, span=80.0, sym=False, twist=1.0)), plane(rect(nc=2, ns=1, chord=0.01, span=0.08, sym=False, at=(300.0, 0.0, 0.0), twist=2.0), x=300.0, name="N1")]
    c["far away"] = [plane(rect(nc=2, ns=2, at=(900.0, -400.0, 250.0), twist=2.0), x=900.5, y=-399.0, z=250.25)]
    return c


OPS = [gen.op(v=10.0, a=5.0, b=0.0), gen.op(v=10.0, a=0.0, b=0.0), gen.op(v=10.0, a=0.0, b=5.0), gen.op(v=32.5, a=-4.0, b=7.5, rho=0.9),
       gen.op(v=0.7, a=12.0, b=-9.0, rho=998.0), gen.op(v=120.0, a=25.0, b=30.0, rho=0.4, thrust=3.0), gen.op(v=10.0, a=-20.0, b=-45.0), gen.op(v=4.0, a=95.0, b=10.0), gen.op(v=25.0, a=170.0, b=-100.0), gen.op(v=9.0, a=-172.0, b=4.0), gen.op(v=14.0, a=-85.0, b=-30.0, rho=2.0)]


def cell(v):
    return {"v": "%g" % v["v"], "a": "%g" % v["a"]}


def opkey(o):
    return "v=%g a=%g b=%g rho=%g" % (o["v"], o["a"], o["b"], o["rho"])


def wide(tier):
    """(key, dict(aps, op)) for the steady checks: every configuration in every flight state, then every wing near the full one."""
    from mc.props import c01
    out = []
    ops = list(OPS)
    if tier != "quick":
        ops += [gen.op(v=v, a=a, b=b, rho=r) for v in (3.0, 60.0) for a in (-10.0, 2.0, 15.0) for b in (-12.0, 0.0, 4.0) for r in (1.225, 0.3)]
    for n, aps in configs().items():
        for o in ops[:3] if n == "large" else ops:
            out.append(("%s, %s" % (n, opkey(o)), dict(aps=aps, op=o)))
    base = dict(c01.FULL, ns0=1, ns1=2, nc=2)
    for k, p in gen.pairs(c01.SPACE, base) if tier == "quick" else gen.deviations(c01.SPACE, base, 2):
        if c01.legal(p):
            w = c01.spec(p)
            out.append(("wing " + k, dict(aps=[plane(w, x=0.2, y=-0.1, z=0.3)], op=gen.op(v=13.0, a=4.0, b=3.0))))
    return out


# ------------------------------------------------------------------ reading the library's objects
def panels_of(airplanes):
    return [p for a in airplanes for w in a.wings for p in np.ravel(w.panels)]


class Mesh:
    """All panels of some meshed airplanes, as arrays, with the vortex geometry the method prescribes."""

    def __init__(self, airplanes):
        self.panels, self.wing, self.ap, self.row, self.col = [], [], [], [], []
        self.front, self.right, self.left, self.te = [], [], [], []
        self.ref, self.far = [], []
        n = 0
        corners = [[], [], [], []]
        nxt = []
        wi = 0
        for ai, a in enumerate(airplanes):
            for w in a.wings:
                nc, ns = w.panels.shape
                les = [np.array([x.x_le, x.y_le, x.z_le], float) for x in w.wing_cross_sections]
                leg = 20 * (2 if w.symmetric else 1) * sum(np.linalg.norm(q - p) for p, q in zip(les[:-1], les[1:]))
                for i in range(nc):
                    for j in range(ns):
                        p = w.panels[i, j]
                        k = n + i * ns + j
                        self.panels.append(p)
                        self.wing.append(wi)
                        self.ap.append(ai)
                        self.row.append(i)
                        self.col.append(j)
                        self.front.append(k - ns if i else -1)
                        self.left.append(k - 1 if j else -1)
                        self.right.append(k + 1 if j < ns - 1 else -1)
                        self.te.append(i == nc - 1)
                        nxt.append(k + ns if i < nc - 1 else -1)
                        self.ref.append(np.asarray(a.xyz_ref, float))
                        self.far.append(leg)
                        for c, name in zip(corners, ("front_left_vertex", "front_right_vertex", "back_left_vertex", "back_right_vertex")):
                            c.append(np.asarray(getattr(p, name), float))
                n += nc * ns
                wi += 1
        for name in ("wing", "ap", "row", "col", "front", "left", "right", "te", "ref", "far"):
            setattr(self, name, np.array(getattr(self, name)))
        self.n = n
        self.next = np.array(nxt)
        self.q = ref.Quad(*[np.array(c) for c in corners])

    def rings(self, te_shift):
        """Ring corners: the back legs lie on the quarter chord line of the next panel, or behind the trailing edge."""
        q = self.q
        fl, fr = q.cfl, q.cfr
        bl, br = fl[self.next].copy(), fr[self.next].copy()
        te = self.te
        bl[te] = fl[te] + (q.bl - q.fl)[te] + te_shift
        br[te] = fr[te] + (q.br - q.fr)[te] + te_shift
        return fl, fr, bl, br

    def effective(self, g):
        """Net strengths of the right, front and left legs. The two panels beside a chordwise leg take half of its force each."""
        gz = np.append(g, 0.0)
        share = lambda k: np.where(k < 0, 1.0, 0.5)
        return (g - gz[self.right]) * share(self.right), g - gz[self.front], (g - gz[self.left]) * share(self.left)


def beside_gap(points, corners):
    """Points so close to a filament that rounding decides the velocity there (but not on it): deflected
    control surfaces part the mesh by as little as rounding errors ahead of their hinges."""
    fl, fr, bl, br = corners
    out = np.zeros(len(points), bool)
    longest = max(np.sqrt(((b - a) ** 2).sum(-1)).max() for a, b in ((br, fr), (fr, fl), (fl, bl)))
    for a, b in ((br, fr), (fr, fl), (fl, bl), (bl, br)):
        r1, r2 = points[:, None] - a[None], points[:, None] - b[None]
        c2 = (np.cross(r1, r2) ** 2).sum(-1)
        d = (r1 ** 2).sum(-1) * (r2 ** 2).sum(-1)
        # (Short filaments far away are seen at small angles as well, but harmlessly so.)
        out |= ((c2 > 1e-22 * d) & (c2 < 1e-11 * d) & (c2 < (1e-5 * longest) ** 2 * ((b - a) ** 2).sum(-1)[None])).any(1)
    return out


def read(panels, name):
    return np.array([getattr(p, name) for p in panels], dtype=float)


def check_totals(ob, airplanes, mesh, o, what=""):
    """Every airplane's totals are the sums over its own panels, in wind axes, with its own reference dimensions."""
    F, M = read(mesh.panels, "near_field_force_geometry_axes"), read(mesh.panels, "near_field_moment_geometry_axes")
    for i, a in enumerate(airplanes):
        me = mesh.ap == i
        sF = np.abs(F[me]).sum() + 1e-300
        sM = np.abs(M[me]).sum() + 1e-300
        q = 0.5 * o["rho"] * o["v"] ** 2
        f, m, cf, cm = ref.loads(F[me].sum(0), M[me].sum(0), o, a.s_ref, a.c_ref, a.b_ref)
        ob.close(a.total_near_field_force_wind_axes, f, what + "total force of airplane %d" % i, scale=sF, atol=0)
        ob.close(a.total_near_field_moment_wind_axes, m, what + "total moment of airplane %d" % i, scale=sM, atol=0)
        ob.close(a.total_near_field_force_coefficients_wind_axes, cf, what + "force coefficients of airplane %d" % i, scale=sF / q / a.s_ref, atol=0)
        ob.close(a.total_near_field_moment_coefficients_wind_axes, cm, what + "moment coefficients of airplane %d" % i, scale=sM / q / a.s_ref / min(a.b_ref, a.c_ref), atol=0)


def check_panels(ob, mesh, o, what=""):
    R = ref.wind_to_geometry(o["a"], o["b"]).T
    q = 0.5 * o["rho"] * o["v"] ** 2
    F, M = read(mesh.panels, "near_field_force_geometry_axes"), read(mesh.panels, "near_field_moment_geometry_axes")
    fs, ms = np.abs(F).max() + 1e-300, np.abs(M).max() + 1e-300
    W = F @ R.T
    ob.close(read(mesh.panels, "near_field_force_wind_axes"), W, what + "panel forces in wind axes", scale=fs, atol=0)
    ob.close(read(mesh.panels, "near_field_moment_wind_axes"), M @ R.T, what + "panel moments in wind axes", scale=ms, atol=0)
    s = fs / q / mesh.q.area.min()
    for name, v in (("induced_drag_coefficient", -W[:, 0]), ("side_force_coefficient", W[:, 1]), ("lift_coefficient", -W[:, 2])):
        ob.close(read(mesh.panels, name), v / mesh.q.area / q, what + "panel " + name, scale=s, atol=0)


def sample_points(mesh):
    """Points in the flow: off the surface, upstream, in the wake, far away."""
    q = mesh.q
    pts = [q.colloc[k] + h * q.normal[k] for k in range(0, mesh.n, max(1, mesh.n // 4)) for h in (0.3, -0.7)]
    lo, hi = q.fl.min(0), q.br.max(0)
    pts += [lo - [1.0, 0.2, 0.3], hi + [2.0, 0.4, 0.7], (lo + hi) / 2 + [6.0, 0.13, 0.21], hi + [100.0, -50.0, 30.0]]
    return np.array(pts)


def run_quiet(solver, **kw):
    solver.run(logging_level="Critical", **kw)
    return solver


# ------------------------------------------------------------------ movements
XMF = dict(sa=0.0, sT=0.0, ss="sine", pa=0.0, pT=0.0, psp="sine", ha=0.0, hT=0.0, hs="sine")


def moving(airplanes, sec=None, root=None, wing=None, ap=None):
    """Movement specs: every section but the first follows `sec` (the first follows `root`), every wing `wing`, every airplane `ap`."""
    out = []
    for a in airplanes:
        wms = []
        for w in a["wings"]:
            secs = [dict(gen.XM, **((root or {}) if i == 0 else (sec or {}))) for i in range(len(w["xs"]))]
            wms.append(dict(gen.WM, secs=secs, **(wing or {})))
        out.append(dict(gen.AM, wings=wms, **(ap or {})))
    return out


FLAP = dict(sa=12.0, sT=0.4)
PITCH = dict(pa=6.0, pT=0.4, psp="uniform")
HEAVE = dict(ha=4.0, hT=0.4)
ALL = dict(sa=12.0, sT=0.4, pa=6.0, pT=0.2, psp="uniform", ha=3.0, hT=0.4)


def scenes():
    """name -> (airplanes, movements, op, op movement, Movement arguments); every motion kind, small meshes, few steps."""
    c = configs()
    s = {}
    o = gen.op(v=10.0, a=4.0, b=0.0)
    ob = gen.op(v=8.0, a=3.0, b=6.0, rho=1.1)
    n = dict(gen.MV, steps=5, dt=0.05)
    s["still flat"] = (c["flat"], gen.still(c["flat"]), o, gen.OM, n)
    s["still one panel"] = (c["one panel"], gen.still(c["one panel"]), o, gen.OM, dict(n, steps=6))
    s["still, default time step"] = (c["half"], gen.still(c["half"]), ob, gen.OM, dict(gen.MV, chords=3))
    s["still full"] = (c["full"], gen.still(c["full"]), ob, gen.OM, n)
    s["flapping"] = (c["flat"], moving(c["flat"], sec=FLAP), o, gen.OM, n)
    s["pitching"] = (c["full half"], moving(c["full half"], sec=PITCH, root=dict(pa=3.0, pT=0.4)), ob, gen.OM, n)
    s["heaving"] = (c["half"], moving(c["half"], sec=HEAVE), o, gen.OM, n)
    s["everything moves"] = (c["wing and tail"], moving(c["wing and tail"], sec=ALL, wing=dict(xa=0.1, xT=0.4, ya=0.05, yT=0.2, za=0.2, zT=0.4), ap=dict(xa=0.05, xT=0.4, za=0.1, zT=0.2)),
                             ob, dict(gen.OM, va=2.0, vT=0.4), dict(gen.MV, steps=9, dt=0.05))
    s["speed varies"] = (c["one row"], gen.still(c["one row"]), o, dict(gen.OM, va=4.0, vT=0.25, vs="uniform"), dict(n, steps=7, dt=0.04))
    s["three airplanes"] = (c["three airplanes"], moving(c["three airplanes"], sec=FLAP, ap=dict(za=0.2, zT=0.3)), ob, gen.OM, dict(n, steps=4))
    s["two airplanes"] = (c["two airplanes"], moving(c["two airplanes"], sec=dict(PITCH, pT=0.3)), o, gen.OM, dict(n, steps=4))
    s["tail and fin"] = (c["wing, tail and fin"], gen.still(c["wing, tail and fin"]), ob, gen.OM, dict(n, steps=4))
    s["one step"] = (c["flat"], gen.still(c["flat"]), o, gen.OM, dict(n, steps=1))
    s["two steps"] = (c["one column"], moving(c["one column"], sec=FLAP), o, gen.OM, dict(n, steps=2))
    s["cycles"] = (c["half"], moving(c["half"], sec=dict(FLAP, sT=0.3)), o, gen.OM, dict(gen.MV, cycles=2, dt=0.05))
    s["custom waves"] = (c["half"], moving(c["half"], sec=dict(sa=10.0, sT=0.3, ss="custom", sf="mix", ha=5.0, hT=0.2, hs="custom", hf="cos")), o, gen.OM, dict(n, steps=6))
    s["long wake"] = (c["one panel"], moving(c["one panel"], sec=FLAP), ob, gen.OM, dict(n, steps=26, dt=0.03))
    s["very long wake"] = (c["one panel"], moving(c["one panel"], root=dict(pa=4.0, pT=0.8), sec=dict(pa=4.0, pT=0.8)), o, gen.OM, dict(n, steps=130, dt=0.03))
    s["old wake"] = (c["one column"], moving(c["one column"], sec=dict(sa=10.0, sT=3.5)), gen.op(v=0.6, a=5.0, b=2.0), gen.OM, dict(n, steps=14, dt=0.4))
    s["insect"] = (c["insect"], moving(c["insect"], sec=dict(sa=35.0, sT=0.006, pa=20.0, pT=0.006)), gen.op(v=2.5, a=10.0), gen.OM, dict(n, steps=6, dt=0.0005))
    s["giant"] = (c["giant"], moving(c["giant"], sec=dict(sa=2.0, sT=3.0)), gen.op(v=180.0, a=3.0, b=1.0), gen.OM, dict(n, steps=4, dt=0.1))
    s["large and small"] = (c["large and small"], gen.still(c["large and small"]), o, gen.OM, dict(n, steps=3, dt=0.01))
    s["tiny time step"] = (c["one column"], moving(c["one column"], sec=dict(sa=8.0, sT=0.3, pa=3.0, pT=0.4)), o, gen.OM, dict(n, steps=4, dt=5e-6))
    s["hovering"] = (c["one panel"], moving(c["one panel"], sec=dict(sa=60.0, sT=0.4)), gen.op(v=0.5, a=2.0), gen.OM, n)
    s["far away"] = (c["far away"], moving(c["far away"], sec=FLAP, ap=dict(za=0.3, zT=0.3)), ob, gen.OM, dict(n, steps=4))
    s["four airplanes"] = (c["four airplanes"], moving(c["four airplanes"], sec=dict(PITCH, sa=4.0, sT=0.2)), o, gen.OM, dict(n, steps=3))
    s["four wings"] = (c["four wings"], moving(c["four wings"], sec=dict(PITCH), wing=dict(za=0.1, zT=0.3)), ob, gen.OM, dict(n, steps=3))
    return s


def unsteady(scene, only_final=False):
    import pterasoftware as ps
    aps, ams, o, om, mv = scene
    m = gen.build_movement(aps, ams, o, om, mv)
    prob = ps.problems.UnsteadyProblem(movement=m, only_final_results=only_final)
    return prob, ps.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver(prob)


def op_dict(o):
    return dict(rho=o.density, v=o.velocity, a=o.alpha, b=o.beta, thrust=o.external_thrust, nu=o.nu)


FINAL = ["final%s_near_field_%s_wind_axes" % (k, n) for k in ("", "_mean", "_rms") for n in ("forces", "force_coefficients", "moments", "moment_coefficients")]


def finals(prob):
    return {n: np.array(getattr(prob, n), float) for n in FINAL}


TOTALS = ("total_near_field_force_wind_axes", "total_near_field_moment_wind_axes", "total_near_field_force_coefficients_wind_axes", "total_near_field_moment_coefficients_wind_axes")


def totals(airplanes):
    return np.array([[getattr(a, n) for n in TOTALS] for a in airplanes], float)


def steady_solver(kind, prob):
    import pterasoftware as ps
    if kind == "horseshoe":
        return ps.steady_horseshoe_vortex_lattice_method.SteadyHorseshoeVortexLatticeMethodSolver(prob)
    return ps.steady_ring_vortex_lattice_method.SteadyRingVortexLatticeMethodSolver(prob)


def warm_all():
    """Compile every kernel once, before the workers fork."""
    c = configs()
    for k in ("horseshoe", "ring"):
        run_quiet(steady_solver(k, gen.steady_problem(c["flat"], gen.op())))
    sc = scenes()
    for pw in (True, False):
        run_quiet(unsteady(sc["two steps"])[1], prescribed_wake=pw, calculate_streamlines=True)


# ------------------------------------------------------------------ judging unsteady runs
class Step:
    """What one time step left behind, read from public attributes."""

    def __init__(self, prob, solver, k):
        sp = prob.steady_problems[k]
        self.k = k
        self.airplanes = sp.airplanes
        self.o = op_dict(sp.operating_point)
        self.V = ref.freestream(self.o)
        self.dt = prob.delta_time
        self.mesh = Mesh(sp.airplanes)
        self.g = read([p.ring_vortex for p in self.mesh.panels], "strength")
        self.corners = self.mesh.rings(0.25 * self.V * self.dt)
        s = solver
        self.w_g = np.array(s.wake_ring_vortex_strengths_list[k], float)
        self.w_age = np.array(s.wake_ring_vortex_ages_list[k], float)
        self.w = [np.array(getattr(s, "wake_ring_vortex_%s_vertices_list" % n)[k], float) for n in ("front_left", "front_right", "back_left", "back_right")]

    def flow(self, pts):
        """Freestream, bound rings without cores and wake rings with cores that have grown since they were shed."""
        v = self.V + ref.ring_velocity(pts, *self.corners, self.g).sum(1)
        if len(self.w_g):
            v = v + ref.ring_velocity(pts, *self.w, self.w_g, self.w_age, self.o["nu"]).sum(1)
        return v

    def by_wing(self):
        """The wake of every wing as arrays (rows, columns, ...), newest row first."""
        out, at = [], 0
        for a in self.airplanes:
            for w in a.wings:
                ns = w.panels.shape[1]
                n = self.k * ns
                cut = slice(at, at + n)
                out.append(dict(wing=w, ns=ns, g=self.w_g[cut].reshape(self.k, ns), age=self.w_age[cut].reshape(self.k, ns),
                                v=[c[cut].reshape(self.k, ns, 3) for c in self.w]))
                at += n
        self.n_wake = at
        return out

    def te(self):
        """Per wing: trailing edge ring strengths (ns,) and back vertices (ns + 1, 3)."""
        out = []
        m = self.mesh
        for wi in range(int(m.wing.max()) + 1):
            k = np.where((m.wing == wi) & m.te)[0]
            out.append((self.g[k], self.corners[2][k], self.corners[3][k]))
        return out


def near_wake(step, pts):
    """Points where rounding decides the velocity because a wake or bound filament passes within a hair."""
    out = beside_gap(pts, step.corners)
    if len(step.w_g):
        out |= beside_gap(pts, step.w)
    return out


def unsteady_cases(tier):
    """(key, dict(scene, free)) for the unsteady checks."""
    out = []
    S = scenes()
    for n, sc in S.items():
        for free in (False, True):
            out.append(("%s, %s wake" % (n, "free" if free else "prescribed"), dict(scene=sc, free=free)))
    # Every kind of motion alone and in pairs, on a wing with every feature.
    base = dict(sa=0.0, pa=0.0, ha=0.0, wx=0.0, wy=0.0, wz=0.0, ax=0.0, ay=0.0, az=0.0, va=0.0, b=0.0, a=4.0, dt=0.04, nu=15.06e-6, sp="sine", steps=4, cfg="full half")
    space = dict(sa=[0.0, 9.0], pa=[0.0, -5.0], ha=[0.0, 4.0], wx=[0.0, 0.2], wy=[0.0, 0.1], wz=[0.0, 0.3], ax=[0.0, -0.1], ay=[0.0, 0.2], az=[0.0, 0.15],
                 va=[0.0, 3.0], b=[0.0, 7.0], a=[4.0, 0.0, -6.0], dt=[0.04, 0.004, 0.3], nu=[15.06e-6, 0.0, 0.5], sp=["sine", "uniform"], steps=[4, 1, 7],
                 cfg=["full half", "three airplanes", "wing, tail and fin", "half", "one panel", "one column", "upright", "biplane", "full", "left half", "tilted chord", "dihedral plane", "tail first"])
    base = dict(base, sa=9.0, va=3.0, b=7.0)
    for key, p in gen.pairs(space, base) if tier == "quick" else gen.deviations(space, base, 2):
        for free in ((False, True) if (tier != "quick" or len(key) < 14) else (True,)):
            out.append(("motion %s %s" % (key, "free" if free else "prescribed"), dict(scene=scene_of(p), free=free)))
    return out


def scene_of(p):
    aps = configs()[p["cfg"]]
    T = 0.25
    sec = dict(sa=p["sa"], sT=T if p["sa"] else 0.0, ss=p["sp"], pa=p["pa"], pT=T if p["pa"] else 0.0, psp=p["sp"], ha=p["ha"], hT=T if p["ha"] else 0.0, hs=p["sp"])
    per = lambda v: T if v else 0.0
    wing = dict(xa=p["wx"], xT=per(p["wx"]), ya=p["wy"], yT=per(p["wy"]), za=p["wz"], zT=per(p["wz"]), xs_=p["sp"])
    ap = dict(xa=p["ax"], xT=per(p["ax"]), ya=p["ay"], yT=per(p["ay"]), za=p["az"], zT=per(p["az"]), zs_=p["sp"])
    return (aps, moving(aps, sec=sec, wing=wing, ap=ap), gen.op(v=11.0, a=p["a"], b=p["b"], nu=p["nu"]),
            dict(gen.OM, va=p["va"], vT=per(p["va"]), vs=p["sp"]), dict(gen.MV, steps=p["steps"], dt=p["dt"]))
