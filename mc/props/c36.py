"""C36: the solvers reproduce the classical solutions in the limits where those hold."""
import cmath

import numpy as np

from mc import aero, gen

PID = "C36"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of slender-wing configurations and oscillations, each judged by lifting-line, thin-airfoil, Jones, Theodorsen, Greenberg, Garrick and Wagner theory"
NOTE = ("The theories share nothing with the code: they judge the sign, phase and size of whole loads where they apply (slender wings, small angles, reduced frequencies up to 0.5). "
        "The tolerances, 3 to 30 %, are the panel method's own discretisation error on the meshes used, so this says nothing about small errors; C11, C21 and C23 decide those.")
RULE = ("All slender wings within k deviations of an untwisted rectangular wing, with both steady solvers; all oscillations of a slender wing within k deviations of a base case. An outcome is the "
        "set of coefficients or amplitudes.")
BOUND = {"quick": "wings: k = 2 over 15 parameters, 2 solvers; oscillations: k = 1 over 6 parameters", "thorough": "wings: k = 3; oscillations: k = 2"}
CHUNK = 6

WINGS = dict(ar=[8, 16, 30], taper=[0.6, 1.0], af=["naca0012", "naca2412", "naca4412"], alpha=[-4.0, 0.0, 2.0, 5.0], wash=[0.0, -3.0, 2.0], roll=[0.0, 2.0, -3.0], flap=[0.0, 5.0, -4.0],
             dihedral=[0.0, 6.0, -5.0], beta=[0.0, 5.0, -4.0], size=[1.0, 0.05, 12.0],
             nc=[10, 1, 4], ns=[12, 24], sp=["uniform", "cosine"], v=[10.0, 0.4, 150.0], rho=[1.225, 998.0])
WING0 = dict(ar=16, taper=1.0, af="naca0012", alpha=5.0, wash=0.0, roll=0.0, flap=0.0, dihedral=0.0, beta=0.0, size=1.0, nc=10, ns=12, sp="uniform", v=10.0, rho=1.225)
WAVES = dict(kind=["plunge", "pitch", "speed"], k=[0.1, 0.2, 0.35, 0.5], alpha=[0.0, 3.0], free=[False, True], size=[1.0, 0.02], v=[10.0, 40.0])
WAVE0 = dict(kind="plunge", k=0.2, alpha=3.0, free=False, size=1.0, v=10.0)
FOILS = {"naca0012": (0.0, 0.4), "naca2412": (0.02, 0.4), "naca4412": (0.04, 0.4)}
HINGE = 0.75


def cases(tier):
    q = tier == "quick"
    out = []
    for solver in ("horseshoe", "ring"):
        out += [("%s wing: %s" % (solver, n), dict(p, what="wing", solver=solver)) for n, p in gen.deviations(WINGS, WING0, 2 if q else 3)]
        for ar in (0.25, 0.5):
            for alpha in (2.0, -3.0, 6.0):
                for size in (1.0, 0.05):
                    for nc, ns in ((10, 6), (16, 9)):
                        out.append(("%s triangle: aspect ratio %g, alpha %g, size %g, %d x %d panels" % (solver, ar, alpha, size, nc, ns),
                                    dict(what="slender", solver=solver, ar=ar, alpha=alpha, size=size, nc=nc, ns=ns)))
    for base in (["plunge", "pitch", "speed"] if q else ["plunge"]):
        out += [("%s: %s" % (p["kind"], n), dict(p, what="wave")) for n, p in gen.deviations({a: b for a, b in WAVES.items() if not q or a != "kind"}, dict(WAVE0, kind=base), 1 if q else 2)]
    for ar in (30, 100):
        for size in (1.0, 0.05):
            out.append(("impulsive start, aspect ratio %d, size %g" % (ar, size), dict(what="start", ar=ar, size=size)))
    return out


# ------------------------------------------------------------------ theory
def thin(camber, flap):
    """Zero-lift angle and quarter-chord moment coefficient of a thin section."""
    m, p = camber
    th = (np.arange(4000) + 0.5) * np.pi / 4000
    x = (1 - np.cos(th)) / 2
    s = np.where(x < p, 2 * m / p ** 2 * (p - x), 2 * m / (1 - p) ** 2 * (p - x)) - np.where(x > HINGE, np.tan(np.radians(flap)), 0)
    return -np.mean(s * (np.cos(th) - 1)), np.pi / 4 * (2 * np.mean(s * np.cos(2 * th)) - 2 * np.mean(s * np.cos(th)))


def lifting_line(b, chord, angle, n=80):
    """Prandtl's equation: coefficients of the circulation's sine series in theta, y = -b/2 cos(theta)."""
    th = (np.arange(n) + 0.5) * np.pi / n
    y = -b / 2 * np.cos(th)
    k = np.arange(1, n + 1)
    s = np.sin(np.outer(th, k))
    return np.linalg.solve(4 * b / (2 * np.pi * chord(y))[:, None] * s + k * s / np.sin(th)[:, None], angle(y))


def theodorsen(k):
    """Theodorsen's C(k)."""
    from scipy.special import hankel2
    return complex(hankel2(1, k) / (hankel2(1, k) + 1j * hankel2(0, k)))


# ------------------------------------------------------------------ wings
def run(p, ob):
    dict(wing=wing, slender=pointed, wave=wave, start=start)[p["what"]](p, ob)


def sizes(p):
    z = p["size"]
    ct = p["taper"] * z
    b = p["ar"] * (z + ct) / 2
    return z, ct, b, b * (z + ct) / 2


def solve(p, dihedral):
    """The airplane, solved: one wing in two halves, with a straight quarter-chord line through its reference point."""
    z, ct, b, s = sizes(p)
    x, y, h = (z - ct) / 4, b / 2 * np.cos(np.radians(dihedral)), b / 2 * np.sin(np.radians(dihedral))
    foil = dict(airfoil=p["af"], ns=p["ns"], sp="cosine", defl=p["flap"], hinge=HINGE)
    # Positions of sections are relative to the first one's, at the left tip.
    xs = [gen.xsec(**dict(foil, chord=ct, twist=p["wash"] + p["roll"])), gen.xsec(**dict(foil, x=-x, chord=z, y=y, z=-h)), gen.xsec(**dict(foil, chord=ct, y=2 * y, twist=p["wash"] - p["roll"]))]
    a = gen.airplane([gen.wing(xs, nc=p["nc"], sp=p["sp"], x=x, y=-y, z=h)], x=z / 4, s_ref=s, b_ref=b, c_ref=s / b)
    pr = gen.steady_problem([a], gen.op(a=p["alpha"], b=p["beta"], v=p["v"], rho=p["rho"]))
    aero.run_quiet(aero.steady_solver(p["solver"], pr))
    return pr.airplanes[0]


def wing(p, ob):
    z, ct, b, s = sizes(p)
    g = np.radians(p["dihedral"])
    got = solve(p, p["dihedral"])
    cd, _, cl = got.total_near_field_force_coefficients_wind_axes
    croll, cm, _ = got.total_near_field_moment_coefficients_wind_axes
    l0, m0 = thin(FOILS[p["af"]], 0.0)
    lf, mf = thin((0.0, 0.4), p["flap"])

    def chord(y):
        return z + (ct - z) * abs(y) / (b / 2)

    def blend(y):
        # Straight lines join the sections, so the chord vectors, not the angles, are interpolated.
        return abs(y) / (b / 2) * ct / chord(y)
    coarse = 10 / p["nc"]
    parts = dict(alpha=(0.045, lambda y: 0 * y + np.radians(p["alpha"])), camber=(0.09 * coarse, lambda y: 0 * y - l0), flap=(0.1 * coarse, lambda y: 0 * y - lf),
                 wash=(0.05, lambda y: np.radians(p["wash"]) * blend(y)), roll=(0.06, lambda y: -np.radians(p["roll"]) * np.sign(y) * blend(y)),
                 dihedral=(0.15, lambda y: np.sin(g) * np.radians(p["beta"]) * np.sign(y)))
    ar = b * b / s
    coef = {n: lifting_line(b, chord, f) for n, (_, f) in parts.items()}
    tot = sum(coef.values())
    k = np.arange(1, len(tot) + 1)
    want = np.pi * ar * tot[0]
    tol = sum(t * abs(np.pi * ar * coef[n][0]) for n, (t, _) in parts.items()) + 0.003
    ob.true(abs(cl - want) <= tol, "lift coefficient %.4f, lifting-line theory says %.4f, give or take %.4f" % (cl, want, tol))
    # Each part's own share of the induced drag, weighted by how well it is resolved.
    drag = np.pi * ar * (k * tot ** 2).sum()
    big = np.pi * ar * (k * sum(abs(c) for c in coef.values()) ** 2).sum()
    if coarse == 1 or (p["af"] == "naca0012" and not p["flap"]):
        ob.true(abs(cd - drag) <= 0.2 * drag + 0.08 * (big - drag) + 0.0003, "induced drag coefficient %.5f, lifting-line theory says %.5f" % (cd, drag))
    want = np.pi * ar / 4 * tot[1]
    tol = 0.14 * abs(np.pi * ar / 4 * (abs(coef["roll"][1]) + abs(coef["dihedral"][1]))) + 0.0015
    if not p["dihedral"]:
        slip = abs(np.radians(p["beta"])) * (abs(cl) / 4 + 0.01)
        ob.true(abs(croll - want) <= tol + slip, "rolling moment coefficient %.5f, lifting-line theory says %.5f" % (croll, want))
        if not p["beta"] and p["nc"] > 1:
            want = (m0 + mf) * 4 / 3 * (1 + p["taper"] + p["taper"] ** 2) / (1 + p["taper"]) ** 2
            tol = 0.08 * coarse * (abs(m0) + abs(mf)) + 0.012 * abs(cl) + 0.02 * abs(np.radians(p["wash"])) + 0.0005
            ob.true(abs(cm - want) <= tol, "pitching moment coefficient %.5f about the quarter chord, thin-airfoil theory says %.5f" % (cm, want))
    elif p["beta"]:
        # Sideslip by itself rolls a wing a little; the opposite dihedral tells that apart.
        want = np.pi * ar / 4 * coef["dihedral"][1]
        got = (croll - solve(p, -p["dihedral"]).total_near_field_moment_coefficients_wind_axes[0]) / 2
        ob.true(abs(got - want) <= 0.12 * abs(want), "dihedral changes the rolling moment coefficient by %.5f, lifting-line theory says %.5f" % (got, want))
    ob.sig([cl, cd, croll, cm])
    ob.state(cl, cd, croll, cm)


def pointed(p, ob):
    """Jones's theory of slender triangular wings."""
    c = p["size"]
    b = p["ar"] / 2 * c * 0.999
    s = c * p["ar"] / 4 * c
    xs = [gen.xsec(ns=p["ns"], sp="cosine", chord=c), gen.xsec(x=0.999 * c, y=b / 2, chord=0.001 * c)]
    pr = gen.steady_problem([gen.airplane([gen.wing(xs, sym=True, nc=p["nc"], sp="uniform")], s_ref=s, c_ref=c, b_ref=b)], gen.op(a=p["alpha"]))
    aero.run_quiet(aero.steady_solver(p["solver"], pr))
    a = pr.airplanes[0]
    cd, cy, cl = a.total_near_field_force_coefficients_wind_axes
    _, cm, _ = a.total_near_field_moment_coefficients_wind_axes
    ar, alpha = b * b / s, np.radians(p["alpha"])
    for what, got, want, tol in (("lift", cl, np.pi / 2 * ar * alpha, 0.1), ("induced drag", cd, np.pi / 4 * ar * alpha ** 2, 0.17), ("pitching moment", cm, -np.pi / 3 * ar * alpha, 0.13), ("side force", cy, 0.0, 0.0)):
        ob.true(abs(got - want) <= tol * abs(want) + 1e-9, "%s coefficient %.5f of a slender triangular wing, Jones's theory says %.5f" % (what, got, want))
    ob.sig([cl, cd, cm])
    ob.state(cl, cd, cm)


# ------------------------------------------------------------------ oscillations
RHO, AR, STEPS, CYCLES = 1.225, 30, 40, 2.5


def slender(size, ar, ns, nc):
    """A rectangular wing whose airplane's reference point is on the quarter-chord line."""
    xs = [gen.xsec(chord=size, ns=ns, sp="cosine"), gen.xsec(chord=size, y=ar * size / 2)]
    return gen.airplane([gen.wing(xs, sym=True, nc=nc, sp="uniform")], x=size / 4)


def history(pr):
    f = np.array([q.airplanes[0].total_near_field_force_wind_axes for q in pr.steady_problems])
    m = np.array([q.airplanes[0].total_near_field_moment_wind_axes for q in pr.steady_problems])
    return f, m


def wave(p, ob):
    c, v, k, kind = p["size"], p["v"], p["k"], p["kind"]
    b, alpha = c / 2, np.radians(p["alpha"])
    w = k * v / b
    T = 2 * np.pi / w
    n = int(STEPS * CYCLES)
    a = slender(c, AR, 5, 6)
    h, th, dv = 0.02 * c, 1.0, 0.05 * v
    om = gen.OM
    if kind == "plunge":
        ams = aero.moving([a], wing=dict(za=h, zT=T))
    elif kind == "pitch":
        ams = aero.moving([a], sec=dict(pa=th, pT=T), root=dict(pa=th, pT=T))
    else:
        ams, om = gen.still([a]), dict(gen.OM, va=dv, vT=T)
    pr, s = aero.unsteady(([a], ams, gen.op(v=v, a=p["alpha"], rho=RHO), om, dict(gen.MV, steps=n, dt=T / STEPS)))
    aero.run_quiet(s, prescribed_wake=not p["free"], calculate_streamlines=False)
    f, m = history(pr)
    t = np.arange(n) * T / STEPS
    last = slice(n - STEPS, n)

    def phasor(x):
        return 2 * np.mean(x[last] * np.exp(-1j * w * t[last]))
    lift, moment = phasor(-f[:, 2]), phasor(m[:, 1])
    # Theory, per unit span: everything varies as exp(i w t), and a sine has the phasor -i.
    C = theodorsen(k)
    iw = 1j * w
    thrust = None
    if kind == "plunge":
        z = -1j * h
        mass = np.pi * RHO * b * b * w * w * z
        want = mass - 2 * np.pi * RHO * v * b * C * iw * z
        want_m = -mass * b / 2
        if not alpha:
            thrust = np.pi * RHO * b * abs(C * iw * z) ** 2
    elif kind == "pitch":
        # The sections pitch about their leading edges.
        z = -1j * np.radians(th)
        q = v * z + 1.5 * b * iw * z
        want = np.pi * RHO * b * b * (v * iw * z + b * iw * iw * z) + 2 * np.pi * RHO * v * b * C * q
        want_m = np.pi * RHO * b * b * (-1.5 * v * b * iw * z - 9 / 8 * b * b * iw * iw * z) - np.pi * RHO * v * b * b * C * q + want * b / 2
        if not alpha:
            suction = (2 * C * q - b * iw * z) / np.sqrt(2)
            thrust = np.pi * RHO * b * abs(suction) ** 2 / 2 - (z * np.conj(want)).real / 2
    else:
        z = -1j * dv
        mass = np.pi * RHO * b * b * alpha * iw * z
        want = mass + 2 * np.pi * RHO * b * alpha * v * z * (1 + C)
        want_m = -mass * b / 2
    span = AR * c
    want, want_m = want * span, want_m * span
    size = max(abs(want), 2 * np.pi * RHO * b * v * v * 1e-3 * span)
    ob.true(abs(lift - want) <= (0.05 + 0.38 * k) * size, "lift oscillates with the phasor %s, unsteady thin-airfoil theory says %s" % (show(lift), show(want)))
    ob.true(abs(moment - want_m) <= (0.04 + 0.2 * k) * size * c, "pitching moment oscillates with the phasor %s, unsteady thin-airfoil theory says %s" % (show(moment), show(want_m)))
    if thrust is not None:
        got = np.mean(f[last, 0])
        thrust *= span
        ob.true(abs(got - thrust) <= (0.15 if kind == "plunge" else 0.3) * abs(thrust), "mean thrust %.5g, Garrick's theory says %.5g" % (got, thrust))
    ob.true(np.abs(f[:, 1]).max() <= 1e-6 * np.abs(f).max(), "a symmetric motion makes a side force")
    ob.sig([lift.real, lift.imag, moment.real, moment.imag])
    ob.state(lift.real, lift.imag, moment.real, moment.imag)
    ob.traces += 1
    ob.transitions += n


def show(z):
    return "%.4g at %.0f degrees" % (abs(z), np.degrees(cmath.phase(z)))


def start(p, ob):
    c, v, ar = p["size"], 10.0, p["ar"]
    n = 40
    dt = 0.5 * c / v
    a = slender(c, ar, 5, 6)
    o = gen.op(v=v, a=4.0)
    pr = gen.steady_problem([a], o)
    aero.run_quiet(aero.steady_solver("ring", pr))
    full = -pr.airplanes[0].total_near_field_force_wind_axes[2]
    pr, s = aero.unsteady(([a], gen.still([a]), o, gen.OM, dict(gen.MV, steps=n, dt=dt)))
    aero.run_quiet(s, calculate_streamlines=False)
    lift = -history(pr)[0][:, 2] / full
    ob.true(lift[0] > 1, "an impulsive start makes no burst of lift: %.3f of the steady lift" % lift[0])
    for k in range(2, n):
        x = k * dt * v / (c / 2)
        want = 1 - 0.165 * np.exp(-0.0455 * x) - 0.335 * np.exp(-0.3 * x)
        ob.true(want - 0.01 <= lift[k] <= min(want + 0.06 + 0.12 * np.exp(-x / 8), 1.0), "after %.3g half chords the lift is %.3f of the steady lift, Wagner's theory says %.3f" % (x, lift[k], want))
    ob.sig(lift)
    ob.state(lift)
    ob.traces += 1
    ob.transitions += n


warm = aero.warm_all
