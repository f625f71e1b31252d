"""Finite case spaces and the builders that turn a case into the library's own objects."""
import contextlib
import itertools

import numpy as np


# ------------------------------------------------------------------ enumeration
def deviations(space, base, k):
    """Every assignment that departs from `base` in at most k parameters (simplest first).

    space: {name: [values]}; base: {name: value}. Exhaustive within the bound.
    """
    names = list(space)
    for d in range(k + 1):
        for combo in itertools.combinations(names, d):
            pools = [[v for v in space[n] if not same(v, base[n])] for n in combo]
            for vals in itertools.product(*pools):
                p = dict(base)
                p.update(zip(combo, vals))
                yield "+".join("%s=%s" % (n, short(v)) for n, v in zip(combo, vals)) or "base", p


def pairs(space, base):
    """Every departure from `base` in at most one parameter, then every pair of departures with one value for each parameter."""
    one = {n: [next(v for v in vals if not same(v, base[n]))] for n, vals in space.items() if any(not same(v, base[n]) for v in vals)}
    seen = set()
    for k, p in itertools.chain(deviations(space, base, 1), deviations(one, base, 2)):
        if k not in seen:
            seen.add(k)
            yield k, p


def same(a, b):
    return short(a) == short(b) and type(a) == type(b)


def short(v):
    if isinstance(v, float):
        return "%g" % v
    if isinstance(v, (tuple, list)):
        return "(" + ",".join(short(x) for x in v) + ")"
    if isinstance(v, dict):
        return "{" + ",".join("%s:%s" % (a, short(b)) for a, b in v.items()) + "}"
    return str(v)


def named(prefix, it):
    for k, p in it:
        yield prefix + ":" + k, p


def dedupe(cases):
    seen, out = set(), []
    for k, p in cases:
        t = short(p)
        if t not in seen:
            seen.add(t)
            out.append((k, p))
    return out


# ------------------------------------------------------------------ builders
AIRFOILS = {}


def airfoil(name, repanel=True, n=None):
    """Airfoil objects are immutable inputs; they are shared inside a process for speed."""
    import pterasoftware as ps
    if isinstance(name, dict):
        return ps.geometry.Airfoil(**{k: np.array(v) if k == "coordinates" else v for k, v in name.items()})
    key = (name, repanel, n)
    if key not in AIRFOILS:
        kw = {} if n is None else {"n_points_per_side": n}
        AIRFOILS[key] = ps.geometry.Airfoil(name=name, repanel=repanel, **kw)
    return AIRFOILS[key]


# Users write 1 as often as 1.0: while this holds, whole numbers are handed to the library as integers.
WHOLE = False


@contextlib.contextmanager
def whole_numbers(on=True):
    global WHOLE
    old, WHOLE = WHOLE, on
    try:
        yield
    finally:
        WHOLE = old


def num(x):
    return int(x) if WHOLE and isinstance(x, float) and x == int(x) else x


def nums(d):
    return {k: num(v) for k, v in d.items()} if WHOLE else d


def vec(v):
    v = np.array(v, dtype=float)
    return v.astype(int) if WHOLE and (v == v.astype(int)).all() else v


XS = dict(airfoil="naca0012", x=0.0, y=0.0, z=0.0, chord=1.0, normal=(0.0, 1.0, 0.0), twist=0.0,
          cs="symmetric", hinge=0.75, defl=0.0, ns=8, sp="cosine")
WG = dict(x=0.0, y=0.0, z=0.0, normal=(0.0, 1.0, 0.0), chordvec=(1.0, 0.0, 0.0), sym=False, nc=8, sp="cosine", name="W", xs=None)
AP = dict(wings=None, x=0.0, y=0.0, z=0.0, weight=0.0, s_ref=None, c_ref=None, b_ref=None, name="A")
OP = dict(rho=1.225, v=10.0, a=5.0, b=0.0, thrust=0.0, nu=15.06e-6)


def xsec(**kw):
    return dict(XS, **kw)


def wing(xs, **kw):
    return dict(WG, xs=xs, **kw)


def airplane(wings, **kw):
    return dict(AP, wings=wings, **kw)


def op(**kw):
    return dict(OP, **kw)


def build_xsec(s):
    import pterasoftware as ps
    s = nums(s)
    return ps.geometry.WingCrossSection(
        airfoil=airfoil(s["airfoil"]), x_le=s["x"], y_le=s["y"], z_le=s["z"], chord=s["chord"],
        unit_normal_vector=vec(s["normal"]), twist=s["twist"], control_surface_type=s["cs"],
        control_surface_hinge_point=s["hinge"], control_surface_deflection=s["defl"],
        num_spanwise_panels=s["ns"], spanwise_spacing=s["sp"])


def build_wing(w):
    import pterasoftware as ps
    w = nums(w)
    return ps.geometry.Wing(
        wing_cross_sections=[build_xsec(s) for s in w["xs"]], name=w["name"], x_le=w["x"], y_le=w["y"], z_le=w["z"],
        unit_normal_vector=vec(w["normal"]), symmetric=w["sym"], unit_chordwise_vector=vec(w["chordvec"]),
        num_chordwise_panels=w["nc"], chordwise_spacing=w["sp"])


def build_airplane(a):
    import pterasoftware as ps
    a = nums(a)
    return ps.geometry.Airplane(
        wings=[build_wing(w) for w in a["wings"]], name=a["name"], x_ref=a["x"], y_ref=a["y"], z_ref=a["z"],
        weight=a["weight"], s_ref=a["s_ref"], c_ref=a["c_ref"], b_ref=a["b_ref"])


def build_op(o):
    import pterasoftware as ps
    o = nums(o)
    return ps.operating_point.OperatingPoint(density=o["rho"], velocity=o["v"], alpha=o["a"], beta=o["b"],
                                             external_thrust=o["thrust"], nu=o["nu"])


def steady_problem(airplanes, o):
    import pterasoftware as ps
    return ps.problems.SteadyProblem(airplanes=[build_airplane(a) for a in airplanes], operating_point=build_op(o))


# ------------------------------------------------------------------ movements
XM = dict(sa=0.0, sT=0.0, ss="sine", sf=None, pa=0.0, pT=0.0, psp="sine", pf=None, ha=0.0, hT=0.0, hs="sine", hf=None)
WM = dict(xa=0.0, xT=0.0, xs_="sine", ya=0.0, yT=0.0, ys_="sine", za=0.0, zT=0.0, zs_="sine", secs=None)
AM = dict(xa=0.0, xT=0.0, xs_="sine", ya=0.0, yT=0.0, ys_="sine", za=0.0, zT=0.0, zs_="sine", wings=None)
OM = dict(va=0.0, vT=0.0, vs="sine")
MV = dict(steps=None, cycles=None, chords=None, dt=None)

CUSTOM = {
    None: None,
    "cos": np.cos,
    "saw": lambda t: np.mod(t, 2 * np.pi) / np.pi - 1,
    "mix": lambda t: 0.5 * np.sin(t) + 0.25 * np.cos(2 * t) - 0.1,
    "sq": lambda t: np.sin(t) ** 2,
    "slow": lambda t: np.exp(-0.15 * t) * np.sin(0.7 * t) + 0.02 * t,
    "sinh": lambda t: np.sinh(0.3 * t) / 4,
}


def build_movement(airplanes, ams, o, om, mv, bases=None, base_op=None):
    """airplanes: specs (built here unless objects are given as `bases`); ams: one AM dict per airplane with wings=[WM dict with secs=[XM...]]."""
    import pterasoftware as ps
    m = ps.movement
    amo = []
    for i, (a, am) in enumerate(zip(airplanes, ams)):
        am = nums(am)
        base = build_airplane(a) if bases is None else bases[i]
        wms = []
        for bw, wm in zip(base.wings, am["wings"]):
            wm = nums(wm)
            sms = [m.WingCrossSectionMovement(
                base_wing_cross_section=bx,
                sweeping_amplitude=xm["sa"], sweeping_period=xm["sT"], sweeping_spacing=xm["ss"], custom_sweep_function=CUSTOM[xm["sf"]],
                pitching_amplitude=xm["pa"], pitching_period=xm["pT"], pitching_spacing=xm["psp"], custom_pitch_function=CUSTOM[xm["pf"]],
                heaving_amplitude=xm["ha"], heaving_period=xm["hT"], heaving_spacing=xm["hs"], custom_heave_function=CUSTOM[xm["hf"]])
                for bx, xm in zip(bw.wing_cross_sections, map(nums, wm["secs"]))]
            wms.append(m.WingMovement(
                base_wing=bw, wing_cross_sections_movements=sms,
                x_le_amplitude=wm["xa"], x_le_period=wm["xT"], x_le_spacing=wm["xs_"],
                y_le_amplitude=wm["ya"], y_le_period=wm["yT"], y_le_spacing=wm["ys_"],
                z_le_amplitude=wm["za"], z_le_period=wm["zT"], z_le_spacing=wm["zs_"]))
        amo.append(m.AirplaneMovement(
            base_airplane=base, wing_movements=wms,
            x_ref_amplitude=am["xa"], x_ref_period=am["xT"], x_ref_spacing=am["xs_"],
            y_ref_amplitude=am["ya"], y_ref_period=am["yT"], y_ref_spacing=am["ys_"],
            z_ref_amplitude=am["za"], z_ref_period=am["zT"], z_ref_spacing=am["zs_"]))
    om = nums(om)
    omo = m.OperatingPointMovement(base_operating_point=base_op or build_op(o), velocity_amplitude=om["va"],
                                   velocity_period=om["vT"], velocity_spacing=om["vs"])
    kw = {}
    mv = nums(mv)
    if mv["steps"] is not None:
        kw["num_steps"] = mv["steps"]
    if mv["cycles"] is not None:
        kw["num_cycles"] = mv["cycles"]
    if mv["chords"] is not None:
        kw["num_chords"] = mv["chords"]
    if mv["dt"] is not None:
        kw["delta_time"] = mv["dt"]
    return m.Movement(airplane_movements=amo, operating_point_movement=omo, **kw)


def still(airplanes):
    """Movement specs in which nothing moves."""
    return [dict(AM, wings=[dict(WM, secs=[dict(XM) for _ in w["xs"]]) for w in a["wings"]]) for a in airplanes]
