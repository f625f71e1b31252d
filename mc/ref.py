"""Reference models, written from the definitions and kept boring: plain numpy on plain arrays."""
import math

import numpy as np


# ------------------------------------------------------------------ geometry
def unit(v):
    v = np.asarray(v, float)
    return v / math.sqrt(float(v @ v))


def rotation(axis, deg):
    u = unit(axis)
    t = math.radians(deg)
    K = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    return np.eye(3) + math.sin(t) * K + (1 - math.cos(t)) * (K @ K)


def spacing(n, kind):
    """n panels -> n + 1 fractions of [0, 1]."""
    k = np.arange(n + 1) / n
    return k if kind == "uniform" else 0.5 * (1 - np.cos(np.pi * k))


def camber_line(coords):
    """Mean of the upper and lower outlines, leading edge first."""
    coords = np.asarray(coords, float)
    i = int(np.argmin(coords[:, 0]))
    return (coords[: i + 1][::-1] + coords[i:]) / 2


def flapped_camber_line(coords, defl, hinge):
    mcl = camber_line(coords)
    if defl == 0:
        return mcl
    hp = np.array([hinge, np.interp(hinge, mcl[:, 0], mcl[:, 1])])
    t = math.radians(-defl)
    R = np.array([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]])
    out = mcl.copy()
    aft = mcl[:, 0] > hinge
    out[aft] = (mcl[aft] - hp) @ R.T + hp
    return out


def along(line, fractions):
    s = np.concatenate([[0.0], np.cumsum(np.hypot(np.diff(line[:, 0]), np.diff(line[:, 1])))])
    s = s / s[-1]
    return np.column_stack([np.interp(fractions, s, line[:, 0]), np.interp(fractions, s, line[:, 1])])


def reflect(p, normal, point):
    n = unit(normal)
    d = (np.asarray(p) - point) @ n
    return p - 2 * np.asarray(d)[..., None] * n


def section_line(xs, cs, defl, w, coords):
    """The discretised camber line of one cross section, in geometry axes: (nc + 1, 3)."""
    line = along(flapped_camber_line(coords, defl, cs["hinge"]), spacing(w["nc"], w["sp"]))
    back = rotation(xs["normal"], xs["twist"]) @ np.asarray(w["chordvec"], float)
    up = np.cross(back, np.asarray(xs["normal"], float))
    le = np.array([w["x"], w["y"], w["z"]]) + np.array([xs["x"], xs["y"], xs["z"]])
    return le + xs["chord"] * (line[:, :1] * back + line[:, 1:] * up)


def wing_vertices(w, coords_of):
    """Grid of mesh vertices (nc + 1, N + 1, 3), leftmost column first."""
    def half(sign):
        cols = []
        for a, b in zip(w["xs"][:-1], w["xs"][1:]):
            d = a["defl"] if (sign > 0 or a["cs"] == "symmetric") else -a["defl"]
            pa = section_line(a, a, d, w, coords_of(a["airfoil"]))
            pb = section_line(b, a, d, w, coords_of(b["airfoil"]))
            f = spacing(a["ns"], a["sp"])
            cols.append(pa[:, None, :] + f[None, :, None] * (pb - pa)[:, None, :])
        return cols
    right = half(+1)
    le = np.array([w["x"], w["y"], w["z"]])
    strips = []
    if w["sym"]:
        for s in reversed(half(-1)):
            strips.append(reflect(s, w["normal"], le)[:, ::-1])
    strips += right
    return strips


def wing_panels(w, coords_of):
    """(FL, FR, BL, BR), each (nc, N, 3)."""
    fl, fr, bl, br = [], [], [], []
    for g in wing_vertices(w, coords_of):
        fl.append(g[:-1, :-1]); fr.append(g[:-1, 1:]); bl.append(g[1:, :-1]); br.append(g[1:, 1:])
    return [np.concatenate(v, axis=1) for v in (fl, fr, bl, br)]


def panel_arrays(wing):
    """The same four arrays read from a meshed wing of the library."""
    p = wing.panels
    out = []
    for name in ("front_left_vertex", "front_right_vertex", "back_left_vertex", "back_right_vertex"):
        out.append(np.array([[getattr(p[i, j], name) for j in range(p.shape[1])] for i in range(p.shape[0])], dtype=float).reshape(p.shape + (3,)))
    return out


class Quad:
    """Derived geometry of one or many quadrilateral panels (arrays (..., 3))."""

    def __init__(self, fl, fr, bl, br):
        self.fl, self.fr, self.bl, self.br = fl, fr, bl, br
        self.cross = np.cross(fr - bl, fl - br)
        self.norm = np.sqrt((self.cross ** 2).sum(-1))
        self.area = self.norm / 2
        with np.errstate(all="ignore"):
            self.normal = self.cross / self.norm[..., None]
        self.cfl = fl + 0.25 * (bl - fl)
        self.cfr = fr + 0.25 * (br - fr)
        self.colloc = 0.5 * (fl + 0.75 * (bl - fl)) + 0.5 * (fr + 0.75 * (br - fr))

    def projected(self, n):
        return np.abs(self.cross @ np.asarray(n, float)) / 2


# ------------------------------------------------------------------ induced velocities
LAMB, SQUIRE = 1.25643, 1e-4


def segment_velocity(p, a, b, gamma, rc=0.0, tol=2.220446049250313e-16):
    """Velocities at points p (P,3) from segments a->b (S,3): array (P,S,3)."""
    p, a, b = (np.asarray(v, float) for v in (p, a, b))
    gamma = np.broadcast_to(np.asarray(gamma, float), (a.shape[0],))
    rc = np.broadcast_to(np.asarray(rc, float), (a.shape[0],))
    r1 = p[:, None, :] - a[None]
    r2 = p[:, None, :] - b[None]
    r0 = (b - a)[None]
    n1 = np.sqrt((r1 ** 2).sum(-1))
    n2 = np.sqrt((r2 ** 2).sum(-1))
    c = np.cross(r1, r2)
    c2 = (c ** 2).sum(-1)
    with np.errstate(all="ignore"):
        # (|r1| + |r2|)(1 - cos angle): the same as r0 . (r1/|r1| - r2/|r2|)
        k = (n1 + n2) * (1 - (r1 * r2).sum(-1) / (n1 * n2))
        f = gamma[None] / (4 * np.pi) * k / (c2 + (r0 ** 2).sum(-1) * (rc ** 2)[None])
        v = f[..., None] * c
    near = 1.4901161193847656e-08 * np.sqrt((r0 ** 2).sum(-1))
    dead = (n1 <= near) | (n2 <= near) | (c2 < tol * (n1 * n2) ** 2)
    v[dead] = 0.0
    return v


def core_radius(gamma, age, nu):
    return 2 * np.sqrt(LAMB * (nu + SQUIRE * np.abs(gamma)) * np.asarray(age, float))


def poly_velocity(p, corners, gamma, closed, age=None, nu=0.0):
    """Vortex polylines; corners: list of (S,3) arrays in order. Returns (P,S,3)."""
    gamma = np.asarray(gamma, float)
    rc = 0.0 if age is None else core_radius(gamma, age, nu)
    ends = list(zip(corners[:-1], corners[1:]))
    if closed:
        ends.append((corners[-1], corners[0]))
    out = 0.0
    for a, b in ends:
        out = out + segment_velocity(p, a, b, gamma, rc)
    return out


def ring_velocity(p, fl, fr, bl, br, gamma, age=None, nu=0.0):
    # Positive strength runs front right -> front left -> back left -> back right.
    return poly_velocity(p, [fr, fl, bl, br], gamma, True, age, nu)


def horseshoe_velocity(p, far_r, r, l, far_l, gamma):
    return poly_velocity(p, [far_r, r, l, far_l], gamma, False)


# ------------------------------------------------------------------ operating point
def wind_to_geometry(alpha, beta):
    """Columns: the wind-axes base vectors (forward, right, down) in geometry axes (aft, right, up)."""
    a, b = math.radians(alpha), math.radians(beta)
    # Body axes are forward-right-down; the wind axes follow from them by yaw beta then pitch -alpha.
    fwd = np.array([math.cos(b) * math.cos(a), math.sin(b), math.cos(b) * math.sin(a)])
    right = np.array([-math.sin(b) * math.cos(a), math.cos(b), -math.sin(b) * math.sin(a)])
    down = np.array([-math.sin(a), 0.0, math.cos(a)])
    B = np.column_stack([fwd, right, down])          # body axes
    return np.diag([-1.0, 1.0, -1.0]) @ B            # geometry axes


def freestream(o):
    return -o["v"] * wind_to_geometry(o["a"], o["b"])[:, 0]


def loads(force_geo, moment_geo, o, s, c, b):
    """Totals in wind axes and their coefficients, as the package reports them."""
    R = wind_to_geometry(o["a"], o["b"]).T
    F, M = R @ force_geo, R @ moment_geo
    q = 0.5 * o["rho"] * o["v"] ** 2
    CF = np.array([-F[0], F[1], -F[2]]) / q / s
    CM = np.array([M[0] / b, M[1] / c, M[2] / b]) / q / s
    return F, M, CF, CM


# ------------------------------------------------------------------ oscillations
def wave(kind, phase):
    """kind: sine | uniform | a callable; phase in radians."""
    if callable(kind):
        return kind(phase)
    if kind == "sine":
        return np.sin(phase)
    # Triangle that starts at zero, rises to +1 at a quarter, falls to -1 at three quarters.
    t = np.mod(phase / (2 * np.pi), 1.0)
    return np.where(t < 0.25, 4 * t, np.where(t < 0.75, 2 - 4 * t, 4 * t - 4))


def schedule(base, amp, period, kind, n, dt):
    if amp == 0 or period == 0:
        return np.full(n, float(base))
    t = np.arange(n) * dt
    return base + amp * wave(kind, 2 * np.pi * t / period)
