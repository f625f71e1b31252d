"""C05: airfoils: the NACA four-digit generator, the shipped database, repaneling and the camber line."""
import os
import re

import numpy as np
import scipy.interpolate

from mc import gen, ref

PID = "C05"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of all four-digit codes and all shipped airfoil files"
NOTE = ("All valid four-digit codes and every shipped airfoil file are covered; the outline is compared with the published NACA equations and "
        "with an independent reading of the file. Interpolation between tabulated points trusts scipy's monotone cubic interpolant.")
RULE = ("Every four-digit code (camber position 0 only without camber) and every shipped file, with and without repaneling, in several spellings "
        "and point counts; non-trivial: an outline was compared; outcomes are distinct batches of outlines.")
BOUND = {"quick": "all codes, all files; 400 points per side, plus 2 other counts for a tenth of the codes",
         "thorough": "all codes, all files; 400 points per side, plus 4 other counts for every code"}
CHUNK = 1
DIR = "/repo/pterasoftware/airfoils"


def cases(tier):
    out = []
    for m in range(10):
        for p in range(10):
            if m and not p:
                continue
            out.append(("naca%d%d.." % (m, p), dict(m=m, p=p, tier=tier)))
    # The generator, not the file, answers for four-digit names.
    files = sorted(f for f in os.listdir(DIR) if f.lower().endswith(".dat") and not re.fullmatch(r"naca\d{4}\.dat", f.lower()))
    for i in range(0, len(files), 40):
        out.append(("files%03d" % (i // 40), dict(files=files[i:i + 40])))
    out.append(("given", dict(given=True)))
    out.append(("unknown", dict(unknown=True)))
    return out


def naca(m, p, t):
    x = 0.5 - 0.5 * np.cos(np.linspace(0, np.pi, 100))
    yt = 5 * t * (0.2969 * np.sqrt(x) - 0.1260 * x - 0.3516 * x ** 2 + 0.2843 * x ** 3 - 0.1015 * x ** 4)
    if m == 0:
        yc, dy = np.zeros_like(x), np.zeros_like(x)
    else:
        yc = np.where(x <= p, m / p ** 2 * (2 * p * x - x ** 2), m / (1 - p) ** 2 * (1 - 2 * p + 2 * p * x - x ** 2))
        dy = np.where(x <= p, 2 * m / p ** 2 * (p - x), 2 * m / (1 - p) ** 2 * (p - x))
    th = np.arctan(dy)
    up = np.column_stack([x - yt * np.sin(th), yc + yt * np.cos(th)])
    lo = np.column_stack([x + yt * np.sin(th), yc - yt * np.cos(th)])
    return np.vstack([up[::-1], lo[1:]])


def repaneled(c, n):
    i = int(np.argmin(c[:, 0]))
    x = 0.5 - 0.5 * np.cos(np.linspace(0, np.pi, n))
    up, lo = advancing(c[: i + 1][::-1]), advancing(c[i:])
    f = scipy.interpolate.PchipInterpolator
    yu = f(up[:, 0], up[:, 1])(np.clip(x, up[0, 0], up[-1, 0]))
    yl = f(lo[:, 0], lo[:, 1])(np.clip(x, lo[0, 0], lo[-1, 0]))
    return np.vstack([np.column_stack([x, yu])[::-1], np.column_stack([x, yl])[1:]])


def advancing(side):
    """Only the points that lie behind every point before them (some files repeat a chordwise position)."""
    keep, far = [], -np.inf
    for pt in side:
        if pt[0] > far:
            keep.append(pt)
            far = pt[0]
    return np.array(keep)


def derived(a, ob, what):
    """Camber line, thickness and the two views of the outline."""
    c = np.asarray(a.coordinates)
    i = int(np.argmin(c[:, 0]))
    up, lo = c[: i + 1], c[i:]
    ob.close(a.upper_coordinates(), up, what + ": upper outline")
    ob.close(a.lower_coordinates(), lo, what + ": lower outline")
    ob.equal(int(a.leading_edge_index()), i, what + ": leading edge index")
    mcl = (up[::-1] + lo) / 2
    ob.close(a.mcl_coordinates, mcl, what + ": mean camber line")
    ob.close(a.upper_minus_mcl, up[::-1] - mcl, what + ": upper outline minus camber line", atol=1e-12)
    t = np.column_stack([mcl[:, 0], np.hypot(*(up[::-1] - lo).T)])
    ob.close(a.thickness, t, what + ": thickness")
    f = np.array([0.0, 0.11, 0.25, 0.5, 0.77, 0.9, 1.0])
    ob.close(a.get_downsampled_mcl(f), ref.along(mcl, f), what + ": points along the camber line", atol=1e-11)
    if np.all(np.diff(mcl[:, 0]) > 0):
        for x in (0.1, 0.4, 0.75, 0.93):
            if mcl[0, 0] <= x <= mcl[-1, 0]:
                ob.close(a.get_camber_at_chord_fraction(x), np.interp(x, mcl[:, 0], mcl[:, 1]), what + ": camber at %g" % x, atol=1e-10)


def read(path):
    with open(path, encoding="latin-1") as f:
        lines = f.read().split("\n")[1:]
    v = []
    for t in " ".join(lines).split():
        try:
            v.append(float(t))
        except ValueError:
            break  # some files end with remarks
    if len(v) < 8 or len(v) % 2:
        return None  # no table right after the title line
    return np.array(v).reshape(-1, 2)


def run(p, ob):
    import pterasoftware as ps
    Airfoil = ps.geometry.Airfoil
    sigs = []

    def attempt(key, fn):
        from mc.core import Violation
        try:
            fn()
        except Violation:
            _, what = ob.violations.pop()
            ob.soft(key, what)
        except Exception as e:
            ob.soft(key, "raised %s: %s" % (type(e).__name__, e))

    if "m" in p:
        for t in range(100):
            code = "%d%d%02d" % (p["m"], p["p"], t)
            def one(code=code, t=t):
                want = naca(p["m"] / 100, p["p"] / 10, t / 100)
                if int(np.argmin(want[:, 0])) == 99:
                    # (Otherwise the foremost point is not shared by two equally long sides, and only the
                    # repaneled outline is usable.)
                    a = Airfoil(name="naca" + code, repanel=False)
                    ob.close(a.coordinates, want, "naca%s outline" % code, atol=1e-12)
                    derived(a, ob, "naca" + code)
                    ob.note("codes usable without repaneling")
                b = Airfoil(name=("NACA" if t % 2 else " naca") + code)
                w = repaneled(want, 400)
                ob.close(b.coordinates, w, "naca%s repaneled outline" % code, atol=1e-9)
                derived(b, ob, "repaneled naca" + code)
                sigs.append(w[::40])
                for n in ((5, 37) if p["tier"] == "quick" and t % 10 == 3 else (5, 12, 37, 100) if p["tier"] != "quick" else ()):
                    c = Airfoil(name="naca" + code, n_points_per_side=n)
                    ob.close(c.coordinates, repaneled(want, n), "naca%s with %d points per side" % (code, n), atol=1e-9)
                    ob.equal((c.repanel, c.n_points_per_side), (True, n), "options kept")
            attempt(code, one)
    elif "files" in p:
        for f in p["files"]:
            def one(f=f):
                want = read(os.path.join(DIR, f))
                stem = f[:-4]
                ob.true(want is not None, "%s: no coordinate table after the title line" % f)
                a = Airfoil(name=stem)
                w = repaneled(want, 400)
                ob.close(a.coordinates, w, "%s outline" % f, atol=1e-9)
                ob.true(np.all(np.abs(w[:, 1]) < 1), "%s: the outline is not in chord fractions" % f)
                derived(a, ob, f)
                b = Airfoil(name=stem.upper(), n_points_per_side=60)
                ob.close(b.coordinates, repaneled(want, 60), "%s outline, name in capitals" % f, atol=1e-9)
                ob.equal((a.name, b.name), (stem, stem.upper()), "name")
                sigs.append(w[::40])
            attempt("@" + f, one)
            def raw(f=f):
                want = read(os.path.join(DIR, f))
                if want is None:
                    return
                i = int(np.argmin(want[:, 0]))
                if i + 1 != len(want) - i:
                    return  # upper and lower points do not pair up: only usable after repaneling
                a = Airfoil(name=f[:-4], repanel=False)
                ob.close(a.coordinates, want, "%s outline, not repaneled" % f)
                derived(a, ob, f)
            attempt("@" + f + " raw", raw)
    elif "given" in p:
        for code in ("1405", "0008", "0024", "1803", "2904"):
            want = naca(int(code[0]) / 100, int(code[1]) / 10, int(code[2:]) / 100)
            keep = want.copy()
            for rp, n in ((False, 400), (True, 400), (True, 50)):
                a = Airfoil(name="naca0012", coordinates=want, repanel=rp, n_points_per_side=n)
                ob.close(a.coordinates, repaneled(keep, n) if rp else keep, "given coordinates take precedence", atol=1e-9)
                ob.equal(want, keep, "the caller's coordinates")
                derived(a, ob, "given " + code)
                sigs.append(a.coordinates[::20])
            sub = np.column_stack([keep[:, 0] + 0.0, keep[:, 1]])[::1]
            a = Airfoil(coordinates=sub, repanel=True, n_points_per_side=33)
            b = Airfoil(coordinates=a.coordinates, repanel=False)
            ob.close(b.coordinates, a.coordinates, "repaneled coordinates fed back")
    else:
        for name in ("no such airfoil", "naca", "naca12", "naca23", "nacaabcd", "naca123456", "zzz"):
            ob.raises(lambda: Airfoil(name=name), "airfoil named %r" % name)
        sigs.append("unknown")
    ob.sig(sigs)
