"""C02: a symmetric wing is the union of its right half and that half's mirror image."""
import itertools

import numpy as np

from mc import gen, ref
from mc.props import c01

PID = "C02"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration with a mirror-image differential oracle"
NOTE = ("Differential: the library's own one-sided mesh, mirrored, decides the other half, so no expected values are hand-written; "
        "covers only the enumerated wings.")
RULE = ("All symmetric wings within k deviations of a plain and a fully featured wing, times both control surface types of both sections and "
        "three symmetry planes; non-trivial: both halves were compared; outcomes are distinct meshes.")
BOUND = {"quick": "k = 1 (plain) and 2 (full)", "thorough": "k = 2 (plain) and 3 (full)"}
S = {k: v for k, v in c01.SPACE.items() if k not in ("sym", "cs0", "cs1", "plane")}


def cases(tier):
    out = []
    kk = (1, 2) if tier == "quick" else (2, 3)
    for name, base, k in (("plain", c01.PLAIN, kk[0]), ("full", c01.FULL, kk[1])):
        b = {n: base[n] for n in S}
        for key, p in gen.deviations(S, b, k):
            for cs0, cs1 in itertools.product(("symmetric", "asymmetric"), repeat=2):
                for plane in ("y", "z"):
                    if k == 3 and plane == "z":
                        continue
                    q = dict(p, sym=True, cs0=cs0, cs1=cs1, plane=plane)
                    if c01.legal(q):
                        out.append(("%s:%s %s %s %s" % (name, key, cs0[:2], cs1[:2], plane), c01.spec(q)))
    # An oblique symmetry plane with every section parallel to it.
    n = (0.0, float(np.cos(0.4)), float(np.sin(0.4)))
    for d0, cs0, d1, cs1 in itertools.product((0.0, 8.0), ("symmetric", "asymmetric"), (0.0, -5.0), ("symmetric", "asymmetric")):
        xs = [gen.xsec(airfoil="naca2412", ns=2, normal=n, defl=d0, cs=cs0, twist=2.0),
              gen.xsec(airfoil="naca0012", ns=3, normal=n, x=0.2, y=0.9, z=0.5, chord=0.8, defl=d1, cs=cs1),
              gen.xsec(airfoil="naca4409", ns=1, normal=n, x=0.5, y=1.9, z=0.9, chord=0.5, twist=-3.0)]
        out.append(("oblique:%g %s %g %s" % (d0, cs0[:2], d1, cs1[:2]), gen.wing(xs, normal=n, sym=True, nc=3, x=0.3, y=-0.2, z=0.4)))
    return out


def run(w, ob):
    le = np.array([w["x"], w["y"], w["z"]])
    full = ref.panel_arrays(gen.build_wing(w))
    one = dict(w, sym=False)
    right = ref.panel_arrays(gen.build_wing(one))
    flip = dict(one, xs=[dict(x, defl=-x["defl"]) if x["cs"] == "asymmetric" else x for x in one["xs"]])
    left = ref.panel_arrays(gen.build_wing(flip))
    n = right[0].shape[1]
    ob.equal(full[0].shape[1], 2 * n, "number of spanwise panels")
    for name, f, r in zip(("FL", "FR", "BL", "BR"), full, right):
        ob.close(f[:, n:], r, "right half, " + name, rtol=1e-9)
    for name, f, m in zip(("FL", "FR", "BL", "BR"), full, (left[1], left[0], left[3], left[2])):
        ob.close(f[:, :n], ref.reflect(m, w["normal"], le)[:, ::-1], "mirrored half, " + name, rtol=1e-9)
    ob.sig(full)
