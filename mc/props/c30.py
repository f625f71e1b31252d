"""C30: printed tables and plotted time histories show the solved loads."""
import io
import os
import re
import shutil
import tempfile
import warnings
from contextlib import redirect_stdout

import numpy as np

from mc import aero, gen, patch

PID = "C30"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of solved cases and output options, with every printed number and plotted curve read back"
NOTE = ("Every number in every printed table and every point, label and title of every plotted curve of every enumerated case is compared with the solver's results; figures are read as "
        "objects, their rendering is not covered.")
RULE = ("All configurations x flight states for both steady solvers (printing), all unsteady scenes with and without only final results (printing, plotting with every combination of "
        "options, airplanes with like and unlike names), and drawn airfoils; outcomes are distinct outputs.")
BOUND = {"quick": "28 configurations x 11 flight states x 2 solvers; 27 scenes x 2 modes x 4 option sets; 12 airfoils", "thorough": "28 configurations x 20 flight states x 2 solvers; all unsteady cases with k = 1 x 2 modes x 4 option sets; 60 airfoils"}
NAMES = ("force", "moment", "force_coefficients", "moment_coefficients")
TABLE = [("forces in wind axes", "total_near_field_force_wind_axes", ("induced drag", "side force", "lift"), "N"),
         ("moments in wind axes", "total_near_field_moment_wind_axes", ("rolling moment", "pitching moment", "yawing moment"), "Nm"),
         ("force coefficients in wind axes", "total_near_field_force_coefficients_wind_axes", ("cdi", "cy", "cl"), ""),
         ("moment coefficients in wind axes", "total_near_field_moment_coefficients_wind_axes", ("cl", "cm", "cn"), "")]
FIGURES = [("Forces", "total_near_field_force_wind_axes", ("Induced Drag", "Side Force", "Lift"), "(N)"),
           ("Force Coefficients", "total_near_field_force_coefficients_wind_axes", ("Induced Drag", "Side Force", "Lift"), "Coefficient"),
           ("Moments", "total_near_field_moment_wind_axes", ("Roll", "Pitch", "Yaw"), "(N m)"),
           ("Moment Coefficients", "total_near_field_moment_coefficients_wind_axes", ("Roll", "Pitch", "Yaw"), "Coefficient")]


def cases(tier):
    q = tier == "quick"
    out = []
    ops = list(aero.OPS) + ([] if q else [gen.op(v=v, a=a, b=b) for v in (3.0, 60.0, 140.0) for a in (-10.0, 2.0, 15.0) for b in (4.0,)])
    for n, aps in aero.configs().items():
        for o in ops:
            for kind in ("horseshoe", "ring"):
                out.append(("%s %s %s" % (kind, n, aero.opkey(o)), dict(kind=kind, aps=aps, op=o)))
    un = [("%s" % n, sc) for n, sc in aero.scenes().items()] if q else [(k, p["scene"]) for k, p in aero.unsteady_cases("quick") if not p["free"] or k.startswith("motion")]
    for n, sc in un:
        for fin in (False, True):
            out.append(("unsteady %s%s" % (n, ", final results" if fin else ""), dict(kind="unsteady", scene=sc, fin=fin)))
    afs = ["naca0012", "naca2412", "naca4409", "naca6721", "e174", "s1223", "a18", "b707a", "2032c", "clarky", "NACA0006", "fx60126"]
    if not q:
        afs += ["naca%d%d%02d" % (m, c, t) for m in (1, 4, 9) for c in (1, 4, 8) for t in (4, 12, 20, 30)] + ["goe%d" % i for i in (115, 123, 167, 256, 397, 451, 500, 602, 711, 777, 795)]
    for a in afs:
        out.append(("airfoil " + a, dict(kind="airfoil", name=a)))
    return out


def parse(text):
    """[(title, {section: {label: (value, unit)}})] of a printed report; titles are the lines that start at the margin."""
    out = []
    section = None
    for line in text.splitlines():
        if not line.strip():
            continue
        head, _, rest = line.strip().partition(":")
        rest = rest.strip()
        if not line[0].isspace():
            out.append((line.strip().rstrip(":"), {}))
            section = None
        elif not rest:
            section = re.sub(r"^final ", "", head.strip().lower())
            out[-1][1][section] = {}
        else:
            m = re.match(r"^(\S+)\s*(.*)$", rest)
            out[-1][1][section][head.strip().lower()] = (float(m.group(1)), m.group(2).strip())
    return out


def check_report(ob, text, names, loads):
    """loads[airplane][attribute] -> three numbers"""
    rep = parse(text)
    ob.equal(len(rep), len(names), "airplanes in the report")
    for i, (title, sections) in enumerate(rep):
        ob.true(title == names[i] or title == "Airplane " + names[i], "report %d is titled %r for the airplane %r" % (i, title, names[i]))
        ob.true(sorted(sections) == sorted(s for s, _, _, _ in TABLE), "sections of the report: %r" % sorted(sections))
        for sec, attr, labels, unit in TABLE:
            ob.true(sorted(sections[sec]) == sorted(labels), "lines of %s: %r" % (sec, sorted(sections[sec])))
            for j, lab in enumerate(labels):
                v, u = sections[sec][lab]
                w = float(loads[i][attr][j])
                ob.true(abs(v - w) <= 0.0005 + 1e-9 * abs(w), "%s, %s: %s is printed as %r, solved as %.9g" % (names[i], sec, lab, v, w))
                ob.equal(u, unit, "unit of " + lab)


def figures(fn, *args, **kw):
    """Every figure a function makes, what it shows and what it saves."""
    import matplotlib.figure
    import matplotlib.pyplot as plt
    plt.close("all")
    Fig = matplotlib.figure.Figure
    shown, saved = [], []
    stand_ins = ((plt, "close", lambda *a, **k: None), (plt, "show", lambda *a, **k: shown.extend(plt.figure(i) for i in plt.get_fignums())),
                 (Fig, "show", lambda self, *a, **k: shown.append(self)),
                 (Fig, "savefig", lambda self, name, *a, **k: saved.append((os.path.basename(str(name)), self, os.path.dirname(str(name))))))
    here = os.getcwd()
    d = tempfile.mkdtemp(prefix="plot_")
    os.chdir(d)
    try:
        with warnings.catch_warnings(), patch.replaced(*stand_ins):
            warnings.simplefilter("ignore")
            fn(*args, **kw)
        figs = [plt.figure(i) for i in plt.get_fignums()]
    finally:
        os.chdir(here)
        shutil.rmtree(d)
        plt.close("all")
    return figs, shown, saved


def check_plots(ob, prob, s, names, **kw):
    import pterasoftware as ps
    what = "plot(%s)" % ", ".join("%s=%s" % i for i in sorted(kw.items()))
    figs, shown, saved = figures(ps.output.plot_results_versus_time, s, **kw)
    ob.equal(len(figs), 4 * len(names), what + ": figures")
    first, n, dt = s.first_results_step, s.num_steps, s.delta_time
    times = dt * np.arange(first, n)
    used = []
    for i, name in enumerate(names):
        for part, attr, labels, unit in FIGURES:
            title = "%s %s vs. Time" % (name, part)
            ax = [f for f in figs if len(f.axes) == 1 and f.axes[0].get_title() == title and not any(f is u for u in used)]
            ob.true(len(ax) > 0, what + ": no figure is titled %r" % title)
            f = ax[0]
            used.append(f)
            a = f.axes[0]
            ob.true("Time (s)" in a.get_xlabel(), what + ": %s has the time label %r" % (title, a.get_xlabel()))
            ob.true(unit in a.get_ylabel(), what + ": %s has the label %r" % (title, a.get_ylabel()))
            curves = {c.get_label(): c for c in a.get_lines()}
            ob.true(sorted(curves) == sorted(labels), what + ": %s has the curves %r" % (title, sorted(curves)))
            legend = a.get_legend()
            ob.true(legend is not None and sorted(t.get_text() for t in legend.get_texts()) == sorted(labels), what + ": legend of " + title)
            for j, lab in enumerate(labels):
                x, y = (np.array(z, float) for z in curves[lab].get_data())
                want = [getattr(prob.steady_problems[k].airplanes[i], attr)[j] for k in range(first, n)]
                ob.close(x, times, "%s: times of %s in %s" % (what, lab, title), rtol=1e-9)
                ob.close(y, want, "%s: %s in %s" % (what, lab, title), rtol=1e-9, atol=1e-13)
            if kw.get("save"):
                files = [x for x, g, folder in saved if g is f and folder in ("", ".")]
                ob.true(files == ["%s %s.png" % (name, part)], what + ": %s is saved as %r" % (title, files))
    ob.equal(len(saved), 4 * len(names) if kw.get("save") else 0, what + ": files")
    if kw.get("show", True):
        ob.true(all(any(f is g for g in shown) for f in figs), what + ": not all figures are shown")
    else:
        ob.true(not shown, what + ": figures are shown")


def run(p, ob):
    import pterasoftware as ps
    if p["kind"] == "airfoil":
        a = gen.airfoil(p["name"])
        figs, shown, saved = figures(a.draw)
        ob.equal((len(figs), len(saved)), (1, 0), "figures of the airfoil")
        ob.true(any(f is figs[0] for f in shown), "the airfoil is not shown")
        lines = figs[0].axes[0].get_lines()
        ob.equal(len(lines), 1, "curves of the airfoil")
        ob.close(np.array(lines[0].get_data(), float).T, a.coordinates, "the drawn outline")
        ob.equal(figs[0].axes[0].get_aspect(), 1.0, "aspect of the drawing")
        ob.sig(p["name"], a.coordinates)
        return
    if p["kind"] != "unsteady":
        s = aero.run_quiet(aero.steady_solver(p["kind"], gen.steady_problem(p["aps"], p["op"])))
        f = io.StringIO()
        with redirect_stdout(f):
            ps.output.print_steady_results(s)
        check_report(ob, f.getvalue(), [a.name for a in s.airplanes], [{attr: getattr(a, attr) for _, attr, _, _ in TABLE} for a in s.airplanes])
        ob.sig(f.getvalue())
        return
    aps, ams, o, om, mv = p["scene"]
    text = []
    for alike in (False, True):
        aps = [dict(a, name="same" if alike else "plane %d" % (7 - i)) for i, a in enumerate(aps)]
        prob, s = aero.unsteady((aps, ams, o, om, mv), p["fin"])
        aero.run_quiet(s, calculate_streamlines=False)
        f = io.StringIO()
        with redirect_stdout(f):
            ps.output.print_unsteady_results(s)
        text.append(f.getvalue())
        static = prob.max_period == 0
        fin = {}
        for _, attr, _, _ in TABLE:
            n = attr.replace("total_", "").replace("force_wind", "forces_wind").replace("moment_wind", "moments_wind")
            fin[attr] = getattr(prob, "final_" + ("" if static else "mean_") + n)
        check_report(ob, f.getvalue(), [a["name"] for a in aps], [{k: v[i] for k, v in fin.items()} for i in range(len(aps))])
        for show in (True, False):
            for save in (False, True):
                check_plots(ob, prob, s, [a["name"] for a in aps], show=show, save=save)
    ob.sig(text)


warm = aero.warm_all
