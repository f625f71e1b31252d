"""C29: drawings and animations show the solved geometry, wakes, streamlines and panel coefficients."""
import io
import os
import re
import shutil
import sys
import tempfile
import time
from contextlib import redirect_stdout

import numpy as np

from mc import aero, gen, patch

PID = "C29"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of drawing options and option sequences on solved cases with a recording plotter, every shown frame compared with the solution"
NOTE = ("The plotter is replaced by a recorder; every polygon, line, scalar, colour limit and label of every frame of every enumerated call is compared with the solved state of its "
        "step, and saved files are read back frame by frame. What VTK makes of a scene is not covered.")
RULE = ("All configurations with both steady solvers and all unsteady scenes (prescribed, free, only final results, several time steps), each drawn with every combination of options and "
        "animated with every combination of options, one call after the other on the same solver; a state is one shown frame; outcomes are distinct sets of frames.")
BOUND = {"quick": "28 configurations x 2 solvers x 16 drawings; 27 scenes x 2 x (32 drawings + 16 animations); 6 time steps",
         "thorough": "28 configurations x 2 solvers x 3 flight states x 32 drawings; 27 scenes x 4 x (64 drawings + 32 animations); 12 time steps"}
TYPES = (None, "induced drag", "side force", "lift")
ATTR = {"induced drag": "induced_drag_coefficient", "side force": "side_force_coefficient", "lift": "lift_coefficient"}


def cases(tier):
    q = tier == "quick"
    out = []
    for n, aps in aero.configs().items():
        for kind in ("horseshoe", "ring"):
            for o in aero.OPS[:1] if q else aero.OPS[:5:2]:
                out.append(("%s %s %s" % (kind, n, aero.opkey(o)), dict(kind=kind, aps=aps, op=o, q=q)))
    for n, sc in aero.scenes().items():
        for free, fin in ((False, False), (True, True)) if q else ((False, False), (False, True), (True, False), (True, True)):
            out.append(("unsteady %s, %s wake%s" % (n, "free" if free else "prescribed", ", final results" if fin else ""), dict(kind="unsteady", scene=sc, free=free, fin=fin, q=q)))
    flat = aero.scenes()["two steps"]
    for dt in (0.003, 0.0199, 0.02, 0.3, 1.0, 1.7) + (() if q else (0.0007, 0.0125, 0.0201, 0.35, 0.7, 4.5)):
        out.append(("time step %g" % dt, dict(kind="unsteady", scene=flat[:4] + (dict(flat[4], dt=dt, steps=4),), free=False, fin=False, q=q)))
    return out


class Recorder:
    """Stands in for pyvista.Plotter and keeps what it is given."""
    made = []

    def __init__(self, *args, **kw):
        self.now = []
        self.frames = []
        self.shots = []
        self.shown = []
        Recorder.made.append(self)

    def add_mesh(self, mesh, *args, **kw):
        if mesh.n_points == 0:
            raise ValueError("Empty meshes cannot be plotted.")
        self.now.append(("mesh", mesh.copy(deep=True), {k: (np.array(v, copy=True) if isinstance(v, np.ndarray) else v) for k, v in kw.items()}))

    def add_text(self, text, *args, **kw):
        self.now.append(("text", text, kw))

    def clear(self, *args, **kw):
        if self.now:
            self.frames.append(self.now)
        self.now = []

    def show(self, *args, **kw):
        self.shown.append((list(self.now), kw))

    def screenshot(self, filename=None, *args, **kw):
        level = 25 + 40 * (len(self.shots) % 6)
        self.shots.append((level, list(self.now)))
        image = np.full((16, 16, 4), 255, dtype=np.uint8)
        image[:, :, :3] = level
        return image

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


def loop(points):
    """The same polygon has the same key whichever corner and direction it starts with."""
    pts = [tuple(float("%.12g" % c) + 0.0 for c in x) for x in points]
    best = None
    for seq in (pts, pts[::-1]):
        for i in range(len(seq)):
            c = tuple(seq[i:] + seq[:i])
            if best is None or c < best:
                best = c
    return best


def cells(mesh):
    polys, lines = [], []
    if mesh.__class__.__name__ != "PolyData":
        mesh = mesh.extract_geometry()
    pts = np.array(mesh.points, float)
    f = np.array(mesh.faces)
    i = 0
    while i < len(f):
        polys.append(loop(pts[f[i + 1:i + 1 + f[i]]]))
        i += 1 + f[i]
    f = np.array(mesh.lines)
    i = 0
    while i < len(f):
        x = pts[f[i + 1:i + 1 + f[i]]]
        lines += [(x[j], x[j + 1]) for j in range(len(x) - 1)]
        i += 1 + f[i]
    return polys, lines


def quad(fl, fr, br, bl):
    return loop(np.array([fl, fr, br, bl], dtype=np.float64))


def panels(airplanes):
    return [(quad(k.front_left_vertex, k.front_right_vertex, k.back_right_vertex, k.back_left_vertex), k) for a in airplanes for w in a.wings for k in np.ravel(w.panels)]


def wakes(s, step):
    fl, fr = s.wake_ring_vortex_front_left_vertices_list[step], s.wake_ring_vortex_front_right_vertices_list[step]
    bl, br = s.wake_ring_vortex_back_left_vertices_list[step], s.wake_ring_vortex_back_right_vertices_list[step]
    return [quad(fl[i], fr[i], br[i], bl[i]) for i in range(len(fl))]


def same_lines(a, b):
    """The same set of segments, in any order and direction, to single precision (that of the plotting library's lines)."""
    if len(a) != len(b) or not a:
        return len(a) == len(b)
    from scipy.spatial import cKDTree
    a, b = np.array(a, float).reshape(-1, 6), np.array(b, float).reshape(-1, 6)
    both = lambda x: np.vstack((x, x[:, [3, 4, 5, 0, 1, 2]]))
    tol = 1e-5 * (np.abs(b).max() + 1e-3)
    return bool((cKDTree(both(b)).query(a)[0] < tol).all() and (cKDTree(both(a)).query(b)[0] < tol).all())


def limits(x):
    """The colour map and its limits, as the documentation of the drawing functions states them."""
    m, sd = np.mean(x), np.std(x)
    if np.sign(np.min(x)) == np.sign(np.max(x)):
        return "speed", [max(m - 3 * sd, np.min(x)), min(m + 3 * sd, np.max(x))]
    return "delta", [-3 * sd, 3 * sd]


def number(text):
    return float(re.findall(r"[-+0-9.eE]+(?=%?$)", text.strip())[0])


def check_frame(ob, what, frame, airplanes, kind, scale, wake, stream, speed):
    """`scale` is None where no scalars are due, else (all scalars that set the colours)."""
    want = panels(airplanes)
    polys, lines, coloured, texts = [], [], [], []
    for tag, x, kw in frame:
        if tag == "text":
            texts.append(x)
            continue
        ps_, ls_ = cells(x)
        sc = kw.get("scalars")
        if sc is not None:
            sc = np.array(x.cell_data[sc] if isinstance(sc, str) else sc, float).ravel()
            ob.equal(len(sc), len(ps_), what + ": coefficients of the coloured mesh")
            coloured.append((ps_, sc, kw))
        polys += ps_
        lines += ls_
    ob.true(sorted(polys) == sorted([w for w, _ in want] + wake), what + ": the polygons shown are not the panels%s (%d shown, %d + %d expected)" % (
        " and wake rings" if wake else "", len(polys), len(want), len(wake)))
    ob.true(same_lines(lines, stream), what + ": the lines shown are not the streamlines (%d shown, %d expected)" % (len(lines), len(stream)))
    if scale is None:
        ob.true(not coloured, what + ": panels are coloured by coefficients although none are due")
    else:
        given = {}
        for ps_, sc, kw in coloured:
            for w, v in zip(ps_, sc):
                given.setdefault(w, []).append(v)
        for w, k in want:
            ob.true(w in given, what + ": a panel is not coloured by its coefficient")
            v = float(getattr(k, ATTR[kind]))
            ob.true(any(abs(g - v) <= 1e-12 * (1 + abs(v)) for g in given[w]), "%s: a panel's %s coefficient is shown as %r instead of %r" % (what, kind, given[w], v))
        cmap, clim = limits(scale)
        for ps_, sc, kw in coloured:
            ob.close(kw.get("clim"), clim, what + ": colour limits", rtol=1e-9, atol=1e-14)
            ob.equal(kw.get("cmap"), cmap, what + ": colour map")
            title = (kw.get("scalar_bar_args") or {}).get("title", "")
            ob.equal(title, kind.title() + " Coefficient", what + ": title of the colour scale")
        for name, v in (("Max", np.max(scale)), ("Min", np.min(scale))):
            t = [x for x in texts if x.startswith(name + ":")]
            ob.equal(len(t), 1, what + ": number of %s labels" % name)
            ob.true(abs(number(t[0]) - v) <= 0.005 + 1e-9, "%s: label %r although the value is %.6g" % (what, t[0], v))
    t = [x for x in texts if x.startswith("Speed:")]
    if speed is None:
        ob.true(not t, what + ": a speed is shown")
    else:
        ob.equal(len(t), 1, what + ": number of speed labels")
        ob.true(abs(number(t[0]) - 100 * speed) <= 0.5 + 1e-6, "%s: label %r at %.4g %% of the true speed" % (what, t[0], 100 * speed))
    ob.true(len(texts) == (2 if scale is not None else 0) + (1 if speed is not None else 0), what + ": labels %r" % texts)
    ob.state(what.split(":")[0], len(polys), len(lines), sorted(polys)[0], texts)
    ob.transitions += 1


def snapshot(s, unsteady):
    out = [aero.totals(s.steady_problems[i].airplanes if unsteady else s.airplanes).tolist() for i in (range(s.first_results_step, s.num_steps) if unsteady else [0])]
    last = s.steady_problems[-1].airplanes if unsteady else s.airplanes
    return out, [(k.lift_coefficient, k.ring_vortex.strength if k.ring_vortex is not None else k.horseshoe_vortex.strength) for _, k in panels(last)], np.array(s.streamline_points).tolist()


def call(fn, *args, **kw):
    """Runs a drawing function with the recorder in an empty folder; returns the recorder and the files written."""
    import pyvista
    Recorder.made = []
    here = os.getcwd()
    d = tempfile.mkdtemp(prefix="draw_")
    os.chdir(d)
    try:
        with redirect_stdout(io.StringIO()), patch.replaced((pyvista, "Plotter", Recorder), (time, "sleep", lambda *_: None)):
            fn(*args, **kw)
    finally:
        os.chdir(here)
        files = {}
        for f in sorted(os.listdir(d)):
            files[f] = read_webp(os.path.join(d, f))
        shutil.rmtree(d)
    return Recorder.made, files


def read_webp(path):
    from PIL import Image, ImageSequence
    im = Image.open(path)
    levels, total = [], 0
    for fr in ImageSequence.Iterator(im):
        fr.load()
        total += fr.info.get("duration", 0)
        levels.append(int(np.asarray(fr.convert("RGB"))[4:12, 4:12].mean()))
    return levels, total


def near(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 12 for x, y in zip(a, b))


def run(p, ob):
    import pterasoftware as ps
    un = p["kind"] == "unsteady"
    if un:
        prob, s = aero.unsteady(p["scene"], p["fin"])
        aero.run_quiet(s, prescribed_wake=not p["free"], calculate_streamlines=True)
        steps = [x.airplanes for x in s.steady_problems]
        last = steps[-1]
    else:
        s = aero.run_quiet(aero.steady_solver(p["kind"], gen.steady_problem(p["aps"], p["op"])))
        last = s.airplanes
    before = snapshot(s, un)
    pts = np.array(s.streamline_points, float)
    stream = [(pts[i, j], pts[i + 1, j]) for j in range(pts.shape[1]) for i in range(len(pts) - 1)]
    shown = []
    for kind in TYPES:
        for lines in (False, True):
            for wake in (False, True) if un or not p["q"] else (False,):
                for save in (False, True):
                    for testing in (False, True) if not p["q"] else (bool(save ^ wake),):
                        what = "draw(%s%s%s%s%s)" % (kind, ", streamlines" * lines, ", wake" * wake, ", save" * save, ", testing" * testing)
                        made, files = call(ps.output.draw, s, scalar_type=kind, show_streamlines=lines, show_wake_vortices=wake, save=save, testing=testing)
                        ob.equal(len(made), 1, what + ": plotters")
                        r = made[0]
                        ob.equal(len(r.shown), 1, what + ": times shown")
                        if testing:
                            ob.true(r.shown[0][1].get("interactive", True) is False, what + ": waits for the user")
                        scale = None if kind is None else np.array([getattr(k, ATTR[kind]) for _, k in panels(last)], float)
                        w = wakes(s, s.num_steps - 1) if un and wake else []
                        for f in [r.shown[0][0]] + [x for _, x in r.shots]:
                            check_frame(ob, what, f, last, kind, scale, w, stream if lines else [], None)
                        ob.equal(sorted(files), ["Draw.webp"] if save else [], what + ": files written")
                        if save:
                            ob.true(near(files["Draw.webp"][0], [r.shots[-1][0]]), what + ": the saved image is not the drawing")
                        shown.append((what, len(r.shown[0][0])))
    if un:
        dt, n, first = s.delta_time, s.num_steps, s.first_results_step
        speed = min(1.0, 50.0 * dt)
        for kind in TYPES:
            scale = None if kind is None else np.array([getattr(k, ATTR[kind]) for i in range(first, n) for _, k in panels(steps[i])], float)
            for wake in (False, True):
                for save in (False, True):
                    for testing in (False, True) if not p["q"] else (bool(save ^ wake),):
                        what = "animate(%s%s%s%s)" % (kind, ", wake" * wake, ", save" * save, ", testing" * testing)
                        made, files = call(ps.output.animate, s, scalar_type=kind, show_wake_vortices=wake, save=save, testing=testing)
                        ob.equal(len(made), 1, what + ": plotters")
                        r = made[0]
                        if testing:
                            ob.true(r.shown[0][1].get("interactive", True) is False, what + ": waits for the user")
                        r.clear()
                        frames = [x for _, x in r.shots] if save else r.frames
                        ob.equal(len(frames), n, what + ": frames")
                        for i, f in enumerate(frames):
                            check_frame(ob, "%s: step %d" % (what, i), f, steps[i], kind, scale if i >= first else None, wakes(s, i) if wake else [], [], speed if save else None)
                        ob.equal(sorted(files), ["Animate.webp"] if save else [], what + ": files written")
                        if save:
                            levels, total = files["Animate.webp"]
                            ob.true(near(levels, [x for x, _ in r.shots]), "%s: the saved frames %r are not the steps' frames in order %r" % (what, levels, [x for x, _ in r.shots]))
                            if n > 1:
                                ob.true(abs(total - 1000 * n * dt / speed) <= 2.0 + 1e-3 * total, "%s: lasts %g ms instead of %g ms" % (what, total, 1000 * n * dt / speed))
                        shown.append((what, len(frames)))
    ob.true(snapshot(s, un) == before, "drawing changed the results")
    ob.traces += len(shown)
    ob.sig(p["kind"], shown, before[0])


warm = aero.warm_all
