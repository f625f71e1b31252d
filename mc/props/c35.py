"""C35: the GUI runs the example that each menu entry names, every time it is chosen."""
import builtins
import contextlib
import importlib
import importlib.util
import io
import itertools
import os
import re
import runpy
import shutil
import sys
import tempfile

PID = "C35"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of menu action sequences and folder listing orders on the real window, with scripts that record that they ran"
NOTE = ("The real window (drawn off screen) runs in a scratch folder whose examples carry the shipped names and only record that they ran; the order in which the operating system lists the "
        "folder is enumerated. The shipped examples' own results, and how the window looks, are not covered.")
RULE = ("All sequences of menu actions up to a depth, on one window, x listing orders of the examples folder x files that are not examples; a state is (what was chosen so far, what ran so far), "
        "a transition is one menu action.")
BOUND = {"quick": "all 12 actions in sequences up to length 3; every listing order one move of one entry away from alphabetical, reversed or rotated, x all entries; 16 sets of other files",
         "thorough": "all 12 actions in sequences up to length 4; every listing order two swaps away from alphabetical, x all entries; 16 sets of other files x all sequences of length 2"}
CHUNK = 4
NAMES = ["analyze_steady_trim_example", "analyze_unsteady_trim_example", "steady_convergence_example", "steady_horseshoe_vortex_lattice_method_solver",
         "steady_ring_vortex_lattice_method_solver", "unsteady_ring_vortex_lattice_method_solver_static", "unsteady_ring_vortex_lattice_method_solver_variable",
         "unsteady_ring_vortex_lattice_method_solver_variable_formation", "unsteady_static_convergence_example", "unsteady_variable_convergence_example"]
OTHERS = ["__pycache__", "notes.txt", ".DS_Store", "old.pyc"]
REPO = "/repo"


def cases(tier):
    q = tier == "quick"
    n = len(NAMES) + 1
    acts = list(range(10)) + ["about", "text"]
    out = [("the shipped folder", dict(kind="shipped")), ("start of the program", dict(kind="start"))]
    plain = list(range(n))
    for a in acts:
        for b in acts:
            if q:
                out.append(("sequences from %s, %s" % (a, b), dict(kind="seq", first=[a, b], more=acts, depth=1, order=plain, others=[0])))
            else:
                for c in acts:
                    out.append(("sequences from %s, %s, %s" % (a, b, c), dict(kind="seq", first=[a, b, c], more=acts, depth=1, order=plain, others=[0])))
    orders = {tuple(plain), tuple(plain[::-1])}
    for i in range(n):
        orders.add(tuple(plain[i:] + plain[:i]))
        for j in range(n):
            p = list(plain)
            p.insert(j, p.pop(i))
            orders.add(tuple(p))
            p = list(plain)
            p[i], p[j] = p[j], p[i]
            orders.add(tuple(p))
    if not q:
        for a, b in itertools.combinations(range(n), 2):
            for c, d in itertools.combinations(range(n), 2):
                p = list(plain)
                p[a], p[b] = p[b], p[a]
                p[c], p[d] = p[d], p[c]
                orders.add(tuple(p))
    orders = sorted(orders)
    for i in range(0, len(orders), 12):
        out.append(("listing orders from %d" % i, dict(kind="orders", orders=orders[i:i + 12], others=[0])))
    for k in range(16):
        oth = [i for i in range(4) if k >> i & 1]
        for rev in (False, True):
            for at in ("first", "last"):
                out.append(("other files %s, %s%s" % (oth, at, ", reversed" if rev else ""),
                            dict(kind="others", others=oth, rev=rev, at=at, depth=1 if q else 2)))
    return out


_app = None


def app():
    global _app
    if _app is None:
        from PySide6.QtWidgets import QApplication
        _app = QApplication.instance() or QApplication(["main"])
    return _app


def load_main():
    spec = importlib.util.spec_from_file_location("mc_gui_main", os.path.join(REPO, "main.py"))
    m = importlib.util.module_from_spec(spec)
    with contextlib.redirect_stdout(io.StringIO()):
        spec.loader.exec_module(m)
    return m


@contextlib.contextmanager
def listing(order):
    """The operating system lists the examples folder in the given order of names."""
    rank = {n: i for i, n in enumerate(order)}
    real_list, real_scan = os.listdir, os.scandir

    def key(n):
        return rank.get(n, len(rank))

    def is_examples(p):
        try:
            return os.path.basename(os.path.realpath(os.fspath(p))) == "examples"
        except TypeError:
            return False

    def fake_list(p="."):
        got = real_list(p)
        return sorted(got, key=key) if is_examples(p) else got

    class Scan:
        def __init__(self, p):
            with real_scan(p) as it:
                self.got = iter(sorted(it, key=lambda e: key(e.name)))

        def __iter__(self):
            return self.got

        def __next__(self):
            return next(self.got)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass

    def fake_scan(p="."):
        return Scan(p) if is_examples(p) else real_scan(p)

    os.listdir, os.scandir = fake_list, fake_scan
    try:
        yield
    finally:
        os.listdir, os.scandir = real_list, real_scan


@contextlib.contextmanager
def folder(others):
    """A scratch copy of the program's folder: recording examples, and the real README and docs."""
    top = tempfile.mkdtemp()
    ex = os.path.join(top, "examples")
    os.mkdir(ex)
    for n in NAMES + ["__init__"]:
        with open(os.path.join(ex, n + ".py"), "w") as f:
            f.write("" if n == "__init__" else "import builtins\nbuiltins.mc_ran.append(%r)\n" % n)
    for i in others:
        p = os.path.join(ex, OTHERS[i])
        if OTHERS[i] == "__pycache__":
            os.mkdir(p)
        else:
            with open(p, "w") as f:
                f.write("raise SystemError('this is not an example')\n")
    shutil.copy(os.path.join(REPO, "README.md"), top)
    os.symlink(os.path.join(REPO, "docs"), os.path.join(top, "docs"))
    here, path = os.getcwd(), list(sys.path)
    old = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "examples" or k.startswith("examples.")}
    builtins.mc_ran = []
    os.chdir(top)
    sys.path.insert(0, top)
    importlib.invalidate_caches()
    try:
        yield top
    finally:
        os.chdir(here)
        sys.path[:] = path
        forget()
        sys.modules.update(old)
        del builtins.mc_ran
        shutil.rmtree(top)


def forget():
    for k in list(sys.modules):
        if k == "examples" or k.startswith("examples."):
            del sys.modules[k]


def wanted(text):
    """The example a menu text names: the file whose words begin the text after `Example k:`."""
    words = re.findall(r"[a-z0-9]+", text.lower().split(":", 1)[-1])
    best = None
    for n in NAMES:
        w = n.split("_")
        if words[:len(w)] == w and (best is None or len(w) > len(best.split("_"))):
            best = n
    return best


class Gui:
    def __init__(self, ob, main):
        self.ob = ob
        self.w = main.MainWindow()
        self.ran = []
        self.logged = []
        menu = [a for a in self.w.menuExamples.actions() if not a.isSeparator()]
        ob.equal(len(menu), len(NAMES), "entries of the examples menu")
        self.menu = menu
        self.names = [wanted(a.text()) for a in menu]
        ob.equal(sorted(map(str, self.names)), sorted(NAMES), "examples named in the menu")

    def act(self, a, what):
        ob = self.ob
        with contextlib.redirect_stdout(io.StringIO()):
            if a == "about":
                self.w.actionAbout.trigger()
            elif a == "text":
                t = "message %d" % len(self.logged)
                self.w.updateDisplayText(t)
            else:
                self.menu[a].trigger()
        if a == "about":
            text = self.w.dialog.ui.textEdit.toPlainText()
            ob.true(self.w.dialog.isVisible(), "%s: the About dialog is not shown" % what)
            with open(os.path.join(REPO, "README.md")) as f:
                for word in re.findall(r"^#+\s+([A-Za-z ]+)$", f.read(), re.M):
                    ob.true(word.strip() in text, "%s: the About dialog lacks the README's heading %r" % (what, word))
            self.w.dialog.close()
        elif a == "text":
            self.logged.append(t)
            ob.equal(self.w.displayText, t, "%s: display text" % what)
        else:
            self.ran.append(self.names[a])
            self.logged.append(int(re.search(r"Example (\d+)", self.menu[a].text()).group(1)))
        ob.equal(builtins.mc_ran, self.ran, "%s: examples that ran" % what)
        items = [self.w.terminalOutput.item(i).text() for i in range(self.w.terminalOutput.count())]
        ob.equal(len(items), len(self.logged), "%s: lines in the terminal list" % what)
        for got, want in zip(items, self.logged):
            if isinstance(want, str):
                ob.equal(got, want, "%s: line in the terminal list" % what)
            else:
                ob.true(re.findall(r"\d+", got) == [str(want)], "%s: the terminal list says %r for Example %d" % (what, got, want))
        ob.transitions += 1
        ob.state(self.ran, self.logged)

    def close(self):
        self.w.close()
        self.w.deleteLater()
        app().processEvents()


def check(ob, main, seq, what):
    builtins.mc_ran.clear()
    forget()
    g = Gui(ob, main)
    try:
        for i, a in enumerate(seq):
            g.act(a, "%s, after %s" % (what, seq[:i + 1]))
    finally:
        g.close()
    ob.traces += 1


def run(params, ob):
    app()
    kind = params["kind"]
    names = sorted(n + ".py" for n in NAMES + ["__init__"])
    if kind == "shipped":
        have = sorted(f[:-3] for f in os.listdir(os.path.join(REPO, "examples")) if f.endswith(".py") and f != "__init__.py")
        ob.equal(have, sorted(NAMES), "example scripts in the examples folder")
        ob.sig(have)
        return
    if kind == "start":
        return start(ob)
    main = load_main()
    if kind == "seq":
        with folder(params["others"]), listing([names[i] for i in params["order"]]):
            for rest in itertools.product(params["more"], repeat=params["depth"]):
                check(ob, main, list(params["first"]) + list(rest), "choosing")
    elif kind == "orders":
        with folder(params["others"]):
            for o in params["orders"]:
                with listing([names[i] for i in o] + ["__pycache__"]):
                    check(ob, main, list(range(10)), "folder listed in the order %s" % (o,))
    else:
        with folder(params["others"]) as top:
            oth = [OTHERS[i] for i in params["others"]]
            py = names[::-1] if params["rev"] else names
            with listing(oth + py if params["at"] == "first" else py + oth):
                for seq in itertools.product(range(10), repeat=params["depth"]):
                    check(ob, main, list(seq), "with %s in the folder" % oth)
    ob.sig(params)


def start(ob):
    """Running main.py shows the splash picture, then the window, and leaves when the event loop does."""
    from PySide6 import QtWidgets

    seen = {}
    real_app, real_splash, real_sleep = QtWidgets.QApplication, QtWidgets.QSplashScreen, __import__("time").sleep

    class FakeApp:
        def __init__(self, *a):
            pass

        def processEvents(self, *a):
            app().processEvents()

        def exec(self):
            seen["windows"] = [w for w in app().topLevelWidgets() if isinstance(w, QtWidgets.QMainWindow) and w.isVisible()]
            seen["splash visible"] = seen["splash"].isVisible()
            return 0

        exec_ = exec

        def __getattr__(self, k):
            return getattr(app(), k)

        @staticmethod
        def instance():
            return app()

    class Splash(real_splash):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            seen["splash"] = self
            seen["picture"] = (self.pixmap().isNull(), self.pixmap().width(), self.pixmap().height())

    import time
    with folder([]) as top:
        QtWidgets.QApplication, QtWidgets.QSplashScreen, time.sleep = FakeApp, Splash, lambda s: None
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    runpy.run_path(os.path.join(REPO, "main.py"), run_name="__main__")
                    code = 0
                except SystemExit as e:
                    code = e.code
        finally:
            QtWidgets.QApplication, QtWidgets.QSplashScreen, time.sleep = real_app, real_splash, real_sleep
    ob.true(code in (0, None), "the program leaves with %r" % (code,))
    ob.true("splash" in seen and "windows" in seen, "the program started without its splash picture or its event loop")
    ob.true(not seen["picture"][0] and seen["picture"][1] > 1, "the splash picture is empty: its file was not found")
    ob.equal(len(seen["windows"]), 1, "main windows shown")
    ob.true(not seen["splash visible"], "the splash picture stays")
    ob.sig(seen["picture"])
    seen["splash"].close()
    for w in seen["windows"]:
        w.close()
