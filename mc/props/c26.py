"""C26: the unsteady convergence analysis analyses the given movement and returns the documented parameters."""
import itertools

import numpy as np

from mc import aero, gen, search
from mc.props import c01, c17, c25

PID = "C26"
LEVEL = "model_checking"
TECHNIQUE = "stateless exploration of every choice the solver could make for every simulation, with the real analysis, against an explicit decision model"
NOTE = ("The aerodynamic solver is replaced by a demonic environment that answers every request with every value of an alphabet; all answer sequences are explored "
        "on the real analysis and every result compared with the documented rule. Requested movements are compared with the reference.")
RULE = ("All answer sequences over the alphabet, cut where the analysis returns, for each set of bounds, wake choice, mask and kind of motion; plus all wings within one "
        "deviation of two base wings and every motion parameter; a state is the table of answers so far; outcomes are distinct (answers, result) pairs.")
BOUND = {"quick": "grids up to 4 simulations with 3 or 4 answers each, 8 with 2; wings at k = 1", "thorough": "grids up to 6 simulations with 4 answers each, 16 with 2; wings at k = 2"}
CHUNK = 1


def vec(*dev):
    v = [1.0, -0.5, 2.0, 0.3, 0.7, -1.5]
    for i, f in dev:
        v[i] *= f
    return v


# Per airplane six coefficients; the last two answers of each alphabet differ in one coefficient only.
ONE = [[vec()], [vec((0, 1.03))], [vec((2, 1.051))], [vec((5, 1.3))]]
TIES = [[vec()], [vec((0, 1.0499995))], [vec((2, 1.0500005))], [vec((5, 0.9499995))]]
SMALL = [[vec()], [vec((1, 1.00019999))], [vec((3, 1.00020001))], [vec((4, 0.99985))]]
MASKED = [[vec((1, 3.0))], [vec((1, -1.0), (4, 1.2))], [vec((0, -1.0))], [vec((3, 0.97))]]
TWO = [[vec(), vec()], [vec((4, 1.3)), vec()], [vec(), vec((3, 0.7))]]


def formation(n):
    X = aero.X
    return [gen.airplane([gen.wing([X(0, 0, 0, 1.0, ns=1), X(0, 6, 0, 1.0)], nc=1, x=5.0 * i, sp="uniform")]) for i in range(n)]


def cases(tier):
    q = tier == "quick"
    out = []

    def tree(name, first=1, **p):
        p = dict(dict(kind="tree", n=1, wakes=(True, True), lens=(1, 1), ars=(3, 3), ncs=(1, 1), crit=5.0, mask=None, moving=False, alpha=ONE), **p)
        for f in itertools.product(range(len(p["alpha"])), repeat=first):
            out.append(("%s first=%s" % (name, f), dict(p, first=list(f))))
    # One or two dimensions with four answers, and then more dimensions with two.
    dims = {"wake": dict(wakes=(True, True)), "length": dict(lens=(1, 2)), "aspect ratio": dict(ars=(3, 2)), "saturating aspect ratio": dict(ars=(2, 1)), "chord": dict(ncs=(1, 2))}
    single = dict(wakes=(True, False), lens=(2, 2), ars=(3, 3), ncs=(2, 2))
    for moving in (False, True):
        for a, b in itertools.combinations(dims, 2):
            if "aspect ratio" in a and "aspect ratio" in b:
                continue
            for w in ((True, False), (False, True)) if "wake" not in (a, b) else ((True, True),):
                for nm, alpha, mask in (("all", ONE, None), ("masked", MASKED, [True, False, True, True, False, True])):
                    if q and (nm == "masked" or (a, b) != ("length", "chord")) and w == (False, True):
                        continue
                    if q:
                        alpha = alpha[:3] if nm == "masked" else [alpha[0], alpha[2], alpha[3]] if moving else alpha
                    tree("%s, %s, %s, %s, %s" % (a, b, w, nm, "moving" if moving else "static"), 2, **dict(dict(single, wakes=w), **{k: v for d in (dims[a], dims[b]) for k, v in d.items()},
                                                                                                       alpha=alpha, mask=mask, moving=moving))
        for a, b, c in itertools.combinations(dims, 3):
            if "aspect ratio" in a + b and "aspect ratio" in (b + c if a == "wake" or a == "length" else c) and sum("aspect" in x for x in (a, b, c)) > 1:
                continue
            tree("%s, %s, %s, %s" % (a, b, c, "moving" if moving else "static"), 2, **dict(single, **{k: v for d in (dims[a], dims[b], dims[c]) for k, v in d.items()},
                                                                                        alpha=[ONE[0], ONE[3]], moving=moving))
        tree("formation, %s" % moving, 1, **dict(single, n=2, lens=(1, 2), ncs=(1, 2), alpha=TWO, moving=moving))
        for nm, alpha, crit in (("5", TIES, 5.0), ("0.02", SMALL, 0.02)):
            tree("near ties %s in chords, %s" % (nm, moving), 1, **dict(single, ncs=(1, 3), moving=moving, crit=crit, alpha=alpha))
            tree("near ties %s in lengths, %s" % (nm, moving), 1, **dict(single, lens=(1, 3), moving=moving, crit=crit, alpha=alpha))
            tree("near ties %s in wakes, %s" % (nm, moving), 1, **dict(single, wakes=(True, True), moving=moving, crit=crit, alpha=alpha))
            tree("near ties %s in aspect ratios, %s" % (nm, moving), 1, **dict(single, ars=(3, 1), moving=moving, crit=crit, alpha=alpha))
        tree("single everything, %s" % moving, 1, **dict(single, moving=moving))
        tree("three lengths, %s" % moving, 1, **dict(single, lens=(1, 3), moving=moving, crit=1.0))
        tree("three chords, %s" % moving, 1, **dict(single, ncs=(1, 3), moving=moving, crit=30.5))
        if not q:
            tree("everything, %s" % moving, 6, wakes=(True, True), lens=(1, 2), ars=(3, 2), ncs=(1, 2), alpha=[ONE[0], ONE[3]], moving=moving)
            tree("everything to 1, %s" % moving, 6, wakes=(True, True), lens=(1, 2), ars=(2, 1), ncs=(1, 2), alpha=[ONE[1], ONE[2]], moving=moving)
            tree("long, %s" % moving, 2, **dict(single, lens=(1, 3), ncs=(1, 2), moving=moving))
            tree("fine, %s" % moving, 2, **dict(single, ars=(3, 1), ncs=(1, 2), moving=moving))
    for b, base in (("plain", c01.PLAIN), ("full", dict(c01.FULL, nc=2))):
        for key, p in gen.named(b, gen.deviations(c01.SPACE, base, 1 if q else 2)):
            if c01.legal(p):
                out.append(("mesh " + key, dict(kind="mesh", wing=c01.spec(p), dev={})))
        for f in c01.FRAMES:
            for side in (1.0, -1.0):
                out.append(("mesh %s, frame %g,%g,%g side=%g" % ((b,) + f + (side,)), dict(kind="mesh", wing=c01.turned(c01.spec(dict(base, side=side)), f), dev={})))
    out.append(("mesh winglet", dict(kind="mesh", wing=c25.winglet(), dev={})))
    names = [(lv, nm) for lv in ("root", "sec", "wing", "ap") for nm in {"root": ("pa",), "sec": ("sa", "pa", "ha"), "wing": ("xa", "ya", "za"), "ap": ("xa", "ya", "za")}[lv]] + [("op", "va")]
    for lv, nm in names:
        for sh in ("sine", "uniform") + (("custom",) if lv in ("root", "sec") else ()):
            out.append(("motion %s %s %s" % (lv, nm, sh), dict(kind="mesh", wing=c01.spec(dict(c01.FULL, nc=1)), dev={(lv, nm): sh})))
    out.append(("motion of everything", dict(kind="mesh", wing=c01.spec(dict(c01.FULL, nc=1)), dev={k: ("sine", "uniform")[i % 2] for i, k in enumerate(names)})))
    return out


def decide(p, table):
    W = [w for w, on in zip((True, False), p["wakes"]) if on]
    L = list(range(p["lens"][0], p["lens"][1] + 1))
    A = list(range(p["ars"][0], p["ars"][1] - 1, -1))
    C = list(range(p["ncs"][0], p["ncs"][1] + 1))
    mask = p["mask"] or [True] * 6

    def change(new, old):
        return max(100 * abs((x - y) / y) for a, b in zip(new, old) for x, y, m in zip(a, b, mask) if m)
    for iw, il, ia, ic in itertools.product(range(len(W)), range(len(L)), range(len(A)), range(len(C))):
        here = (W[iw], L[il], A[ia], C[ic])
        if here not in table:
            return None
        now = table[here]
        okw = iw > 0 and change(now, table[W[iw - 1], L[il], A[ia], C[ic]]) < p["crit"]
        okl = il > 0 and change(now, table[W[iw], L[il - 1], A[ia], C[ic]]) < p["crit"]
        oka = ia > 0 and change(now, table[W[iw], L[il], A[ia - 1], C[ic]]) < p["crit"]
        okc = ic > 0 and change(now, table[W[iw], L[il], A[ia], C[ic - 1]]) < p["crit"]
        if (okw or len(W) == 1 or not W[iw]) and (okl or len(L) == 1) and (oka or len(A) == 1 or A[ia] == 1) and (okc or len(C) == 1):
            return [W[iw - 1] if okw else W[iw], L[il - 1] if okl else L[il], A[ia - 1] if oka else A[ia], C[ic - 1] if okc else C[ic]]
    return [None, None, None, None]


def answer(prob, values, moving, salt):
    """Loads in the places a real run fills for this kind of problem; what must not be read gets other numbers."""
    for kind in ("", "_mean", "_rms"):
        for nm in ("forces", "force_coefficients", "moments", "moment_coefficients"):
            real = kind == ("_rms" if moving else "") and nm.endswith("coefficients")
            filled = (kind != "") == moving
            rows = []
            for i, v in enumerate(values):
                part = v[:3] if nm.startswith("force") else v[3:]
                rows.append(np.array(part if real else [salt * 7.0 + i, salt ** 2 + 1.0, -salt]))
            setattr(prob, "final%s_near_field_%s_wind_axes" % (kind, nm), rows if filled else [])


def stubbed(stub, fn):
    import pterasoftware as ps
    U = ps.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver
    saved = U.run
    U.run = stub
    try:
        return fn()
    finally:
        U.run = saved


def run(p, ob):
    import pterasoftware as ps
    c25.quiet()
    if p["kind"] == "mesh":
        return mesh(p, ob)
    aps = formation(p["n"])
    T = 0.125  # One cycle is as long as the flow needs for one chord, with no rounding.
    ams = aero.moving(aps, sec=dict(pa=1.0, pT=T)) if p["moving"] else gen.still(aps)
    m = gen.build_movement(aps, ams, gen.op(v=8.0), gen.OM, dict(gen.MV, steps=1, dt=0.1))
    prob = ps.problems.UnsteadyProblem(movement=m)
    ns = {}
    for a in range(p["ars"][0], p["ars"][1] - 1, -1):
        for c in range(p["ncs"][0], p["ncs"][1] + 1):
            ns[c, max(1, round(6 * c / a))] = (a, c)
    results = []

    def execution(choose):
        table = {}

        def stub(self, logging_level="Warning", prescribed_wake=True, calculate_streamlines=True):
            q = self.unsteady_problem
            w = q.steady_problems[0].airplanes[0].wings[0]
            ob.true((w.num_chordwise_panels, w.num_spanwise_panels) in ns, "a mesh within the bounds: %s" % ((w.num_chordwise_panels, w.num_spanwise_panels),))
            a, c = ns[w.num_chordwise_panels, w.num_spanwise_panels]
            # One chord (or one cycle) takes as many steps as there are chordwise panels here.
            length = q.num_steps / c
            cell = (bool(prescribed_wake), int(round(length)), a, c)
            ob.true(abs(length - cell[1]) < 1e-9 and p["lens"][0] <= cell[1] <= p["lens"][1], "a wake length within the bounds: %g" % length)
            ob.true(cell not in table, "each simulation is run once")
            ob.true(p["wakes"][0 if cell[0] else 1], "only the requested kinds of wake")
            ob.equal(len(q.steady_problems[0].airplanes), p["n"], "airplanes")
            table[cell] = p["alpha"][choose(len(p["alpha"]))]
            answer(q, table[cell], p["moving"], len(table))
            ob.state(p["wakes"], p["lens"], p["ars"], p["ncs"], p["moving"], sorted(table.items()))
            ob.transitions += 1
        got = stubbed(stub, lambda: ps.convergence.analyze_unsteady_convergence(
            prob, prescribed_wake=p["wakes"][0], free_wake=p["wakes"][1], num_cycles_bounds=p["lens"] if p["moving"] else (9, 8), num_chords_bounds=(9, 8) if p["moving"] else p["lens"],
            panel_aspect_ratio_bounds=p["ars"], num_chordwise_panels_bounds=p["ncs"], coefficient_mask=p["mask"], convergence_criteria=p["crit"]))
        want = decide(p, table)
        ob.true(list(got) == want, "answers %s: got %s, expected %s" % (sorted(table.items()), got, want))
        ob.traces += 1
        results.append((sorted(table.items()), list(got)))
    search.every_choice(execution, p["first"])
    ob.note("executions", len(results))
    ob.sig(p["moving"], results)


def mesh(p, ob):
    import pterasoftware as ps
    w = dict(p["wing"])
    aps = [gen.airplane([w], x=0.3, z=0.2, name="ref", weight=5.0)]
    lv = {"root": {}, "sec": {}, "wing": {}, "ap": {}, "op": {}}
    # num_chords or num_cycles bounds below ask for one or two lengths.
    for i, ((level, nm), sh) in enumerate(sorted(p["dev"].items())):
        c = nm[0]
        lv[level].update({nm: 0.2 + 0.01 * i, c + "T": 0.05 + 0.01 * i})
        if level in ("root", "sec"):
            lv[level][{"s": "ss", "p": "psp", "h": "hs"}[c]] = sh
            if sh == "custom":
                lv[level][c + "f"] = "mix"
        elif level == "op":
            lv[level]["vs"] = sh
        else:
            lv[level][c + "s_"] = sh
    ams = aero.moving(aps, sec=lv["sec"], root=lv["root"], wing=lv["wing"], ap=lv["ap"])
    m = gen.build_movement(aps, ams, gen.op(v=10.0, b=2.0, nu=1e-6), dict(gen.OM, **lv["op"]), dict(gen.MV, steps=2, dt=0.05))
    prob = ps.problems.UnsteadyProblem(movement=m)
    moving = bool(p["dev"])
    todo = [(wk, n, a, c) for wk in (True, False) for n in (1, 2) for a in (3, 2) for c in (3, 4)]
    if moving:
        todo = [(wk, n, a, c) for wk in (True, False) for n in (1,) for a in (2,) for c in (3,)]
    seen, sig = [], []

    def stub(self, logging_level="Warning", prescribed_wake=True, calculate_streamlines=True):
        wk, n, a, c = todo[len(seen)]
        q = self.unsteady_problem
        what = "%s: " % (todo[len(seen)],)
        ob.equal(bool(prescribed_wake), wk, what + "kind of wake")
        am, ram = q.movement.airplane_movements[0], m.airplane_movements[0]
        same_motion(ob, am, ram, what)
        same_motion(ob, q.movement.operating_point_movement, m.operating_point_movement, what)
        ob.true(c17.freeze(q.movement.operating_point_movement.base_operating_point) == c17.freeze(m.operating_point_movement.base_operating_point), what + "operating point")
        ap, rap = am.base_airplane, ram.base_airplane
        ob.equal((ap.name, ap.x_ref, ap.y_ref, ap.z_ref, ap.weight), (rap.name, rap.x_ref, rap.y_ref, rap.z_ref, rap.weight), what + "airplane")
        counts = c25.section_counts(w, a, c)
        for wm, rwm in zip(am.wing_movements, ram.wing_movements):
            same_motion(ob, wm, rwm, what)
            c25.same_wing(ob, wm.base_wing, rwm.base_wing, counts, c, what)
            ob.equal(len(wm.wing_cross_section_movements), len(rwm.wing_cross_section_movements), what + "section movements")
            for xm, rxm in zip(wm.wing_cross_section_movements, rwm.wing_cross_section_movements):
                same_motion(ob, xm, rxm, what)
        for sp in q.steady_problems:
            c25.same_wing(ob, sp.airplanes[0].wings[0], sp.airplanes[0].wings[0], counts, c, what)
            ob.equal([x.num_spanwise_panels for x in sp.airplanes[0].wings[0].wing_cross_sections][:-1], [x.num_spanwise_panels for x in ap.wings[0].wing_cross_sections][:-1], what + "panels")
        sig.append([q.num_steps, q.delta_time] + [x.num_spanwise_panels for x in ap.wings[0].wing_cross_sections])
        seen.append(1)
        answer(q, [[2.0 ** len(seen)] * 6], moving, len(seen))
    kw = dict(num_cycles_bounds=(1, 1), panel_aspect_ratio_bounds=(2, 2), num_chordwise_panels_bounds=(3, 3)) if moving else dict(num_chords_bounds=(1, 2), panel_aspect_ratio_bounds=(3, 2),
                                                                                                                           num_chordwise_panels_bounds=(3, 4))
    got = stubbed(stub, lambda: ps.convergence.analyze_unsteady_convergence(prob, **kw))
    ob.equal(len(seen), len(todo), "simulations run")
    ob.equal(list(got), [False, 1, 2, 3] if moving else [None] * 4, "result")
    ob.sig(sig, gen.short(w), p["dev"])


def same_motion(ob, x, r, what):
    n = 0
    for k, v in vars(r).items():
        if k.endswith(("_amplitude", "_period", "_spacing", "_function")):
            ob.true(getattr(x, k) == v, "%s%s: got %r, expected %r" % (what, k, getattr(x, k), v))
            n += 1
    ob.true(n > 0, "motion parameters")


def warm():
    gen.build_airplane(formation(1)[0])
