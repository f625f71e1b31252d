"""C08: vortex objects stay consistent under every sequence of updates."""
import collections

import numpy as np

from mc import gen

PID = "C08"
LEVEL = "model_checking"
TECHNIQUE = "breadth-first explicit-state exploration of update sequences on the real vortex objects"
NOTE = ("Every sequence of strength and position updates up to the depth over a small alphabet is executed on real objects and compared with a plain "
        "record of the last values; histories are never merged, so hidden stale state cannot be missed.")
RULE = ("All sequences over {4 strengths, 3 near positions, or 4 far and small ones} for rings (with new arrays or with the ring's own arrays changed in place and handed over again; and, to a smaller depth, over every subset of the four corners moved to each position) and {4 strengths} for horseshoes from 3 initial constructions each; every state is "
        "compared with a plain record after every transition; outcomes are distinct (construction, final state) pairs.")
BOUND = {"quick": "depth 4 (2 for corner-subset moves); 3 near and 4 far or small places", "thorough": "depth 6 (3 for corner-subset moves)"}
POS = [[(0, 0, 0), (0, 1, 0), (1, 0, 0), (1, 1, 0)], [(0.1, 0.2, 0.3), (0.1, 1.4, 0.2), (1.3, -0.1, 0.4), (1.1, 1.2, -0.6)],
       [(5, 5, 5), (4, 6, 5), (5, 5, 7), (4, 6.5, 7)],
       # Far away, a nudge from there, and small.
       [(1000, 0, 0), (1000, 1, 0), (1001, 0, 0), (1001, 1, 0)], [(1000.005, 0, 0), (1000.005, 1, 0), (1001.005, 0, 0), (1001.005, 1, 0)],
       [(0, 0, 0), (0, 2e-6, 0), (1e-6, 0, 1e-7), (1e-6, 2e-6, 0)]]
FAR = (3, 4, 5, 0)
CORNERS = ("front_left_vertex", "front_right_vertex", "back_left_vertex", "back_right_vertex")
STR = [1.0, -3.5, 0.0, None]


def cases(tier):
    d = 4 if tier == "quick" else 6
    return [("ring from position %d" % i, dict(kind="ring", i=i, depth=d)) for i in range(3)] + \
           [("ring from position %d, corner by corner" % i, dict(kind="ring", i=i, depth=2 if tier == "quick" else 3, corners=True)) for i in range(3)] + \
           [("ring from place %d, places far and small" % i, dict(kind="ring", i=i, depth=d, far=True)) for i in FAR] + \
           [("ring from position %d, arrays changed in place and handed over again" % i, dict(kind="ring", i=i, depth=d, inplace=True)) for i in range(3)] + \
           [("horseshoe %d" % i, dict(kind="shoe", i=i, depth=d)) for i in range(3)]


def arr(v):
    return gen.vec(v)


def same(ob, got, want, what):
    ob.close(got, want, what, rtol=1e-14, atol=0)


def check_leg(ob, leg, a, b, s, what):
    same(ob, leg.origin, a, what + " origin")
    same(ob, leg.termination, b, what + " end")
    ob.close(leg.vector, b - a, what + " vector", rtol=1e-14, atol=1e-15 * np.abs([a, b]).max())
    ob.close(leg.center, (a + b) / 2, what + " center", rtol=1e-13, atol=0)
    ob.equal(leg.strength, s, what + " strength")


def check_ring(ob, r, pos, s):
    fl, fr, bl, br = (arr(v) for v in pos)
    for n, v in zip(CORNERS, (fl, fr, bl, br)):
        same(ob, getattr(r, n), v, n)
    ob.equal(r.strength, s, "strength")
    check_leg(ob, r.front_leg, fr, fl, s, "front leg")
    check_leg(ob, r.left_leg, fl, bl, s, "left leg")
    check_leg(ob, r.back_leg, bl, br, s, "back leg")
    check_leg(ob, r.right_leg, br, fr, s, "right leg")
    ob.close(r.center, (fl + fr + bl + br) / 4, "center", rtol=1e-13, atol=0)


def run(p, ob):
    import pterasoftware as ps
    A = ps.aerodynamics
    # (An array of integers cannot be changed in place to other numbers.)
    gen.WHOLE = gen.WHOLE and not p.get("inplace")

    def make_ring(i, s):
        fl, fr, bl, br = (arr(v) for v in POS[i])
        return A.RingVortex(front_left_vertex=fl, front_right_vertex=fr, back_left_vertex=bl, back_right_vertex=br, strength=s)

    def make_shoe(i, s):
        fl, fr = arr(POS[i][0]), arr(POS[i][1])
        d = [arr((1, 0, 0)), arr((0.8, 0, 0.6)), arr((0.6, -0.8, 0))][i]
        L = [20.0, 3.5, 1000.0][i]
        return A.HorseshoeVortex(finite_leg_origin=fr, finite_leg_termination=fl, strength=s, infinite_leg_direction=d, infinite_leg_length=L), fr, fl, d, L

    def build(hist):
        """A fresh real object, with the history replayed on it."""
        obj = make_ring(p["i"], STR[0]) if p["kind"] == "ring" else make_shoe(p["i"], STR[0])[0]
        for op, k in hist:
            apply(obj, op, k)
        return obj

    def apply(obj, op, k):
        if op == "s":
            obj.update_strength(STR[k])
        else:
            # Corners outside the subset are handed the place they already have.
            new = [arr(POS[k[0]][c]) if k[1] >> c & 1 else np.array(getattr(obj, CORNERS[c]), dtype=float) for c in range(4)]
            if p.get("inplace"):
                held = [getattr(obj, n) for n in CORNERS]
                for a, v in zip(held, new):
                    a[:] = v
                new = held
            fl, fr, bl, br = new
            obj.update_position(front_left_vertex=fl, front_right_vertex=fr, back_left_vertex=bl, back_right_vertex=br)

    def check(obj, pos, s):
        if p["kind"] == "ring":
            check_ring(ob, obj, [POS[pos[c]][c] for c in range(4)], STR[s])
        else:
            _, fr, fl, d, L = make_shoe(p["i"], 1.0)
            ob.equal(obj.strength, STR[s], "strength")
            same(ob, obj.right_leg_origin, fr + d * L, "far right end")
            same(ob, obj.left_leg_termination, fl + d * L, "far left end")
            check_leg(ob, obj.right_leg, fr + d * L, fr, STR[s], "right leg")
            check_leg(ob, obj.finite_leg, fr, fl, STR[s], "finite leg")
            check_leg(ob, obj.left_leg, fl, fl + d * L, STR[s], "left leg")

    ops = [("s", k) for k in range(len(STR))] + ([("p", (k, m)) for k in (FAR if p.get("far") else range(3)) for m in (range(16) if p.get("corners") else (15,))] if p["kind"] == "ring" else [])
    start = ((p["i"],) * 4, 0)
    check(build([]), *start)
    if p["kind"] == "ring":
        ob.equal(build([]).age, 0, "age of a new ring")
    frontier = collections.deque([([], start)])
    ob.state(p["kind"], p["i"], start)
    while frontier:
        hist, st = frontier.popleft()
        if len(hist) == p["depth"]:
            continue
        for op, k in ops:
            nxt = (st[0], k) if op == "s" else (tuple(k[0] if k[1] >> c & 1 else st[0][c] for c in range(4)), st[1])
            obj = build(hist + [(op, k)])
            other = make_ring((p["i"] + 1) % 3, 7.0) if p["kind"] == "ring" else make_shoe((p["i"] + 1) % 3, 7.0)[0]
            check(obj, *nxt)
            ob.true(other.strength == 7.0, "a second vortex is untouched")
            ob.transitions += 1
            ob.traces += 1
            ob.state(p["kind"], p["i"], nxt)
            # Histories are not merged: hidden state (say, a stale leg) could differ between equal records.
            frontier.append((hist + [(op, k)], nxt))
    ob.sig(p)
