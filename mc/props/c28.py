"""C28: the unsteady trim analysis returns a state trimmed on average inside the bounds, or none."""
from mc import aero
from mc.props import c27

PID = "C28"
LEVEL = "model_checking"
TECHNIQUE = c27.TECHNIQUE
NOTE = ("Optimizers and solver are replaced by environments that visit every enumerated sequence of states and answers; the analysis must stop at the first state trimmed by its "
        "final (static) or cycle-averaged (moving) loads and return it, or return none. Runs with scipy's optimizers confirm bounds and results; the real solver is not in the loop.")
RULE = c27.RULE.replace("a few airplanes under the real solver; all flight states on and outside the bounds; ", "")
BOUND = {"quick": "1 local and 1 global visit, 3 states, 6 answers; 28 analytic problems; still and moving", "thorough": "up to 2 local and 2 global visits, 3 states, 6 answers; 40 analytic problems; still and moving"}
CHUNK = 1


def cases(tier):
    return c27.cases(tier, "unsteady")


def run(p, ob):
    c27.run(p, ob, "unsteady")


warm = c27.warm
