from .astar_spec import *
from . import C01, C03
from .C03 import setup, shortcut, expand

HARNESS = "c04.cpp"
SECONDS = 6
BOUNDED = "none of the listed functions"
ASSUMPTIONS = C03.ASSUMPTIONS + ["transition costs are non-negative and the heuristic is consistent (the statement's premises)",
                                 "a state that is expanded names its node once: the ghost map from states to expanded nodes is defined at the expansion, and the proof shows that no state is expanded twice"]


def group_expand():
    ex = setup()
    k = shortcut()
    k.assumed, k.note = True, "proved in C03 (shortcut)"
    ex.add(k)
    ex.verify(expand(True))
    return ex


def group_paths():
    """What the postcondition of the search means for paths of any length (induction on the position)."""
    ex = verifier("astar.cpp")
    path, w = z3.Array("path", I, I), z3.Array("cost_so_far", I, R)
    j, i = z3.Ints("j i")
    phi = z3.Function("lower_bound", I, R)
    reach = z3.Function("reached", I, B)
    s = fresh_int("s")
    step = And(0 <= i, i < COUNT(path[j]), NEXT(path[j], i) == path[j + 1], w[j + 1] == w[j] + COST(path[j], i))
    grow = z3.ForAll([s, i], Imp(And(0 <= i, i < COUNT(s)), phi(NEXT(s, i)) <= phi(s) + COST(s, i)), patterns=[NEXT(s, i)])
    ex.lemma("no path of offered transitions costs less than the lower bound (step)", [grow, step, phi(path[j]) <= w[j]], phi(path[j + 1]) <= w[j + 1])
    ex.lemma("no path of offered transitions costs less than the lower bound (start)", [phi(path[0]) == 0, w[0] == 0], phi(path[0]) <= w[0])
    shut = z3.ForAll([s, i], Imp(And(reach(s), 0 <= i, i < COUNT(s)), reach(NEXT(s, i))), patterns=[NEXT(s, i)])
    ex.lemma("a closed set of states that contains the start contains every path (step)", [shut, step, reach(path[j])], reach(path[j + 1]))
    return ex


def groups():
    return [dict(name="priority list: searches", run=C01.group_search), dict(name="priority list", run=C01.group_edits), dict(name="order", run=C03.group_order), dict(name="shortcut", run=C03.group_shortcut), dict(name="best-first expansion", run=group_expand), dict(name="best-first search", run=lambda: C03.group_search(True)), dict(name="paths", run=group_paths)]
