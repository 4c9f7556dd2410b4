from itertools import product

from ..core import check
from ..lputil import snap
from . import L10

TITLE = "recorded steps"
BOUNDS = ("All sequences of 2 (thorough: 3 over the core operations) step-recording operations, each shown or hidden, in place or not, on "
          "six programs; every operation is also run on a twin with the opposite switch and the results compared; the recorded steps "
          "are compared before and after every operation; the real step rendering is used. Programs of 11 variables or rows; one operation on programs of 24 to 30.")
ASSUMPTIONS = ["operations without a switch may record steps"]

PROGRAMS = [L10.PROGRAMS[0], L10.PROGRAMS[1], L10.PROGRAMS[2], L10.PROGRAMS[3], L10.PROGRAMS[5],
            L10.P([(1, 1, 1), (1, 1, 1)], (2, 2), (1, 2, 1), "==", "+++", "max", 1)]

# name -> (call(lp, shown), steps of a returned program extend those of the source, core)
OPS = {
    "to_sef": (lambda lp, s: lp.to_sef(*s), True, True),
    "to_sef!": (lambda lp, s: lp.to_sef(*s, in_place=True), True, True),
    "canonical": (lambda lp, s: lp.to_canonical_form(L10.high(lp), *s), True, False),
    "canonical!": (lambda lp, s: lp.to_canonical_form(L10.low(lp), *s, in_place=True), True, True),
    "canonical non-basis": (lambda lp, s: lp.to_canonical_form([1] * len(lp.b) + [1], *s), True, False),
    "iteration": (lambda lp, s: lp.simplex_iteration(L10.low(lp), *s), True, False),
    "iteration!": (lambda lp, s: lp.simplex_iteration(L10.high(lp), *s, in_place=True), True, True),
    "simplex low": (lambda lp, s: lp.simplex(L10.low(lp), *s), False, False),
    "simplex high": (lambda lp, s: lp.simplex(L10.high(lp), *s), False, True),
    "two phase": (lambda lp, s: lp.two_phase_simplex(*s), False, True),
    "solve": (lambda lp, s: lp.solve(*s), False, True),
    "dual": (lambda lp, s: lp.dual(*s), False, True),
    "auxiliary": (lambda lp, s: lp.auxiliary(*s), False, False),
    "feasible zero": (lambda lp, s: lp.is_feasible(L10.vec(lp, 0), *s), False, False),
    "feasible one": (lambda lp, s: lp.is_feasible(L10.vec(lp, 1), *s), False, True),
    "feasible -1": (lambda lp, s: lp.is_feasible(L10.vec(lp, -1), *s), False, False),
    "feasible at optimum": (lambda lp, s: lp.is_feasible(lp.copy().solve(False), *s), False, False),
    "basic ones": (lambda lp, s: lp.is_basic_solution(L10.vec(lp, 1), L10.low(lp), *s), False, False),
    "basic low": (lambda lp, s: lp.is_basic_solution(lp.compute_basic_solution(L10.low(lp)), L10.low(lp), *s), False, True),
    "basic high": (lambda lp, s: lp.is_basic_solution(lp.compute_basic_solution(L10.high(lp)), L10.high(lp), *s), False, False),
    "infeasibility": (lambda lp, s: lp.verify_infeasibility([1.0] * len(lp.b), *s), False, False),
    "unboundedness": (lambda lp, s: lp.verify_unboundedness(L10.vec(lp, 1), L10.vec(lp, 0), *s), False, False),
    "optimality": (lambda lp, s: lp.verify_optimality([1.0] * len(lp.b), *s), False, False),
}
# operations without a switch: they may only append
OTHER = {
    "copy": (lambda lp: lp.copy(), "extends"),
    "row": (lambda lp: lp.add_constraint(L10.vec(lp, 1), "<=", 5), "extends"),
    "row!": (lambda lp: lp.add_constraint(L10.vec(lp, 1), "=", 5, True), "extends"),
    "var!": (lambda lp: lp.add_variable(1, [1.0] * len(lp.b), in_place=True), "extends"),
    "value_of": (lambda lp: lp.value_of(L10.vec(lp, 0)), None),
    "optimal value": (lambda lp: lp.optimal_value(), None),
    "feasible basic": (lambda lp: lp.is_feasible_basic_solution(L10.vec(lp, 0), L10.low(lp)), None),
    "text": (lambda lp: (repr(lp), lp.steps_string) and None, None),
    "clear": (lambda lp: lp.clear_steps(), "cleared"),
    "clear!": (lambda lp: lp.clear_steps(True), "cleared"),
}


def letters(core=False):
    out = [[n, s] for n in OPS if not core or OPS[n][2] for s in (True, False)]
    return out + [[n, None] for n in OTHER if not core or n in ("copy", "row!", "clear", "clear!", "value_of")]


def families(tier):
    t = tier == "thorough"

    def seqs(k, programs, core):
        for p in programs:
            for seq in product(letters(core), repeat=k):
                yield {"p": p, "seq": [list(s) for s in seq]}
    out = [("single operations", lambda: seqs(1, PROGRAMS + L10.WIDE + L10.VAST, False)), ("many variables or rows, pairs", lambda: seqs(2, L10.WIDE[:2], not t)), ("pairs", lambda: seqs(2, PROGRAMS if t else PROGRAMS[:3], False))]
    if t:
        out.append(("triples of core operations", lambda: seqs(3, PROGRAMS[:4], True)))
    return out


def recorded(lp):
    return [(d["key"], d["text"]) for d in lp.steps]


def is_lp(v):
    return hasattr(v, "inequalities")


def programs(v):
    return [w for w in (v if isinstance(v, tuple) else (v,)) if is_lp(w)]


def attempt(f, *args):
    try:
        return "ok", f(*args)
    except Exception as e:  # noqa: B902
        return type(e).__name__, None


def text_ok(lp, what):
    steps = recorded(lp)
    check(all(isinstance(t, str) for _, t in steps), "{}: a step without text", what)
    want = "\n".join(t for _, t in steps)
    check(lp.steps_string.strip() == want.strip(), "{}: the step text {!r} does not list the recorded steps {!r}", what, lp.steps_string, want)


def run(case, ctx):
    lp = L10.create(case["p"], "float")[0]
    kept = []
    for name, shown in case["seq"]:
        before, steps = snap(lp), recorded(lp)
        what = f"{name} ({'steps shown' if shown else 'steps hidden' if shown is False else 'no switch'})"
        if shown is None:
            f, kind = OTHER[name]
            outcome, result = attempt(f, lp)
        else:
            f, extends, _ = OPS[name]
            kind = "extends" if extends else None
            twin = L10.rebuild(lp)
            outcome0, result0 = attempt(f, twin, (not shown,))
            if shown:  # shown is the default
                default = L10.rebuild(lp)
                made = programs(attempt(f, default, ())[1])
                fresh, fresh_made = recorded(default), [recorded(q) for q in made]
            outcome, result = attempt(f, lp, (shown,))
            check(outcome == outcome0 and L10.plain(result) == L10.plain(result0) and (outcome != "ok" or snap(lp) == snap(twin)),
                  "{}: {} {}, but with the other setting {} {}", what, outcome, L10.plain(result), outcome0, L10.plain(result0))
        ctx.call()
        after = recorded(lp)
        if name == "clear!":
            check(result is lp and after == [] and snap(lp) == before, "{}: steps {} are left", what, after)
            check(lp.steps_string.strip() == "", "{}: step text {!r} left", what, lp.steps_string)
        else:
            check(after[:len(steps)] == steps, "{} removed or changed earlier steps: {} became {}", what, steps, after)
        if shown is False or shown is None and name in ("copy", "row", "row!", "var!", "text", "clear"):
            check(after == steps or name == "clear!", "{} recorded {}", what, after[len(steps):])
        if kind == "extends" and programs(result) and programs(result)[0] is not lp or name == "clear":
            check(after == steps, "{} changed the steps of the original: {} became {}", what, steps, after)
        if shown:
            check(after[len(steps):] == fresh, "{} recorded {}, by default {} is recorded", what, after[len(steps):], fresh)
            got = [recorded(q) for q in programs(result)]
            want = [(steps + r if extends and q is not default else r) for r, q in zip(fresh_made, made)] if len(got) == len(made) and all(q is not lp for q in programs(result)) else got
            check(got == want, "{} returned programs with the steps {}, by default {}", what, got, want)
        text_ok(lp, what)
        for q in programs(result):
            got = recorded(q)
            if kind == "cleared":
                check(got == [], "{}: the returned program has steps {}", what, got)
            elif kind == "extends":
                check(got[:len(steps)] == steps, "{}: the returned program lost the earlier steps {}: {}", what, steps, got)
                if not shown:
                    check(got == (after if q is lp else steps), "{}: the returned program has the new steps {}", what, got[len(steps):])
            elif shown is False:
                check(got == [], "{}: the returned program has steps {}", what, got)
            text_ok(q, what)
            if q is not lp:
                kept.append((q, got, what))
        for q, got, w in kept:
            check(recorded(q) == got, "{} changed the steps of the program returned by {}", what, w)
        ctx.state(str(case["p"]), recorded(lp))
