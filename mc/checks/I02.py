from fractions import Fraction as F
from itertools import product

from .. import gen, lpref, stub
from ..core import check
from ..lputil import raises, snap
from . import I01

TITLE = "integer programs: relaxation, copies, feasibility"
BOUNDS = ("Every relation, sign, sense and integral-variable set over coefficient lists for 1 to 3 variables; every point of a grid of halves, each also "
          "moved by 1e-12, 1e-3 and (integral variables) 4e-9 to 1e-6, asked of the program, its copy, its relaxation and of programs grown from it by every sequence of up to 2 "
          "(thorough: 3) copy / in-place row additions; programs with up to 21 variables (thorough: 101), every pair of variables moved by a half; boxed ones are also solved by branch and bound through the derived program. A fixed selection of every family also by seven detours (the program copied, its last row or variable added later, another program handled first) with every query asked before.")
ASSUMPTIONS = ["adding variables to an integer program is outside the property"]

SETS = {1: [None, [], [1]], 2: [None, [], [1], [2], [2, 1]], 3: [None, [], [2], [3, 1], [1, 2, 3]]}
QUICK = {2: [None, [2], [2, 1]], 3: [None, [3, 1]]}
STEPS = ("copy", "row", "row!", "row=", "relax of copy")


def plain_families(tier):
    t = tier == "thorough"

    def over(ps, lengths):
        for p in ps:
            for integral in SETS[len(p["c"])] if t or len(p["c"]) == 1 else QUICK[len(p["c"])]:
                for k in lengths:
                    for seq in product(STEPS, repeat=k):
                        yield {"p": p, "integral": integral, "seq": list(seq)}

    return [
        ("1x1", lambda: over(gen.full(1, 1, (-2, 1), [(-1,), (3,)], [(2,)], (0, 3)), (0, 1))),
        ("1x2", lambda: over(gen.over([[(1, 2)], [(2, -1)]], [(1,), (0,)], [(1, -2)], (1,)), (0, 1))),
        ("2x2", lambda: over(gen.over([[(1, 1), (1, -1)], [(2, 1), (0, 1)]], [(2, 1)], [(1, -2)], (-1,), objs=("max", "min") if t else ("min",)), (0, 1) if t else (0,))),
        ("1x3", lambda: over(gen.over([[(1, 1, -1)]], [(1,)], [(1, 2, -1)], (0,), objs=("max",)), (0, 1))),
        ("2x2 grown", lambda: over(gen.over([[(2, 3), (3, -1)]], [(7, 4)], [(3, 4)], (2,), signs="+f" if not t else "+-f", objs=("max", "min") if t else ("max",)), (2, 3) if t else (2,))),
        ("boxed", lambda: over(({k: v for k, v in p.items() if k != "integral"} for p in
                                I01.boxed([(2, 3)], [(7,), (5,)], [("<=",), (">=",)], ("++", "f-", "-+"), [(3, 4), (-1, 2)], ("max", "min"), -2, 3, [None])), (1, 2) if t else (1,))),
    ]


def many_sets(n):
    """Sets of integral variables whose numbers have one and two digits."""
    return [None, [], [n], [1], [n, 1, 2], [10], [n - 1, n], list(range(1, n, 2)), list(range(n, 0, -3))]


def many(tier):
    for n in (10, 12, 21) if tier != "thorough" else (9, 10, 11, 12, 15, 21, 32, 101):
        for integral in many_sets(n):
            for sign in ("+" * n, ("+-f" * n)[:n], "f" * (n - 1) + "-"):
                for rel in ("<=", "="):
                    yield {"many": n, "integral": integral, "sign": sign, "rel": rel}


def families(tier):
    fams = plain_families(tier) + [("many variables", lambda: many(tier))]
    return fams + lpref.warmed(fams, 150 if tier == "thorough" else 30)


def run_many(case, ctx):
    """Feasibility, relaxation, copies and branch and bound of a program with many variables."""
    from pytimize.programs import IntegerProgram, LinearProgram
    n, integral, sign, rel = case["many"], case["integral"], case["sign"], case["rel"]
    side = [-1 if s == "-" else 1 for s in sign]
    A = [[float(side[j]) for j in range(n)]] + [[0.0] * n]
    free = [j + 1 for j in range(n) if sign[j] == "f"]
    negative = [j + 1 for j in range(n) if sign[j] == "-"]
    make = lambda: IntegerProgram(A, [4.0, 3.0], [1.0] * n, 0, "max", [rel, "<="], free, negative, integral_variables=None if integral is None else list(integral))  # noqa: E731
    root = make()
    whole = set(range(1, n + 1)) if integral is None else set(integral)
    programs = [root, root.copy(), root.add_constraint([0.0] * n, "<=", 1, in_place=False)]
    relaxed = [p.relax() for p in programs] + [root.copy().relax()]
    before = [snap(p) for p in programs]
    for k, p in enumerate(relaxed):
        check(type(p) is LinearProgram and snap(p) == snap(LinearProgram(*root_data(A, n, rel, free, negative, k == 2))), "relaxation {} is {}", k, snap(p))
    ctx.state(n, integral, sign, rel)
    for i in range(n):
        for j in range(n):
            for half in (F(1, 2), F(3, 2)):
                x = [F(0)] * n
                x[i] += half * side[i]
                x[j] += (4 - half) * side[j]
                good = all(v.denominator == 1 for k, v in enumerate(x, 1) if k in whole)
                fx = [float(v) for v in x]
                for k, p in enumerate(programs):
                    check(bool(p.is_feasible(fx, False)) == good, "program {}: {} is judged wrongly with integral variables {}", k, fx, integral)
                for k, p in enumerate(relaxed):
                    check(bool(p.is_feasible(fx, False)), "relaxation {}: {} is rejected", k, fx)
                ctx.call(len(programs) + len(relaxed))
    for i in range(n):  # beyond the row, or of the wrong sign
        x = [0.0] * n
        x[i] = 5.0 * side[i]
        y = [0.0] * n
        y[i] = -1.0 * side[i]
        for p in programs + relaxed:
            check(not p.is_feasible(x, False), "{} is accepted", x)
            check(bool(p.is_feasible(y, False)) == (sign[i] == "f" and rel == "<="), "{} is judged wrongly", y)
    check([snap(p) for p in programs] == before, "asking changed a program")
    if "f" not in sign and rel == "<=" and n <= 12:
        boxed = IntegerProgram(A[:1] + [[2.0 * side[j] if k == j else 0.0 for k in range(n)] for j in range(n)], [100.0] + [3.0] * n, [float(side[j] * (j + 1)) for j in range(n)], 0, "max", ["<="] * (n + 1), None, negative,
                               integral_variables=None if integral is None else list(integral))
        want = sum((j + 1) * (1 if j + 1 in whole else 1.5) for j in range(n))
        x = boxed.branch_and_bound()
        ctx.call()
        check(x is not None and abs(boxed.value_of(x) - want) < 1e-6, "branch and bound gives {}, the optimum is {}", x, want)


def root_data(A, n, rel, free, negative, more):
    return (A + [[0.0] * n] * more, [4.0, 3.0] + [1.0] * more, [1.0] * n, 0, "max", [rel, "<="] + ["<="] * more, free, negative)


def run(case, ctx):
    if "many" in case:
        return run_many(case, ctx)
    import numpy as np
    from pytimize.programs import IntegerProgram, LinearProgram
    stub.fast_steps()
    p, integral = case["p"], case["integral"]
    n = len(p["c"])
    given = None if integral is None else list(integral)
    root = lpref.build(p, IntegerProgram, integral_variables=given)
    programs = [(root, p)]
    ip, q = root, p
    snaps = [snap(root)]
    for step in case["seq"]:
        before = snap(ip)
        ctx.call()
        if step == "copy":
            new = ip.copy()
        elif step == "relax of copy":
            relaxed = ip.copy().relax()
            check(type(relaxed) is LinearProgram and snap(relaxed)[:9] == before[:9], "the relaxation of a copy is {} instead of {}", snap(relaxed), before)
            relaxed.A[:] = 9
            relaxed.add_constraint([1.0] * n, "<=", 1, in_place=True)
            check(snap(ip) == before, "changing a relaxation of a copy changed the program")
            new = ip
        else:
            row = [1.0] + [0.0] * (n - 1) if step == "row=" else [float(2 - j) for j in range(n)]
            rel, value = ("=", 1) if step == "row=" else ("<=", 3)
            new = ip.add_constraint(row, rel, value, in_place=step == "row!")
            d = q["D"]
            q = {**q, "A": q["A"] + [[int(v * d) for v in row]], "b": q["b"] + [value * d], "rel": q["rel"] + [rel]}
            if step == "row!":
                check(new is ip, "an in-place step returned another object")
                programs[-1] = (new, q)
                snaps[-1] = snap(new)
        if new is not ip:
            check(snap(ip) == before, "{} changed the program it was applied to", step)
            programs.append((new, q))
            snaps.append(snap(new))
        ip = new
        check(isinstance(ip, IntegerProgram), "after {} the program is a {}", step, type(ip).__name__)
        want = snap(lpref.build(q, IntegerProgram))
        check(snap(ip) == want, "after {} the data are {} instead of {}", step, snap(ip), want)
    k = 0
    for lp, q in programs:
        grid = [F(-1), F(0), F(1, 2), F(1), F(2)] if n <= 2 else [F(-1), F(0), F(1, 2), F(1)]
        if lp is not ip:
            grid = grid[1:4]
        ctx.state(lpref.key(q), integral)
        want = snap(lpref.build(q))
        relaxed = lp.relax()
        ctx.call()
        check(type(relaxed) is LinearProgram, "relax gives a {}", type(relaxed).__name__)
        check(snap(relaxed) == want, "relax gives {} instead of {}", snap(relaxed), want)
        dq = {**q, "D": F(q["D"])}
        integers = range(n) if integral is None else [i - 1 for i in integral]
        for x in product(grid, repeat=n):
            ok = lpref.slack_violation(dq, x) == 0
            whole = all(x[i].denominator == 1 for i in integers)
            fx = [float(v) for v in x]
            trials = [(fx, ok, ok and whole)]
            if ok and whole and lp is ip:
                trials.append(([v + 1e-12 for v in fx], True, True))
                trials.append(([v - 1e-12 for v in fx], True, True))
                for i in range(n):
                    for e in (F(1, 1000), F(-1, 1000)):
                        y = [v + (e if j == i else 0) for j, v in enumerate(x)]
                        inside = lpref.slack_violation(dq, y) == 0
                        trials.append(([float(v) for v in y], inside, inside and i not in integers))
                    if i in integers:  # barely fractional, whatever the tolerance of the rows
                        for e in (4e-9, -4e-9, 1e-8, -1e-7, 1e-6):
                            trials.append(([v + (e if j == i else 0) for j, v in enumerate(fx)], None, False))
            for y, in_relaxation, feasible in trials:
                k += 1
                arg = np.array(y) if k % 2 else y
                got = lp.is_feasible(arg, show_steps=bool(k % 3))
                check(bool(got) == feasible, "is_feasible({}) is {} with integral variables {}", y, got, integral)
                got = relaxed.is_feasible(arg, show_steps=False)
                check(in_relaxation is None or bool(got) == in_relaxation, "{} is called feasible for the relaxation: {}", y, got)
                ctx.call(2)
                if k % 5 == 0:
                    check(raises(ValueError, lp.value_of, arg) == (not feasible), "value_of judges {} differently", y)
                    ctx.call()
        if is_boxed(q):
            best = I01.optimum({**q, "integral": integral})
            x = lp.branch_and_bound()
            ctx.call()
            check((x is None) == (best is None), "branch and bound returned {}, the optimum is {}", x, best)
            if x is not None:
                check(bool(lp.is_feasible(x)), "is_feasible rejects the branch and bound solution {}", lpref.clean_list(x))
                check(abs(lpref.value(q, lpref.clean_list(x)) - best) < 1e-6, "branch and bound gives {} instead of {}", lpref.value(q, lpref.clean_list(x)), best)
    # everything derived is independent
    for i, (lp, q) in enumerate(programs):
        r = lp.relax()
        r.A[:] = 5
        r.b[:] = 5
        r.c[:] = 5
        r.add_variable(1, None, True, in_place=True)
        check(snap(lp) == snaps[i], "changing a relaxation changed its integer program")
        lp.add_constraint([1.0] * n, ">=", -9, in_place=True)
        lp.A[:] = 7
        lp.b[:] = 7
        lp.c[:] = 7
        for j in range(i + 1, len(programs)):
            check(snap(programs[j][0]) == snaps[j], "changing program {} changed program {}", i, j)
    check(given == integral, "the list of integral variables was changed to {}", given)


def is_boxed(q):
    try:
        for j in range(len(q["c"])):
            I01.bounds(q, j)
    except TypeError:
        return False
    return True
