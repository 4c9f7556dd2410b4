from fractions import Fraction as F
from itertools import product

from .. import gen, lpref, stub
from ..core import check
from ..lputil import raises, snap

TITLE = "is_feasible(), evaluate(), value_of()"
BOUNDS = ("Every program of the families (complete relations and signs) with every point of a grid of halves (or tenths), each also "
          "moved by 1e-12 (must not matter) and by 1e-3 (must matter), as lists and arrays; plus every solution solve() returns. 2x11, 4x7, 8x2, 2x25 and 3x40 programs around a feasible point, 25x2 and 40x3 ones on a grid. A fixed selection of every family also by seven detours (the program copied, its last row or variable added later, another program handled first) with every query asked before.")
ASSUMPTIONS = ["points violating a condition by 1e-3 relative to data of size 1 count as infeasible, by 1e-12 as feasible"]


def plain_families(tier):
    t = tier == "thorough"
    return [
        ("1x1", lambda: gen.full(1, 1, (-2, 0, 1), [(-1,), (0,), (2,)], [(2,)], (0, 3), objs=("max", "min"))),
        ("1x2", lambda: gen.full(1, 2, (-1, 0, 2), [(-1,), (0,), (2,)], [(1, -2)], (1,), objs=("max",))),
        ("2x2", lambda: gen.over([[(1, 1), (1, -1)], [(2, 1), (0, 1)], [(-1, 1), (1, 1)], [(0, 0), (1, 0)]], [(1, 0), (2, 1), (0, 0)], [(1, -2)], (-1,), objs=("min", "max") if t else ("min",))),
        ("2x3", lambda: gen.over(gen.M23 if t else gen.M23[:2], [(1, 0)], [(1, -2, 1)], (2,), objs=("max",))),
        ("1x3", lambda: gen.over([[(1, -1, 2)], [(0, 1, 1)]], [(1,), (0,)], [(1, -2, 1)], (2,), objs=("max",))),
        ("1x4", lambda: gen.over([[(1, -1, 1, 1)]], [(1,)], [(1, -2, 1, 3)], (0,), objs=("min",))),
        ("3x1", lambda: gen.over([[(1,), (-1,), (2,)]], [(1, 0, 2), (0, 0, 0)], [(2,)], (0,), objs=("min",))),
        ("3x2", lambda: gen.over([[(1, 1), (1, -1), (0, 1)]], [(1, 0, 1)], [(1, -2)], (2,), objs=("max",))),
        ("4x2", lambda: gen.over([[(1, 1), (1, -1), (0, 1), (1, 0)]], [(1, 0, 1, 2)], [(1, -2)], (2,), objs=("max",))),
        ("2x4", lambda: gen.over(gen.M24[:1], [(1, 0)], [(1, -2, 1, 1)], (2,), objs=("max",)) if t else iter(())),
        ("2x11", lambda: (p for p in gen.wide(2, 11, tables=(0, 1) if t else (0,), every=False) if "at" in p)),
        ("4x7", lambda: (p for p in gen.wide(4, 7, tables=(0,), every=False, bs=[(1, -2, 3, 4)], objs=("min",)) if "at" in p)),
        ("25 to 40 variables", lambda: gen.vast(t, False)),
        ("25 to 40 rows", lambda: (p for p in gen.vast(t) if len(p["b"]) > 12 and len(p["c"]) < 5)),
        ("8x2", lambda: gen.tall(8, 2, tables=(0,), objs=("min",), every=t)),
        ("tenths", lambda: gen.over([[(1, 2, 3), (3, 3, -3)], [(1, -3, 2), (7, 1, -1)]], [(3, 0), (6, 3)], [(1, 2, 3)], (5,), objs=("max",), D=10)),
        ("large", lambda: gen.over([[(1000, 1), (1, -1000)]], [(1000, 0), (2001, -999)], [(1000, 1)], (7,), objs=("min",))),
    ]


def families(tier):
    fams = plain_families(tier)
    return fams + lpref.warmed(fams, 150 if tier == "thorough" else 30)


def around(x):
    yield x
    yield [F(0)] * len(x)
    for j in range(len(x)):
        for step in (1, -1, F(1, 2)):
            yield [v + (step if k == j else 0) for k, v in enumerate(x)]


def run(p, ctx):
    import numpy as np
    stub.fast_steps()
    n, m, d = len(p["c"]), len(p["b"]), p["D"]
    lp = lpref.build(p)
    before = snap(lp)
    ctx.state(lpref.key(p))
    grid = [F(-1), F(0), F(1, 2), F(1), F(2)] if n <= 2 else [F(-1), F(0), F(1, 2), F(1)] if n == 3 else [F(-1), F(0), F(1)]
    if d != 1:
        grid = [F(0), F(-1, 10), F(1, 10), F(1, 5), F(1)]
    k = 0
    for x in product(grid, repeat=n) if n <= 4 else around([F(v) for v in p["at"]]):
        rows = [(sum(a * v for a, v in zip(r, x)) - b) for r, b in zip(p["A"], p["b"])]
        ok = (all(v <= 0 if rel == "<=" else v >= 0 if rel == ">=" else v == 0 for v, rel in zip(rows, p["rel"]))
              and all(s == "f" or (v >= 0 if s == "+" else v <= 0) for s, v in zip(p["sign"], x)))
        fx = [float(v) for v in x]
        value = float(sum(a * v for a, v in zip(p["c"], x)) + p["z"]) / d
        trials = [(fx, ok)]
        if ok:
            trials.append(([v + 1e-12 for v in fx], True) if max(map(abs, p["c"])) < 100 else (fx, True))
            trials.append(([v - 1e-12 for v in fx], True) if max(map(abs, p["c"])) < 100 else (fx, True))
            # smallest clear violation of each condition that is tight at x
            for j in range(n):
                for step in (F(1, 1000), F(-1, 1000)):
                    y = [v + (step if i == j else 0) for i, v in enumerate(x)]
                    if lpref.slack_violation({**p, "D": F(d)}, y) >= F(1, 1000) * (1 if d == 1 else F(1, 10)):
                        if max(abs(float(v)) for v in p["b"]) <= 10:
                            trials.append(([float(v) for v in y], False))
        for y, want in trials:
            k += 1
            arg = np.array(y) if k % 2 else y
            got = lp.is_feasible(arg, show_steps=bool(k % 3))
            ctx.call()
            check(bool(got) == want, "is_feasible({}) is {}", y, got)
            e = lp.evaluate(arg)
            ctx.call()
            check(abs(e - lpref.value(p, y)) <= 1e-9 * (1 + abs(e)), "evaluate({}) is {} instead of {}", y, e, lpref.value(p, y))
            if want:
                got = lp.value_of(arg)
                check(abs(got - e) <= 1e-12 * (1 + abs(e)), "value_of({}) is {} instead of {}", y, got, e)
            else:
                check(raises(ValueError, lp.value_of, arg), "value_of accepted the infeasible point {}", y)
            ctx.call()
            check(list(map(float, arg)) == y, "the point was modified")
        check(abs(lp.evaluate(fx) - value) <= 1e-9 * (1 + abs(value)), "evaluate({}) is not {}", fx, value)
    for bad in ([0.0] * (n + 1), [0.0] * (n - 1)):
        check(raises(ValueError, lp.is_feasible, bad) and raises(ValueError, lp.evaluate, bad) and raises(ValueError, lp.value_of, bad),
              "a point of length {} was accepted", len(bad))
    sol = lp.solve(show_steps=False)
    ctx.call()
    if sol is not None:
        check(bool(lp.is_feasible(sol)), "is_feasible rejects the solution {} of solve", lpref.clean_list(sol))
        check(abs(lp.value_of(sol) - lp.evaluate(sol)) < 1e-9 * (1 + abs(lp.evaluate(sol))), "value_of differs from evaluate")
    check(snap(lp) == before, "the program was changed")
