from fractions import Fraction as F
from itertools import product

from .. import gen, lpref, stub
from ..core import check
from .L05 import status
from ..lputil import from_lp, raises, snap

TITLE = "auxiliary()"
BOUNDS = ("Every program in standard equality form of the families (signs of the right-hand sides, dependent and zero rows, zero right-hand sides, tenths), 1x1 to 3x4, 2x11, 2x25 and 9x2, Klee-Minty cubes, flows and assignments of up to 40 columns; "
          "the returned program is compared exactly with the definition of an auxiliary program, at every point of a grid with the original, "
          "its exact optimum with the exact feasibility of the original; it is solved, and converted and solved by simplex from its start basis. "
          "Every relation, sign and sense outside the form is refused. A fixed selection of every family also by seven detours (the program copied, its last row or variable added later, another program handled first) with every query asked before. Magnitudes from 1e-6 to 1000.")
ASSUMPTIONS = ["the artificial columns come last (this is what makes the start basis known to the user)", "comparison tolerance 1e-6"]


def plain_families(tier):
    t = tier == "thorough"

    def refused():
        for p in gen.over([[(1, 2), (3, 1)]], [(1, -2)], [(1, 1)]):
            if not (p["obj"] == "max" and set(p["rel"]) == {"="} and set(p["sign"]) == {"+"}):
                yield {"p": p, "sef": False}

    def of(ps):
        for p in ps:
            yield {"p": p, "sef": True}

    return [
        ("refused", refused),
        ("1x1", lambda: of(gen.sef(1, 1, (-2, 0, 1), [(-2,), (0,), (3,)], [(1,), (-1,)], (0, 2)))),
        ("1x3", lambda: of(gen.sef(1, 3, (-1, 0, 2), [(-2,), (0,), (3,)], [(1, -2, 0)], (1,)))),
        ("2x2", lambda: of(gen.sef(2, 2, (-1, 0, 1, 2) if t else (-1, 0, 2), list(product((-1, 0, 2), repeat=2)), [(3, -1)], (2,)))),
        ("2x3", lambda: of(gen.sef(2, 3, (-1, 0, 1), list(product((-1, 0, 2), repeat=2)) if t else [(-1, 2), (-2, -1)], [(1, -2, 3)]))),
        ("3x2", lambda: of(gen.sef(3, 2, (-1, 0, 1), list(product((-1, 0, 2), repeat=3)) if t else [(-1, 0, 2), (-1, -2, -1)], [(1, -2)]))),
        ("3x5", lambda: of(gen.sef_lists(gen.SEF35, list(product((-2, 0, 3), repeat=3)), [(1, -1, 2, 0, -3)], (1,)))),
        ("tenths", lambda: of(gen.sef_lists([[(1, 2, 3), (3, 3, -3)], [(3, -1, 7), (1, 7, 1)]], list(product((-3, 0, 6), repeat=2)), [(1, 2, 3)], (5,), 10, colperms=True))),
        ("other magnitudes", lambda: of(gen.scaled(gen.every(gen.sef(2, 3, (-1, 0, 1), [(-1, 2), (-2, -1), (0, -1)], [(1, -2, 3)]), 1 if t else 5), ("x1000", "/1000", "/10000", "/1000000", "rows", "b", "A")))),
        ("2x11", lambda: of(gen.sef_wide(2, 11, (0, 1, 2, 3, 4) if t else (0, 2), bs=[(4, -3), (-1, -2), (0, 0)], rotations=False))),
        ("25 and more columns", lambda: of({**p, "large": True} for p in gen.sef_wide(2, 25, (0, 1), bs=[(4, -3), (-1, -2), (0, 0)], rotations=False))),
        ("many pivots", lambda: of(gen.many_pivots(t, True))),
        ("9x2", lambda: of(gen.over([[(1, 2 - i) for i in range(9)]], [tuple(b) for b in ([(-1) ** (i % k) * (i % 4) for i in range(9)] for k in (2, 3, 5))] + [tuple(1 + 2 * (2 - i) for i in range(9))],
                                    [(1, -1)], (2,), rels="=", signs="+", objs=("max",)))),
    ]


def families(tier):
    fams = plain_families(tier)
    return fams + lpref.warmed(fams, 150 if tier == "thorough" else 30)


def run(case, ctx):
    import numpy as np
    stub.fast_steps()
    p = case["p"]
    lp = lpref.build(p)
    before = snap(lp)
    if not case["sef"]:
        check(raises(ArithmeticError, lp.auxiliary) and raises(ArithmeticError, lp.auxiliary, False), "auxiliary accepted a program that is not in standard equality form")
        check(snap(lp) == before, "a refused auxiliary changed the program")
        ctx.call(2)
        return
    m, n, d = len(p["b"]), len(p["c"]), p["D"]
    aux = lp.auxiliary(bool(p["z"]))
    ctx.call()
    ctx.state(lpref.key(p))
    check(snap(lp) == before, "auxiliary changed the program")
    q = from_lp(aux)
    D = q["D"]
    check(len(q["c"]) == n + m and len(q["b"]) == m, "{} rows and {} variables for {} rows and {} variables", len(q["b"]), len(q["c"]), m, n)
    check(q["obj"] == "min" and q["z"] == 0, "the objective is {} with constant {}", q["obj"], q["z"])
    check(set(q["rel"]) == {"="} and set(q["sign"]) == {"+"}, "relations {}, signs {}", q["rel"], q["sign"])
    check(not any(q["c"][:n]) and all(v == D for v in q["c"][n:]), "the objective is {}", aux.c)
    # one artificial variable per row, and together they are a feasible start
    for i in range(m):
        row = [F(v, D) for v in q["A"][i]]
        check([j for j in range(m) if row[n + j]] == [i] and abs(row[n + i]) == 1, "row {} has the artificial entries {}", i, row[n:])
        check(F(q["b"][i], D) * row[n + i] >= 0, "the artificial variable of row {} starts negative", i)
        same = [F(v, d) for v in p["A"][i]] + [F(p["b"][i], d)]
        got = row[:n] + [F(q["b"][i], D)]
        check(got == same or got == [-v for v in same], "row {} is {}, made from {}", i, got, same)
    start = [n + i + 1 for i in range(m)]
    check(bool(aux.is_basis(start)) and bool(aux.is_basis_feasible(start)), "the artificial variables are not a feasible basis")
    ctx.call(2)
    for x in product((0, 1, 2), repeat=n) if n <= 3 else product((0, 1), repeat=n) if n < 6 else [[int(k == j) for k in range(n)] for j in range(n)]:
        inside = all(sum(a * v for a, v in zip(r, x)) == b for r, b in zip(p["A"], p["b"]))
        got = aux.is_feasible([float(v) for v in x] + [0.0] * m, False)
        check(bool(got) == inside, "({}, 0) is judged {} by the auxiliary program, {} originally", x, got, inside)
        ctx.call()
    verdict, value = status({**q, "large": "large" in p})
    check(verdict == "optimal", "the auxiliary program is {}", verdict)
    origin = status(p)[0]
    check((value == 0) == (origin != "infeasible"), "the auxiliary optimum is {}, the program is {}", value, origin)
    ctx.note("feasible" if value == 0 else "infeasible")
    y = aux.solve(False)
    ctx.call()
    check(y is not None and len(y) == n + m and lpref.slack_violation(q, lpref.clean_list(y)) <= 1e-6, "solving the auxiliary program gives {}", y)
    check(abs(sum(float(v) for v in y[n:]) - float(value)) <= 1e-6 * (1 + float(value)), "solving the auxiliary program gives {}, the optimum is {}", y, value)
    form = aux.to_sef(False)
    z, basis, _ = form.simplex(start, False)
    ctx.call(2)
    check(z is not None and abs(sum(float(v) for v in z[n:]) - float(value)) <= 1e-6 * (1 + float(value)), "simplex from the artificial basis gives {}, the optimum is {}", z, value)
    check(lp.auxiliary(False) == aux, "asking again gives another program")
    aux.A[:] = 7
    aux.b[:] = 7
    aux.c[:] = 7
    aux.add_constraint([1.0] * (n + m), "<=", 1, True)
    check(snap(lp) == before, "changing the auxiliary program changed its source")
