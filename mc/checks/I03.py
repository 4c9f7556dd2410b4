from fractions import Fraction as F
from itertools import product

from .. import gen, lpref, stub
from ..core import check
from ..lputil import raises, snap
from . import I01
from .I02 import is_boxed as boxed, many

TITLE = "integer programs in standard equality form"
BOUNDS = ("Every relation, sign, sense and integral-variable set over coefficient lists for 1 to 3 variables and 1 or 2 rows, with data in halves so that slacks are "
          "fractional; converted by copy and in place, then copied, rewritten in canonical form for every basis and iterated; every point of a grid of halves of the "
          "original is carried over (free variables split in three ways) and asked of every one of these programs; programs with up to 21 variables (thorough: 101), every pair of variables moved by a half; boxed ones are without free variables also "
          "solved by branch and bound after conversion and compared with the exact integer optimum. A fixed selection of every family also by seven detours (the program copied, its last row or variable added later, another program handled first) with every query asked before.")
ASSUMPTIONS = ["columns appear in the documented order (L05)"]

SETS = {1: [None, [], [1]], 2: [None, [], [1], [2], [2, 1]], 3: [None, [2], [3, 1], [1, 2, 3]]}


def plain_families(tier):
    t = tier == "thorough"

    def over(ps):
        for p in ps:
            for integral in SETS[len(p["c"])]:
                yield {"p": p, "integral": integral}

    def boxes(ps):
        for p in ps:
            integral = p.pop("integral")
            yield {"p": p, "integral": integral}

    return [
        ("1x1", lambda: over(gen.full(1, 1, (-2, 1, 3), [(-1,), (3,)], [(2,)], (0, 3), D=2))),
        ("1x2", lambda: over(gen.over([[(1, 2)], [(2, -1)]], [(3,), (0,)], [(1, -2)], (1,), D=2))),
        ("2x2", lambda: over(gen.over([[(1, 1), (1, -1)], [(2, 1), (0, 1)]], [(3, 1)], [(1, -2)], (-1,), objs=("max", "min") if t else ("min",), D=2))),
        ("1x3", lambda: over(gen.over([[(1, 1, -1)]], [(3,)], [(1, 2, -1)], (0,), objs=("max", "min") if t else ("max",), D=2))),
        ("2x3", lambda: over(gen.over([[(1, 2, -1), (2, 0, 1)]], [(3, 4)], [(1, 2, -1)], (0,), objs=("max",), D=2)) if t else iter(())),
        ("boxed", lambda: boxes(p for row in (((2, 3), (3, 5), (1, -2)) if t else ((2, 3), (1, -2)))
                                for p in I01.boxed([row], [(7,), (3,)], [("<=",), (">=",), ("=",)], ("++", "f-", "-+", "--"), [(3, 4), (-1, 2)], ("max", "min"), -5, 5,
                                                   [None, [1], [2], [2, 1], []], 2))),
    ]


def families(tier):
    fams = plain_families(tier) + [("many variables", lambda: many(tier))]
    return fams + lpref.warmed(fams, 150 if tier == "thorough" else 30)


def carried(p, A, b, x):
    """The point x in the columns of the converted program: as it is, and with free variables split wider by 1 and by 1/2."""
    slack = len(A[0]) if A else 0
    out = []
    for more in (F(0), F(1), F(1, 2)):
        y = []
        for v, s in zip(x, p["sign"]):
            y += [-v] if s == "-" else [v] if s == "+" else [max(v, F(0)) + more, max(-v, F(0)) + more]
        k = len(y)
        for j in range(k, slack):
            i = next(i for i, r in enumerate(A) if r[j])
            y.append((b[i] - sum(a * v for a, v in zip(A[i], y[:k]))) / F(A[i][j]))
        out.append(y)
        if "f" not in p["sign"]:
            break
    return out


def run_many(case, ctx):
    """Every pair of variables of a converted program with many variables moved by a half."""
    from pytimize.programs import IntegerProgram
    n, integral, sign, rel = case["many"], case["integral"], case["sign"], case["rel"]
    side = [-1 if s == "-" else 1 for s in sign]
    root = IntegerProgram([[float(v) for v in side]], [4.0], [1.0] * n, 0, "max", [rel], [j + 1 for j in range(n) if sign[j] == "f"], [j + 1 for j in range(n) if sign[j] == "-"],
                          integral_variables=None if integral is None else list(integral))
    whole = set(range(1, n + 1)) if integral is None else set(integral)
    two = root.copy()
    two.to_sef(True, True)
    programs = [root.to_sef(False), two, two.copy(), two.to_sef(False), two.to_canonical_form([1], False)]
    ctx.state(n, integral, sign, rel)
    width = n + sign.count("f")
    for i in range(n):
        for j in range(n):
            for half in (F(1, 2), F(3, 2)):
                for shift in (0, 1):
                    x = [F(0)] * n
                    x[i] += half
                    x[j] += 4 - half
                    good = all(v.denominator == 1 for k, v in enumerate(x, 1) if k in whole)
                    y = []
                    for v, s in zip(x, sign):
                        y += [float(v)] if s != "f" else [float(v) + shift, float(shift)]
                    if rel != "=":
                        y.append(0.0)
                    check(len(y) == width + (rel != "="), "wrong width")
                    for k, p in enumerate(programs):
                        check(bool(p.is_feasible(y, False)) == good, "program {} judges {} wrongly with integral variables {} of {}", k, y, integral, sign)
                    ctx.call(len(programs))
    if rel != "=":  # the slack is not integral
        for half in (0.0, 0.5):
            y = [0.0] * width + [4.0 - half]
            k = next((j for j in range(n) if sign[j] != "f" and j + 1 not in whole), None)
            if k is not None:
                y[sum(2 if s == "f" else 1 for s in sign[:k])] = half
                for p in programs:
                    check(bool(p.is_feasible(y, False)), "a fractional slack is refused: {}", y)
                    ctx.call()


def run(case, ctx):
    if "many" in case:
        return run_many(case, ctx)
    import numpy as np
    from pytimize.programs import IntegerProgram, LinearProgram
    stub.fast_steps()
    p, integral = case["p"], case["integral"]
    n, d = len(p["c"]), p["D"]
    make = lambda: lpref.build(p, IntegerProgram, integral_variables=None if integral is None else list(integral))
    root = make()
    before, text = snap(root), repr(root)
    lp = lpref.build(p)
    ctx.state(lpref.key(p), integral)
    one = root.to_sef(False)
    check(snap(root) == before and repr(root) == text, "to_sef changed the program it was asked to copy: {} became {}", text, repr(root))
    two = make()
    check(two.to_sef(True, True) is two, "to_sef in place returned another object")
    check(snap(one) == snap(two) and repr(one) == repr(two) and one == two, "to_sef in place gives {}, otherwise {}", repr(two), repr(one))
    ctx.call(2)
    want = snap(lp.to_sef(False))
    programs = [("the converted program", one), ("the program converted in place", two), ("its copy", two.copy()), ("the program converted twice", two.to_sef(False))]
    m = len(p["b"])
    frac = {**p, "D": F(d)}
    A, b, _ = lpref.to_sef(p)
    rows = [[F(v, d) for v in r[:n + p["sign"].count("f")]] + [F(v) for v in r[n + p["sign"].count("f"):]] for r in A]
    rhs = [F(v, d) for v in b]
    ctx.call(2)
    for what, q in programs:
        check(isinstance(q, IntegerProgram), "{} is a {}", what, type(q).__name__)
        check(snap(q)[:9] == want[:9], "{} is {}, the conversion of the relaxation {}", what, snap(q), want)
        check(type(q.relax()) is LinearProgram and snap(q.relax()) == want, "the relaxation of {} is {} instead of {}", what, snap(q.relax()), want)
    if len(rows) <= 2 and lpref.rank(rows) == m:
        for k, B in enumerate(lpref.bases(rows)):
            basis = [j + 1 for j in B]
            q = one.to_canonical_form(basis, False) if k % 2 else two.copy().to_canonical_form(basis, False, True)
            programs.append((f"the canonical form for {basis}", q))
            if min(lpref.basic_solution(rows, rhs, B)) >= 0:
                programs.append((f"the program after an iteration from {basis}", one.simplex_iteration(basis, False)[-1]))
            ctx.call()
    whole = range(n) if integral is None else [i - 1 for i in integral]
    texts = [repr(q) for _, q in programs]
    grid = [F(-1), F(-1, 2), F(0), F(1), F(3, 2)] if n <= 2 else [F(-1), F(0), F(1, 2), F(1)]
    k = 0
    for x in product(grid, repeat=n):
        inside = lpref.slack_violation(frac, x) == 0
        good = inside and all(x[i].denominator == 1 for i in whole)
        check(bool(root.is_feasible([float(v) for v in x], False)) == good, "{} is judged wrongly before the conversion", x)
        for way, y in enumerate(carried(p, rows, rhs, x)):
            if way == 2 and good:
                continue  # a split into halves may be refused or accepted
            fy = [float(v) for v in y]
            # outside the equalities only where a row is violated
            for what, q in programs:
                k += 1
                got = q.is_feasible(np.array(fy) if k % 2 else fy, False)
                ctx.call()
                if way == 2 and inside:
                    halves = [j for j, s in enumerate(p["sign"]) if s == "f" and j in whole]
                    if not halves:
                        continue
                    fine = all(x[j].denominator == 1 for j in whole)
                    check(not got or fine, "{} calls {} feasible, made from {}", what, fy, x)
                    continue
                check(bool(got) == good, "{} judges {}, made from the {}feasible {}, as {}", what, fy, "" if good else "in", x, got)
    for (what, q), t in zip(programs, texts):
        check(repr(q) == t, "asking changed {}", what)
    if boxed(p) and "f" not in p["sign"]:  # the two parts of a free variable are unbounded: branching need not end there
        best = I01.optimum({**p, "integral": integral})
        s = 1 if p["obj"] == "max" else -1
        for what, q in programs[:3]:
            y = q.branch_and_bound()
            ctx.call()
            check((y is None) == (best is None), "branch and bound on {} returned {}, the optimum is {}", what, y, best)
            if y is not None:
                got = float(np.dot(lp.to_sef(False).c, y))
                ref = s * (best - F(p["z"], d))
                check(abs(got - float(ref)) < 1e-6, "branch and bound on {} reaches {}, the optimum is {}", what, got, ref)
    two.add_constraint([1.0] * len(two.c), "<=", 3, True)
    check(repr(root) == text, "changing the converted program changed the original")
