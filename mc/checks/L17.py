import re
from fractions import Fraction as F
from itertools import combinations, product

from .. import gen, lpref, stub
from ..core import check
from ..lputil import snap
from .L06 import DUAL_REL, DUAL_SIGN

TITLE = "complementary slackness conditions"
BOUNDS = ("Complete products of relations, signs and senses over coefficient lists for 1x1 to 3x2, 2x3, 3x3 programs; the conditions are "
          "parsed and evaluated at every pair of a primal and a dual feasible point (all vertices of both and a grid) and compared with "
          "the pair being optimal; rows and variables named in the conditions are compared with the program. 2x11 and 11x2 programs; with 25 to 40 variables or rows (thorough: 60) the conditions are compared with the rows and columns. Coefficients of up to 13 digits, and down to 1e-6. A fixed selection of every family also by seven detours (the program copied, its last row or variable added later, another program handled first) with every query asked before.")
ASSUMPTIONS = ["weak and strong duality (a feasible pair is optimal exactly when its objective values agree)"]


def plain_families(tier):
    t = tier == "thorough"
    return [
        ("1x1", lambda: gen.full(1, 1, (-2, -1, 1, 3), [(v,) for v in (-2, 0, 1)], [(v,) for v in (-1, 0, 2)], (0, 3))),
        ("1x2", lambda: gen.full(1, 2, (-1, 0, 2), [(v,) for v in (-1, 0, 2)], [(1, -2), (0, 1), (-1, -1), (2, 1)], (1,))),
        ("2x1", lambda: gen.full(2, 1, (-1, 1, 2), [(-1, 2), (0, 1), (2, 4)], [(-1,), (2,)], (1,))),
        ("2x2", lambda: gen.full(2, 2, (-1, 0, 1, 2) if t else (-1, 1, 2), [(1, 2), (0, -1)] if t else [(1, 2)], [(3, 1), (-1, 2)] if t else [(3, 1)], (2,))),
        ("3x2", lambda: gen.over([[(1, 2), (2, 1), (1, 1)], [(1, -1), (1, 1), (0, 1)]], [(4, 4, 3), (1, 3, 0)], [(1, 1), (2, -1)], (1,))),
        ("2x3", lambda: gen.over(gen.M23 if t else gen.M23[:3], [(2, 1)], [(1, 2, 3), (1, -1, 0)] if t else [(1, 2, 1)], (2,))),
        ("3x3", lambda: gen.over(gen.M33 if t else gen.M33[1:2], [(2, 1, 3)], [(1, 2, 4)], (-1,), objs=("max", "min") if t else ("max",))),
        ("2x11", lambda: (p for p in gen.wide(2, 11, tables=(0, 1) if t else (0,), every=False, zs=(0,)) if "at" in p)),
        ("25 to 40 variables or rows", lambda: gen.vast(t)),
        ("11x2", lambda: gen.tall(11, 2, tables=(0,), signs=("++", "-f"), every=False)),
        ("long numbers", lambda: gen.over([[(123456725, 100), (-7, 98765432)], [(100000001, -300), (12345678, 3)], [(1, 0), (-1234567891, 100)]],
                                          [(123456789, 5), (-1, 100000000001)], [(100000003, 1), (-3, 7777777777)], (123456789,), D=100)),
        ("small numbers", lambda: gen.over([[(3, 100000), (-7, 12)], [(1, -3), (12345678, 1)]], [(1, 5), (-100001, 20)], [(3, 1), (-3, 7777777)], (1,), D=10 ** 6)),
        ("2x2 tenths", lambda: gen.over([[(1, 3), (7, 2)], [(3, -1), (1, 1)]], [(3, 7), (1, 2)], [(1, 3)], (1,), D=10)),
    ]


def families(tier):
    fams = plain_families(tier)
    return fams + lpref.warmed(fams, 150 if tier == "thorough" else 30)


def points(p):
    """Feasible points: every vertex, and a few grid points (exact)."""
    n = len(p["c"])
    lines = [(r, b) for r, b in zip(p["A"], p["b"])] + [([1 if k == j else 0 for k in range(n)], 0) for j in range(n)]
    found = set()
    for chosen in combinations(lines, n):
        x = lpref.solve_square([r for r, _ in chosen], [b for _, b in chosen])
        if x is not None:
            found.add(tuple(x))
    if n > 6:
        return [x for x in sorted(found) if lpref.slack_violation({**p, "D": F(p["D"])}, x) == 0]
    found |= set(product((F(-1), F(0), F(1), F(2)) if n <= 2 else (F(0), F(1)), repeat=n))
    return [x for x in sorted(found) if lpref.slack_violation({**p, "D": F(p["D"])}, x) == 0]


SUB = str.maketrans("₀₁₂₃₄₅₆₇₈₉", "0123456789")


def parse(line, first, second, n, m):
    """(index of the variable, coefficients of the equation, right side) of one condition; indices from 0."""
    parts = line.split("||")
    check(len(parts) == 2, "unreadable condition {!r}", line)
    var = re.fullmatch(rf"\s*{first}([₀-₉]+)\s*=\s*0\s*", parts[0])
    eq = parts[1].split("=")
    check(var and len(eq) == 2, "unreadable condition {!r}", line)
    coefficients = [F(0)] * m
    for term in re.split(r"(?<=[₀-₉])\s*\+", eq[0]):
        t = re.fullmatch(rf"\s*(-?[\d.]+(?:e[+-]?\d+)?){second}([₀-₉]+)\s*", term)
        check(t, "unreadable term {!r} in {!r}", term, line)
        j = int(t[2].translate(SUB)) - 1
        check(0 <= j < m, "unknown variable in {!r}", line)
        coefficients[j] += F(t[1])
    i = int(var[1].translate(SUB)) - 1
    check(0 <= i < n, "unknown variable in {!r}", line)
    return i, coefficients, F(eq[1].strip())


def dot(u, v):
    return sum(a * b for a, b in zip(u, v))


def run(p, ctx):
    stub.fast_steps()
    m, n, d = len(p["b"]), len(p["c"]), p["D"]
    lp = lpref.build(p)
    before = snap(lp)
    text = lp.cs_conditions()
    ctx.call()
    check(lp.cs_conditions() == text and snap(lp) == before, "asking for the conditions changed something")
    lines = [line for line in text.split("\n") if line.strip()]
    rows = [parse(line, "y", "x", m, n) for line in lines if line.lstrip().startswith("y")]
    cols = [parse(line, "x", "y", n, m) for line in lines if not line.lstrip().startswith("y")]
    check(sorted(r[0] for r in rows) == [i for i, r in enumerate(p["rel"]) if r != "="], "row conditions for {} of {}", [r[0] + 1 for r in rows], p["rel"])
    check(sorted(r[0] for r in cols) == [j for j, s in enumerate(p["sign"]) if s != "f"], "variable conditions for {} of {}", [r[0] + 1 for r in cols], p["sign"])
    ctx.state(lpref.key(p))
    dual = {"A": [list(col) for col in zip(*p["A"])], "b": p["c"], "c": p["b"], "z": 0, "D": d, "obj": "min" if p["obj"] == "max" else "max",
            "rel": [DUAL_REL[p["obj"], s] for s in p["sign"]], "sign": "".join(DUAL_SIGN[p["obj"], r] for r in p["rel"])}
    if "large" in p:  # too many vertices: each condition is that of its row or column
        for some, table, sides in ((rows, p["A"], p["b"]), (cols, dual["A"], dual["b"])):
            for i, co, b in some:
                check([v * d for v in co] == list(table[i]) and b * d == sides[i], "condition {} is {} = {} instead of {} = {}", i + 1, [str(v) for v in co], b, table[i], sides[i])
                ctx.call()
        return
    # data are exact decimals (integers or tenths), so the printed numbers are exact too
    for x in points(p):
        for y in points(dual):
            good = (all(y[i] == 0 or dot(co, x) == b for i, co, b in rows) and all(x[j] == 0 or dot(co, y) == b for j, co, b in cols))
            optimal = dot(p["c"], x) == dot(p["b"], y)
            ctx.call()
            ctx.note("optimal pairs" if optimal else "other pairs")
            check(good == optimal, "the conditions {} for x={}, y={}, which are {}", "hold" if good else "fail", [str(v) for v in x], [str(v) for v in y],
                  "optimal" if optimal else "not optimal")
