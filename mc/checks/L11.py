from itertools import product

from .. import gen, lpref, stub
from ..core import check
from ..lputil import raises, snap
from . import L01

TITLE = "growing a program step by step"
BOUNDS = ("All sequences of up to 2 (thorough: 3) growth steps out of 17 valid and 19 invalid ones, from six root programs, with every "
          "pattern of in-place and copying steps; the result is compared with direct construction from the final data (content, "
          "printed text, verdict and optimum against the exact oracle), every intermediate program with its model. Roots of 9 variables or rows; alternations of any two steps up to length 12, selected ones of length 30 (not solved); roots of 24 variables or 25 rows.")
ASSUMPTIONS = []

ROOTS = [
    gen.program([(1, 2), (-1, 1)], (4, 1), (1, 1), ["=", "="], "++", "max", 2),
    gen.program([(1, 2)], (4,), (1, -1), ["<="], "+-", "min"),
    gen.program([(2, 1)], (3,), (1, -2), [">="], "f+", "max", -1),
    gen.program([(1,)], (2,), (1,), ["="], "+", "max"),
    gen.program([(1,), (1,)], (2, 1), (-1,), ["=", ">="], "f", "min", 1),
    gen.program([(1, 1, 1), (1, 2, 4)], (-6, 5), (1, 2, 3), [">=", "="], "-f-", "max"),
]
# steps: ["row", coefficients style, relation, value] / ["var", coefficient, column style, free, negative]
VALID = ([["row", s, r, v] for s, r, v in (("list", "<=", 5), ("array", ">=", -1.5), ("int array", "=", 2), ("list", "=", 0), ("int list", ">=", 1), ("zeros", "<=", 3))]
         + [["var", c, col, f, n] for c, col, f, n in ((2, None, False, False), (0, "list", True, False), (-1.5, "array", False, True), (1, "int list", False, False),
                                                       (3, None, True, False), (-2, None, False, True), (1, "int array", True, False), (0, "zeros", False, True))]
         + [["var", "default", None, False, False], ["var", "default", "list", True, False], ["var", "default", None, False, True]])
INVALID = [["row", "long", "<=", 1], ["row", "short", "=", 1], ["row", "list", "<", 1], ["row", "list", "==", 1], ["row", "list", "", 1], ["row", "matrix", "<=", 1],
           ["var", 1, None, True, True], ["var", 1, "list", True, True], ["var", 1, "long", False, False], ["var", 1, "long", True, False], ["var", 1, "short", False, True],
           ["row", "list", "<=", "text"], ["row", "list", "=", None], ["row", "list", ">=", "3"], ["row", "list", "=", [1, 2]], ["var", "text", "list", False, False], ["var", None, None, True, False], ["var", "3", "list", False, True], ["var", [1, 2], None, False, False]]


def families(tier):
    t = tier == "thorough"

    def cases(length, roots):
        for root in roots:
            for seq in product(range(len(VALID) + len(INVALID)), repeat=length):
                for modes in product((0, 1), repeat=length):
                    yield {"p": root, "seq": list(seq), "in_place": list(modes)}

    wide = [gen.program([tuple(range(1, 10))], (4,), tuple(range(-4, 5)), ["<="], "+-f++f-f-", "max", 2),
            gen.program([(1, 2 - i) for i in range(9)], tuple(range(3, 12)), (1, -1), ["<=", ">=", "<="] * 3, "+f", "min", -1)]

    def long(k):
        for root in ROOTS:
            for a, b in product(range(len(VALID)), repeat=2):
                for ip in (0, 1):
                    yield {"p": root, "seq": [a, b] * k, "in_place": [ip] * (2 * k)}

    def longer():
        for root in ROOTS[:3] if not t else ROOTS:
            for a in range(len(VALID)):
                for b in ((a, (a + 5) % len(VALID)) if not t else range(len(VALID))):
                    yield {"p": {**root, "large": True}, "solve": False, "seq": [a, b] * 15, "in_place": [a % 2] * 30}

    vast = [gen.program([tuple((3 * j + 1) % 7 for j in range(24))], (40,), tuple(j % 5 - 1 for j in range(24)), ["<="], ("+-f+" * 6), "max", 2),
            gen.program([(1, 2 - i % 4) for i in range(25)], tuple(range(3, 28)), (1, -1), (["<=", ">=", "<="] * 9)[:25], "+f", "min", -1)]
    vast = [{**p, "large": True} for p in vast]

    out = [("ten variables or rows, one step", lambda: cases(1, wide)), ("ten variables or rows, two steps", lambda: cases(2, wide) if t else iter(())),
           ("25 variables or rows", lambda: cases(1, vast)), ("30 steps", longer), ("long", lambda: long(6 if t else 5)), ("one step", lambda: cases(1, ROOTS)), ("two steps", lambda: cases(2, ROOTS))]
    if t:
        out.append(("three steps", lambda: cases(3, ROOTS[:4])))
    return out


def entries(style, size):
    import numpy as np
    base = [2 - j if j % 2 else j + 1 for j in range(size)]
    if style == "zeros":
        return [0.0] * size, [0] * size
    if style == "list":
        return [v + 0.5 for v in base], [v + 0.5 for v in base]
    if style == "array":
        return np.array([v - 0.5 for v in base]), [v - 0.5 for v in base]
    if style == "int array":
        return np.array(base, dtype=int), base
    if style == "int list":
        return list(base), base
    if style == "long":
        return [1.0] * (size + 1), None
    if style == "short":
        return [1.0] * (size - 1), None
    if style == "matrix":
        return [[1.0] * size], None
    raise KeyError(style)


def apply(lp, step, ip):
    """Performs the step; returns (outcome, result, model change)."""
    m, n = len(lp.b), len(lp.c)
    if step[0] == "row":
        arg, model = entries(step[1], n)
        return (lp.add_constraint(arg, step[2], step[3], ip) if ip or step[3] == 2 else lp.add_constraint(arg, step[2], step[3])), model
    if step[1] == "default":  # every argument that may be left out is left out
        kw = {name: True for name, on in (("free", step[3]), ("negative", step[4]), ("in_place", ip)) if on}
        if step[2] is None:
            return lp.add_variable(**kw), [0] * m
        arg, model = entries(step[2], m)
        return lp.add_variable(column=arg, **kw), model
    if step[2] is None:
        return lp.add_variable(step[1], None, step[3], step[4], ip), [0] * m
    arg, model = entries(step[2], m)
    return lp.add_variable(step[1], arg, step[3], step[4], ip), model


def double(p):
    """The model with all data doubled (halves become integers), D doubled."""
    return {**p, "A": [[int(2 * v) for v in r] for r in p["A"]], "b": [int(2 * v) for v in p["b"]], "c": [int(2 * v) for v in p["c"]], "z": int(2 * p["z"]), "D": 2}


def run(case, ctx):
    stub.fast_steps()
    steps = VALID + INVALID
    p = case["p"]
    lp = lpref.build(p)
    for k, ip in zip(case["seq"], case["in_place"]):
        step = steps[k]
        before = snap(lp)
        if k >= len(VALID):
            check(raises(ValueError, apply, lp, step, bool(ip)), "the step {} was accepted", step)
            ctx.call()
            check(snap(lp) == before, "the refused step {} changed the program: {} became {}", step, before, snap(lp))
            continue
        q, new = apply(lp, step, bool(ip))
        ctx.call()
        if ip:
            check(q is lp, "the in-place step {} returned another object", step)
        else:
            check(q is not lp and snap(lp) == before, "the step {}, not in place, changed its program", step)
        if step[0] == "row":
            p = {**p, "A": p["A"] + [list(new)], "b": p["b"] + [step[3]], "rel": p["rel"] + [step[2]]}
        else:
            p = {**p, "A": [r + [v] for r, v in zip(p["A"], new)], "c": p["c"] + [0 if step[1] == "default" else step[1]],
                 "sign": p["sign"] + ("f" if step[3] else "-" if step[4] else "+")}
        lp = q
        direct = lpref.build(p)
        check(snap(lp) == snap(direct), "after {} the program is {} instead of {}", step, snap(lp), snap(direct))
        check(repr(lp) == repr(direct), "printed differently from the directly built program")
        check(lp.positive_variables == direct.positive_variables, "positive variables {}", lp.positive_variables)
        ctx.state(lpref.key(p))
    if not case.get("solve", True):  # thirty such steps make bases of condition 1e9 and more
        return
    exact = double(p)
    L01.judge(exact, lpref.status(exact), lp.solve(show_steps=False), "solving the grown program")
    ctx.call()
