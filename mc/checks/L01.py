from itertools import product

from .. import gen, lpref, stub
from ..core import check

TITLE = "solve(): verdict and optimum"
BOUNDS = ("All programs of the listed families: n,m<=2 with every relation, sign restriction and sense over small "
          "integer data (complete products), and complete relation/sign/sense products over fixed coefficient lists for "
          "2x3, 3x3, 2x4, every sign restriction of 4 and 5 variables, dependent rows, tenths, near ties, cycling examples under all row/column permutations. "
          "Oracle: exact rational elimination of the variables (no simplex). solve() is run twice and optimal_value() once. Programs of every shape with all or some of their numbers multiplied by 1000 or divided by 1000, 10^4, 10^6 (judged relative to their size), programs of 10 to 12 rows with coefficients of a tenth or a hundredth. Programs of 10, 11 variables (relations complete, 5 or all one-odd-variable sign patterns) and of 8, 11 rows. Up to 32 columns most of which are parallel. Programs that take dozens of pivots: Klee-Minty cubes, boxes, flows, shortest paths, assignments and transports with up to 20 variables. A fixed selection of every family also by seven detours (the program copied, its last row or variable added later, another program handled first) with every query asked before.")
ASSUMPTIONS = ["results are compared with tolerance 1e-6 relative to the data, larger than the library's own 1e-10"]


def signs4(t):
    """Every sign restriction of four (five) variables in bounded, infeasible and unbounded programs."""
    mats = [[(1, 1, 0, 0), (0, 1, 1, 0), (0, 0, 1, 1), (1, 0, 0, 2)], [(1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1)]]
    rels = [("<=",) * 4, ("<=", ">=", "<=", ">="), ("=", "=", "<=", ">=")]
    for A in mats:
        for rel in rels:
            for sign in product(gen.SIGNS, repeat=4):
                for obj, c in (("max", (1, 2, 3, 1)), ("max", (1, -1, 1, -1)), ("min", (-1, 1, -2, 1))):
                    yield gen.program(A, (3, -2, 4, 1), c, rel, sign, obj, 1)
    five = [[int(i == j) for j in range(5)] for i in range(5)]
    for sign in product(gen.SIGNS, repeat=5):
        yield gen.program(five, (1, -2, 3, -4, 5), (1, 1, 1, -1, 2), ("<=", "<=", "<=", ">=", "="), sign, "max", 0)
        if t:
            yield gen.program(five, (1, -2, 3, -4, 5), (1, -1, 1, -1, 2), ("=", ">=", "<=", ">=", "<="), sign, "min", 0)


def magnitudes(t):
    base = [lambda: gen.cycling(rowperms=False), lambda: gen.every(gen.redundant(("++", "-f"), ("max",)), 1 if t else 3), lambda: gen.every(gen.decimals(), 1 if t else 2),
            lambda: gen.every(gen.over(gen.M23, [(2, 1), (-1, 2), (0, 0)], [(1, 1, 1), (1, -2, 1)], (2,), objs=("max", "min")), 5 if t else 37),
            lambda: gen.every(gen.over(gen.M33, [(2, 1, 3), (-1, 2, 0)], [(1, 2, -1)], signs="+f", objs=("max",)), 11 if t else 47),
            lambda: gen.every(gen.full(1, 1, range(-2, 3), [(v,) for v in range(-2, 3)], [(v,) for v in (-1, 0, 1)], (0, 3)), 1 if t else 7)]
    for family in base:
        yield from gen.scaled(family())


def plain_families(tier):
    t = tier == "thorough"
    B2 = [(1, 2), (-1, 1), (0, 1)]
    fams = [
        ("1x1 complete", lambda: gen.full(1, 1, range(-2, 3), [(v,) for v in range(-2, 3)], [(v,) for v in (-1, 0, 1)], (0, 3))),
        ("1x2 complete", lambda: gen.full(1, 2, (-1, 0, 1, 2), [(v,) for v in (-1, 0, 2)],
                                          [(1, 1), (1, -1), (0, 1), (-1, -2)], (0,))),
        ("2x1 complete", lambda: gen.full(2, 1, (-1, 0, 1, 2), [(u, v) for u in (-1, 0, 2) for v in (-1, 0, 1, 2)], [(1,), (-1,)] if t else [(-1,)])),
        ("cycling", lambda: gen.cycling()),
        ("decimals", lambda: gen.decimals()),
        ("near ties", lambda: gen.near_ties()),
        ("mixed magnitudes", lambda: gen.large()),
        ("dependent rows", lambda: gen.redundant() if t else gen.redundant(("++", "-f"), ("max",))),
        ("2x3 lists", lambda: gen.over(gen.M23, [(2, 1), (-1, 2), (0, 0)] if t else [(2, 1), (-1, 2)],
                                       [(1, 1, 1), (1, -2, 1)], (2,), objs=("max", "min") if t else ("max",))),
        ("2x4 lists", lambda: gen.over(gen.M24 if t else gen.M24[:1], [(2, 1), (0, -1)] if t else [(2, 1)],
                                       [(1, 2, -1, 1)], (0,), objs=("min",))),
        ("3x3 lists", lambda: gen.over(gen.M33, [(2, 1, 3), (-1, 2, 0)] if t else [(-1, 2, 3)], [(1, 2, -1)],
                                       signs="+-f" if t else "+f", objs=("max", "min") if t else ("max",))),
        ("4 variables, every sign", lambda: signs4(t)),
        ("cycles of other rules", lambda: gen.other_rules(False)),
        ("2x11", lambda: gen.wide(2, 11, every=t, tables=(0, 1, 2) if t else (0,))),
        ("3x10", lambda: gen.wide(3, 10, every=False, tables=(0, 1, 2) if t else (0,), bs=None if t else [(4, -3, 2)])),
        ("8x2", lambda: gen.tall(8, 2, every=t, objs=("max", "min") if t else ("max",))),
        ("11x3", lambda: gen.tall(11, 3, every=False, tables=(0, 1, 2) if t else (0,), objs=("min", "max") if t else ("min",))),
        ("parallel columns", lambda: gen.every(gen.sef_parallel(((3, 4), (5, 13), (8, 18), (12, 20)) if t else ((3, 9), (8, 18))), 1 if t else 3)),
        ("other magnitudes", lambda: magnitudes(t)),
        ("many pivots", lambda: gen.many_pivots(t)),
        ("many small rows", lambda: gen.small_diagonals((10, 11, 12) if t else (10, 12))),
        ("2x2 complete", lambda: gen.full(2, 2, (-1, 0, 1), B2 if t else B2[1:2], [(1, 1), (1, -2)] if t else [(1, -2)], (1,))),
    ]
    if t:
        fams += [
            ("2x2 wider", lambda: gen.full(2, 2, (-1, 0, 1, 2), [(2, 1), (-1, -1)], [(2, 1)], (0,))),
            ("3x2 lists", lambda: gen.full(3, 2, (-1, 0, 1), [(1, 2, -1)], [(1, 1)], (0,), signs="+f", objs=("max",))),
        ]
    return fams


def families(tier):
    fams = plain_families(tier)
    return fams + lpref.warmed(fams, 150 if tier == "thorough" else 30)


def judge(p, want, x, what):
    status, value = want
    if status != "optimal":
        check(x is None, "{} returned {} but the program is {}", what, x, status)
        return
    check(x is not None, "{} returned None but the optimum is {}", what, value)
    xs = lpref.clean_list(x)
    check(len(xs) == len(p["c"]), "{} returned a vector of length {}", what, len(xs))
    if "scaled" in p:
        judge_relative(p, value, xs, what)
        return
    scale = 1 + max([abs(v) for v in xs] + [0])
    check(lpref.slack_violation(p, xs) <= 1e-6 * scale, "{} returned the infeasible point {}", what, xs)
    v = lpref.value(p, xs)
    check(abs(v - value) <= 1e-6 * scale * (1 + abs(value)), "{} returned {} with value {}, the optimum is {}", what, xs, v, value)


def judge_relative(p, value, xs, what):
    """Every residual and the value are measured against the size of the numbers that enter them."""
    A, b, c, z = lpref.data(p)
    for row, rhs, rel in zip(A, b, p["rel"]):
        d = sum(u * v for u, v in zip(row, xs)) - rhs
        size = max(map(abs, row)) * max(map(abs, xs)) + abs(rhs)
        d = d if rel == "<=" else -d if rel == ">=" else abs(d)
        check(d <= 1e-7 * size, "{} returned the infeasible point {}", what, xs)
    size = max(map(abs, xs))
    check(all(s == "f" or (v if s == "+" else -v) >= -1e-7 * size for s, v in zip(p["sign"], xs)), "{} returned {} against the signs", what, xs)
    v = lpref.value(p, xs)
    size = max(map(abs, c)) * max(map(abs, xs)) + abs(z) + abs(value)
    check(abs(v - value) <= 1e-7 * size, "{} returned {} with value {}, the optimum is {}", what, xs, v, value)


def run(p, ctx):
    stub.fast_steps()
    want = lpref.status(p) if len(p["c"]) <= 12 and "large" not in p else lpref.status_by_certificate(p)
    lp = lpref.build(p)
    ctx.state(lpref.key(p))
    x = lp.solve(show_steps=False)
    judge(p, want, x, "solve")
    value = lp.optimal_value()
    ctx.call(3)
    if want[0] != "optimal":
        check(value is None, "optimal_value is {} but the program is {}", value, want[0])
    else:
        if "scaled" in p:
            tolerance = 1e-7 * ((max(map(abs, p["c"])) * max(map(abs, x)) + abs(p["z"])) / p["D"] + abs(float(want[1])))
        else:
            tolerance = 1e-6 * (1 + abs(want[1])) * (1 + max(map(abs, p["b"] + [1])) / p["D"])
        check(value is not None and abs(value - want[1]) <= tolerance,
              "optimal_value is {}, the optimum is {}", value, want[1])
    judge(p, want, lp.solve(show_steps=False), "solving again")
    ctx.note(want[0])
