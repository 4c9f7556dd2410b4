from itertools import combinations, permutations, product

from ..core import check
from ..formulas import WIDTH, constraint_row, leaf, orders, same_constraint
from ..lputil import raises

TITLE = "maximize/minimize(...).subject_to(...).where(...)"
BOUNDS = ("Every objective over subsets of 3 variables from a coefficient list (zeros, plain numbers and single variables included), every list of 1 to 3 "
          "constraints from a pool that mentions subsets, both senses, both variable styles, and a part of this through the integer formulations, with boxed ones solved against all integer points; every sequence of up to 3 calls of where() with 0 to 2 conditions, "
          "whereAllPositive() and whereAllNegative(), with the program read between the calls or only at the end; programs of up to 110 variables or 100 rows with conditions on some of them.")
ASSUMPTIONS = ["sign conditions name variables of the program", "multiplying a constraint by -1 leaves it the same constraint",
               "an integer program is told by its class and by refusing a fractional point that its relaxation accepts"]

# objectives and constraints: {index: coefficient}, constant
OBJECTIVES = [({}, 5), ({1: 1}, 0), ({2: 1}, 0), ({3: 1}, 0), ({1: 2, 2: -3}, 0), ({3: 4}, -1), ({1: 1, 2: 1, 3: 1}, 2), ({2: -1, 3: 0.5}, 0.25), ({4: 2}, 0), ({1: -1, 4: 3}, 7), ({1: 2, 3: 0}, 0), ({2: 0}, 1), ({1: 0, 4: 0, 2: 5}, 0)]
ROWS = [({1: 1}, "<=", 4), ({2: 1, 1: -2}, ">=", -1), ({3: 2}, "==", 6), ({1: 1, 2: 1, 3: 1}, "<=", 9), ({2: 3}, ">=", 0.5), ({4: 1, 1: 1}, "==", -2), ({3: 1, 2: -1}, "<=", 0), ({1: 1, 3: 0}, "<=", 3), ({2: 0}, ">=", -1)]


def calls(n):
    """The alphabet of condition calls on a program of n variables."""
    single = [(i, s) for i in range(1, n + 1) for s in "+-"]
    out = [[]] + [[c] for c in single] + [[a, b] for a, b in product(single, repeat=2)]
    return [["where", c] for c in out] + [["where", [["all", "+"]]], ["where", [["all", "-"]]], ["whereAllPositive"], ["whereAllNegative"],
                                         ["where", [["all", "+"], [1, "-"]]], ["where", [["all", "-"], [1, "-"]]]]


def families(tier):
    t = tier == "thorough"

    def programs(objectives, lists, styles=("v", "x"), module="linear"):
        for o in objectives:
            for rows in lists:
                for obj in ("max", "min"):
                    for style in styles:
                        yield {"objective": o, "rows": list(rows), "obj": obj, "style": style, "module": module}

    def conditions(n, depth, alphabet, base):
        for k in range(1, depth + 1):
            for seq in product(range(len(alphabet)), repeat=k):
                for read in (True, False):
                    yield {**base, "calls": [alphabet[i] for i in seq], "read": read}

    base2 = {"objective": 4, "rows": [1], "obj": "max", "style": "v"}
    base3 = {"objective": 6, "rows": [0, 3], "obj": "min", "style": "x"}
    base1 = {"objective": 1, "rows": [0], "obj": "min", "style": "v"}
    c2, c3 = calls(2), calls(3)
    short = [c for c in c2 if len(c) == 1 or len(c[1]) < 2 or c[1] in ([(1, "+"), (2, "-")], [(1, "-"), (1, "+")], [(2, "+"), (1, "+")])]
    pairs_ = list(permutations(range(len(ROWS)), 2)) + [(i, i) for i in range(len(ROWS))]
    triples = list(permutations(range(len(ROWS)), 3)) if t else list(combinations(range(len(ROWS)), 3))[::2]
    def many():
        sizes = [(n, m) for n in (5, 9, 10, 11, 12, 17, 20, 33, 64, 110) for m in (1, 2, 4)] + [(4, m) for m in (5, 9, 10, 11, 12, 20, 33, 100)] + [(12, 12), (11, 25), (30, 11)]
        if t:
            sizes += [(n, m) for n in range(5, 40) for m in range(1, 16)]
        for n, m in sizes:
            some = sorted({1, 2, n // 2, n - 1, n} | ({10, 11} if n > 10 else set()))
            signs = {i: "+-"[k % 2] for k, i in enumerate(some)}
            for k in range(6):
                for obj in ("max", "min"):
                    for style, module in (("v", "linear"), ("x", "linear"), ("v", "integer")):
                        base = {"objective": k, "rows": [], "many": [n, m], "obj": obj, "style": style, "module": module}
                        yield base
                        if k == 0:
                            full = max([i for o in [large(base)] for a in [o[0][0]] + [r[0] for r in o[1]] for i in a])
                            for i in some:
                                if i <= full:
                                    for read in (True, False):
                                        yield {**base, "calls": [["where", [[i, "+"]]]], "read": read}
                                        yield {**base, "calls": [["where", [[i, "-"]]], ["where", [[i, "+"]]]], "read": read}
                            conditions = [[i, s] for i, s in signs.items() if i <= full]
                            for calls in ([["where", conditions]], [["where", conditions[::-1]], ["where", []]], [["where", [c]] for c in conditions], [["whereAllPositive"]], [["whereAllNegative"]], [["where", [["all", "-"]]]],
                                          [["where", conditions[1:]], ["whereAllPositive"], ["where", conditions[:1]]]):
                                yield {**base, "calls": calls, "read": True}

    return [
        ("many", many),
        ("1 row", lambda: programs(range(len(OBJECTIVES)), [(i,) for i in range(len(ROWS))])),
        ("2 rows", lambda: programs(range(len(OBJECTIVES)), pairs_)),
        ("3 rows", lambda: programs(range(len(OBJECTIVES)), triples)),
        ("integer, 1 and 2 rows", lambda: programs(range(len(OBJECTIVES)), [(i,) for i in range(len(ROWS))] + pairs_[::3], module="integer")),
        ("integer optimum", lambda: ({"box": [a, b, rhs, obj, style]} for a in product((1, 2, 3), repeat=2) for b in ((2, 3), (3, -1), (-1, 2)) for rhs in (4, 5, 7)
                                     for obj in ("max", "min") for style in ("v", "x"))),
        ("integer, conditions", lambda: conditions(2, 2, short, {**base2, "module": "integer"})),
        ("conditions, 1 variable", lambda: conditions(1, 4 if t else 3, calls(1), base1)),
        ("conditions, 2 variables", lambda: conditions(2, 2, c2, base2)),
        ("conditions, 2 variables, longer", lambda: conditions(2, 4 if t else 3, short, base2)),
        ("conditions, 3 variables", lambda: conditions(3, 2 if t else 1, c3, base3)),
    ]


def total(terms, constant, style, vs):
    """The expression with the given terms, built term by term (a bare variable or number where it is one)."""
    out = None
    for k, (i, a) in enumerate(terms.items()):
        v = leaf([style, i], vs)
        term = v if a == 1 else -v if a == -1 else a * v if k % 2 == 0 else v * a
        out = term if out is None else out + term
    if out is None:
        return constant
    return out + constant if constant else out


def large(case):
    """An objective and constraints with many variables, or many constraints."""
    n, m = case["many"]
    if n <= WIDTH:
        return OBJECTIVES[case["objective"]], [(a, r, v + k) for k in range(m) for a, r, v in [ROWS[k % len(ROWS)]]]
    order = orders(n)[case["objective"] % 6]
    objective = {i: (1, -2, 0.5, 3)[k % 4] for k, i in enumerate(order)}
    rows = []
    for k in range(m):
        chosen = orders(n)[(case["objective"] + k) % 6][k % 3::1 + k % 4] or [n]
        rows.append(({i: (1, 2, -1, 4, -3)[(j + k) % 5] for j, i in enumerate(chosen)}, ("<=", ">=", "==")[k % 3], (4, -1, 9, 0.5)[k % 4]))
    return (objective, 3), rows


def condition(c, vs):
    from pytimize.formulations.linear import x
    v = x if c[0] == "all" else vs[c[0] - 1]
    return v >= 0 if c[1] == "+" else v <= 0


def box(case, ctx):
    """The optimum of a boxed integer formulation, against all its integer points."""
    from pytimize.formulations import integer, linear
    a, c, rhs, obj, style = case["box"]
    for module in (integer, linear):
        vs = module.variables(2) if style == "v" else [module.x[1], module.x[2]]
        e = a[0] * vs[0] + a[1] * vs[1]
        rows = [e <= rhs, vs[0] + 0 * vs[1] <= 2, vs[1] + 0 * vs[0] <= 3]
        p = (module.maximize if obj == "max" else module.minimize)(c[0] * vs[0] + c[1] * vs[1] + 1).subject_to(*rows).whereAllPositive()
        ctx.call()
        check([bool(p.is_feasible(v, show_steps=False)) for v in ([0.5, 0.25], [1, 0.25], [0, 1])] == ([False, False, True] if module is integer else [True, True, True]),
              "fractional points are judged wrongly by the {} formulation", "integer" if module is integer else "linear")
        if module is integer:
            points = [v for v in product(range(3), range(4)) if a[0] * v[0] + a[1] * v[1] <= rhs]
            best = (max if obj == "max" else min)(c[0] * v[0] + c[1] * v[1] for v in points)
            got = [float(v) for v in p.branch_and_bound()]
            whole = [round(v) for v in got]
            check(all(abs(u - v) < 1e-6 for u, v in zip(got, whole)) and tuple(whole) in points, "{} is not an integer point of the program", got)
            check(c[0] * whole[0] + c[1] * whole[1] == best, "{} has not the best value {}", got, best)
    ctx.state(case["box"])


def run(case, ctx):
    if "box" in case:
        return box(case, ctx)
    from pytimize.formulations import integer, linear
    from pytimize.programs import IntegerProgram, LinearProgram
    module = integer if case.get("module") == "integer" else linear
    maximize, minimize, variables = module.maximize, module.minimize, module.variables
    vs = variables(max(WIDTH, case.get("many", [0])[0]))
    if "many" in case:
        (terms, constant), rows = large(case)
    else:
        terms, constant = OBJECTIVES[case["objective"]]
        rows = [ROWS[i] for i in case["rows"]]
    width = max([0, *terms] + [i for r in rows for i in r[0]])
    constraints = []
    for a, rel, value in rows:
        e = total(a, 0, case["style"], vs)
        if not hasattr(e, "equation") or value != 0:
            constraints.append(e <= value if rel == "<=" else e >= value if rel == ">=" else e == value)
        else:
            constraints.append(e + 0 <= value if rel == "<=" else e + 0 >= value if rel == ">=" else e == value)
    formulate = maximize if case["obj"] == "max" else minimize
    p = formulate(total(terms, constant, case["style"], vs)).subject_to(*constraints)
    ctx.call()

    wanted_class = IntegerProgram if module is integer else LinearProgram

    def verify(signs):
        for lp in (p.program, p):  # the formulated program also answers for the linear program
            check(lp.objective == case["obj"] and tuple(lp.A.shape) == (len(rows), width), "sense {} and shape {}", lp.objective, lp.A.shape)
            check(type(p.program) is wanted_class, "the program is a {}", type(p.program).__name__)
            check([float(v) for v in lp.c] == [float(terms.get(j, 0)) for j in range(1, width + 1)] and float(lp.z) == constant, "objective {} + {}", list(lp.c), lp.z)
            for k, (a, rel, value) in enumerate(rows):
                wanted = [float(a.get(j, 0)) for j in range(1, max(width, WIDTH) + 1)]
                got = constraint_row(lp, k, max(width, WIDTH))
                check(same_constraint(got, wanted, "=" if rel == "==" else rel, float(value)), "row {} is {}", k + 1, got)
            check(sorted(int(j) for j in lp.free_variables) == [j for j in range(1, width + 1) if j not in signs], "free variables {} for {}", lp.free_variables, signs)
            check(sorted(int(j) for j in lp.negative_variables) == [j for j in range(1, width + 1) if signs.get(j) == "-"], "negative variables {} for {}", lp.negative_variables, signs)
            check(sorted(int(j) for j in lp.positive_variables) == [j for j in range(1, width + 1) if signs.get(j) == "+"], "positive variables {} for {}", lp.positive_variables, signs)
        ctx.call()

    signs = {}
    if case.get("read", True):
        verify(signs)
    for call in case.get("calls", []):
        new = dict(signs)
        if call[0] == "where":
            stated = [(j, s) for c, s in call[1] for j in (range(1, width + 1) if c == "all" else [c])]
            f = lambda: p.where(*[condition(c, vs) for c in call[1]])  # noqa: E731
        else:
            stated = [(j, "+" if call[0] == "whereAllPositive" else "-") for j in range(1, width + 1)]
            f = getattr(p, call[0])
        refused = False
        for j, s in stated:
            refused = refused or j in new
            new[j] = s
        ctx.call()
        if refused:
            check(raises(ValueError, f), "{} was accepted after {}", call, signs)
        else:
            check(f() is not None, "{} returned nothing", call)
            signs = new
        if case["read"]:
            verify(signs)
    verify(signs)
    ctx.state(case["objective"], case["rows"], case["obj"], sorted(signs.items()))
