from itertools import product

from ..core import check
from ..formulas import FLIP, LEAVES, combine, construct, constraint_row, is_number, level1, long_sum, meaning, multiples, orders, same_constraint, sums, unary, vector

TITLE = "operators and comparisons of formulation expressions"
BOUNDS = ("Every expression tree of depth 1 and 2 with an operand of depth 0 over two variables() variables, two x[] variables and the numbers 2, -3, 0, 1/2, with +, -, "
          "unary signs, multiplication from both sides and in-place forms; all sums and differences of two depth 1 trees (quick: a fixed third); "
          "longer chains over a smaller alphabet; every comparison (<=, >=, ==) of every two trees of depth 0 and of a list of depth 1 trees; the same with NumPy integers, NumPy floats and fractions as numbers and NumPy integers as indices; single operations and comparisons with numbers from 1e-300 to 1e300; sums of up to 130 (thorough: 139) variables in six orders and four ways of nesting, alone, combined and compared; products of variables and operands of nine other types.")
ASSUMPTIONS = ["a variable compared with 0 by <= or >= is a sign condition, everything else a constraint", "multiplying a constraint by -1 leaves it the same constraint"]


OTHERS = ["None", "'2'", "'a'", "[1]", "()", "{}", "1j", "object()", "len"]


def families(tier):
    t = tier == "thorough"
    one = level1()
    small = [["v", 1], ["x", 2], ["n", 3]]
    few = one if t else one[::3]

    def deep():
        trees = list(small)
        for _ in range(4 if t else 3):
            new = list(unary(trees)) + list(sums(trees, small, ("+", "-"))) + list(sums(small, trees, ("-",))) + list(multiples(trees, (["n", -2],)))
            trees = new if len(new) < 9000 else new[::len(new) // 9000 + 1]
            for tree in new:
                yield {"tree": tree}

    typed = [["n", 2, "int64"], ["n", -3, "int32"], ["n", -128, "int8"], ["n", 200, "uint8"], ["n", 0, "int64"], ["n", 0.5, "float64"], ["n", -0.25, "float32"],
             ["n", 1.5, "float16"], ["n", 0.75, "fraction"], ["n", -3, "fraction"]]
    owners = [["v", 1], ["x", 2], ["x", 3, "int64"], ["x", 1, "uint8"], ["+", ["v", 2], ["n", 1]], ["-", ["n", 2, "uint8"], ["v", 3]], ["*", ["x", 2], ["n", -3, "int32"]], ["+", ["v", 1], ["x", 1, "int32"]]]

    def types():
        for part in (unary(owners), sums(owners, typed), sums(typed, owners, ("+", "-")), multiples(owners, typed), sums(owners, owners, ("+", "-")), sums(owners, LEAVES)):
            for tree in part:
                yield {"tree": tree}
        for e in owners:
            for k in typed + owners + LEAVES:
                for a, b in ((e, k), (k, e)):
                    for rel in ("<=", ">=", "=="):
                        yield {"left": a, "right": b, "rel": rel}

    extreme = [["n", s * v] for v in (1e-5, 1e-7, 1e-9, 1e-10, 1e-12, 1e-16, 5e-300, 12345678.9, 1e9 + 0.5, 1e16, 2 ** 53 + 2, 1e300) for s in (1, -1)]

    def magnitudes():
        owners = [["v", 1], ["x", 2], ["+", ["v", 2], ["n", 1]], ["-", ["v", 1], ["x", 3]]]
        for part in (sums(owners, extreme), sums(extreme, owners, ("+", "-")), multiples(owners, extreme)):
            for tree in part:
                yield {"tree": tree}
        for e in owners:
            for k in extreme:
                for a, b in ((e, k), (k, e), (["*", e, k], ["v", 4])):
                    for rel in ("<=", ">=", "=="):
                        yield {"left": a, "right": b, "rel": rel}

    def many():
        for n in (5, 8, 9, 10, 11, 12, 16, 17, 20, 33, 64, 65, 100, 130) if not t else range(5, 140):
            for k, indices in enumerate(orders(n)):
                for how in ("left", "right", "halves", "grown"):
                    s = long_sum(indices, how, ("v", "x", "vx")[k % 3])
                    r = long_sum(orders(n)[(k + 2) % 6], how, "x")
                    one = ["x", n]
                    for tree in (s, ["+", s, ["n", 7]], ["*", s, ["n", -2]], ["neg", s], ["-", s, r], ["+", r, s], ["+=", s, r], ["-=", ["+", r, ["n", 1]], s], ["-", ["n", 3], s], ["+", ["v", 1], s], ["-", one, s], ["-", s, s]):
                        yield {"tree": tree, "width": n}
                    for a, b in ((s, r), (s, ["n", 5]), (["n", 2], s), (["v", 2], s), (s, one), (["v", n], s), (["v", n], ["n", 3]), (["v", n], ["n", 0])):
                        for rel in ("<=", ">=", "=="):
                            yield {"left": a, "right": b, "rel": rel, "width": n}

    refused = [(op, a, b) for a in owners for b in OTHERS for op in ("+", "-", "*", "+=", "-=", "*=")] + [("*", a, b) for a in owners[:3] + [["-", ["v", 1], ["v", 2]]] for b in owners]
    zeros = [["n", 0.0], ["n", -0.0]]
    comparable = LEAVES + [e for e in one if e[0] in ("+", "-", "*", "neg", "pos")][::1 if t else 2]
    return [
        ("depth 0 and 1", lambda: ({"tree": e} for e in LEAVES + one)),
        ("depth 2", lambda: ({"tree": e} for part in (unary(one), sums(one, LEAVES, ("+", "-", "+=")), sums(LEAVES, one, ("+", "-", "-=")), multiples(one)) for e in part)),
        ("depth 2, both sides", lambda: ({"tree": e} for e in sums(few, few, ("+", "-")))),
        ("chains", deep),
        ("comparisons with leaves", lambda: ({"left": a, "right": b, "rel": r} for a, b in product(comparable, LEAVES) for c in ((a, b), (b, a)) for a, b in [c] for r in ("<=", ">=", "==")
                                             if not (is_number(a) and is_number(b)))),
        ("numbers of other types", types),
        ("many variables", many),
        ("magnitudes", magnitudes),
        ("other operands", lambda: ({"op": op, "one": a, "two": b, "swap": swap} for op, a, b in refused for swap in ((0, 1) if len(op) == 1 else (0,)))),
        ("comparisons with float zeros", lambda: ({"left": a, "right": b, "rel": r} for e, z in product(comparable, zeros) for a, b in ((e, z), (z, e)) for r in ("<=", ">=", "==") if not is_number(e))),
        ("comparisons", lambda: ({"left": a, "right": b, "rel": r} for a, b in product(comparable[::2], comparable[::1 if t else 5]) for r in ("<=", ">=", "==") if not (is_number(a) and is_number(b)))),
    ]


def run(case, ctx):
    from pytimize.formulations.linear import maximize, minimize, variables, x
    WIDTH = case.get("width", 4)
    vs = variables(WIDTH)
    ctx.call()
    if "op" in case:
        one = construct(case["one"], vs)
        two = construct(case["two"], vs) if isinstance(case["two"], list) else eval(case["two"])
        if case["swap"]:
            one, two = two, one
        try:
            result = combine(case["op"], one, two)
        except TypeError:
            ctx.note("refused")
            return
        check(False, "{} {} {} gives {}", case["one"], case["op"], case["two"], result)
    if "tree" in case:
        tree = case["tree"]
        coefficients, constant = vector(meaning(tree), WIDTH)
        e = construct(tree, vs)
        lp = maximize(e).subject_to(x[WIDTH] <= 1).program
        check([float(v) for v in lp.c] == coefficients and float(lp.z) == constant, "the expression is {} + {}, expected {} + {}", list(lp.c), lp.z, coefficients, constant)
        check(lp.objective == "max" and minimize(e).subject_to(x[WIDTH] <= 1).program.objective == "min", "wrong sense")
        ctx.state(coefficients, constant)
        return
    a, b, rel = case["left"], case["right"], case["rel"]
    ma, mb = meaning(a), meaning(b)
    terms = {k: ma[0].get(k, 0) - mb[0].get(k, 0) for k in {**ma[0], **mb[0]}}
    coefficients, value = vector((terms, mb[1] - ma[1]), WIDTH)
    left, right = construct(a, vs), construct(b, vs)
    c = left <= right if rel == "<=" else left >= right if rel == ">=" else left == right
    relation = "=" if rel == "==" else rel
    if "v" in (a[0], b[0]) and rel != "==" and any(k[0] == "n" and k[1] == 0 for k in (a, b)):
        var = (a if a[0] == "v" else b)[1]
        relation = relation if a[0] == "v" else FLIP[relation]
        lp = maximize(x[1]).subject_to(x[WIDTH] <= 1).where(c).program
        others = [j for j in range(1, WIDTH + 1) if j != var]
        check(sorted(int(j) for j in lp.free_variables) == others, "{} {} {}: free variables {}", a, rel, b, lp.free_variables)
        check([int(j) for j in lp.negative_variables] == ([var] if relation == "<=" else []), "{} {} {}: negative variables {}", a, rel, b, lp.negative_variables)
        return
    lp = maximize(x[1]).subject_to(c, x[WIDTH] <= 1).program
    got = constraint_row(lp, 0, WIDTH)
    check(same_constraint(got, coefficients, relation, value), "{} {} {} is the constraint {}, expected {} {} {}", a, rel, b, got, coefficients, relation, value)
    check(constraint_row(lp, 1, WIDTH) == ([0.0] * (WIDTH - 1) + [1.0], "<=", 1.0), "the other row changed to {}", constraint_row(lp, 1, WIDTH))
    ctx.state(coefficients, relation, value)
