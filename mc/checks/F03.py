from itertools import product

from ..core import check
from .. import stub
from ..formulas import combine, constraint_row, construct, long_sum, meaning, orders, same_constraint, vector

TITLE = "expressions are values"
BOUNDS = ("Every sequence of 1 and 2 (thorough: 3, the third on a result of the others or formulating a program) operations on a pool of two variables, an x[] expression and a two-term expression with a constant: all sums, differences, "
          "multiples and in-place forms of pool members (results join the pool), comparisons, objectives, formulated programs (also after a wider one from the same objective and constraints), sign conditions on a program, and in-place changes of a "
          "program; the same with sums of up to 12 (thorough: 20) variables in the pool; after every sequence every expression, constraint, objective and program of the pool is observed (twice) and compared with its meaning.")
ASSUMPTIONS = ["in-place operators rebind the name on the left and leave the object it named as it was"]

START = [["v", 1], ["v", 2], ["x", 2], ["+", ["-", ["*", ["v", 1], ["n", 2]], ["x", 3]], ["n", 3]]]


def start(width):
    """The pool at the beginning: the one above, or the same with sums of many variables."""
    if width == 4:
        return START
    return [["v", 1], ["x", width], long_sum(orders(width)[0][:5], "left"), long_sum(orders(width)[1], "grown", "vx")]


def moves(size):
    """Operations on a pool with `size` expressions; the last of them only on recent members."""
    out = []
    for i, j in product(range(size), repeat=2):
        out += [("+", i, j), ("-", i, j), ("+=", i, j), ("-=", i, j)]
        if i < j:
            out += [("<=", i, j), ("==", j, i)]
    for i in range(size):
        out += [("neg", i), ("pos", i), ("*", i, 2), ("*=", i, -3), ("r*", i, 0.5), ("+n", i, 4), ("n-", i, 1), ("-=n", i, 2), ("cmp", i, 6), ("rcmp", i, -1), ("program", i), ("twin", i)]
    return out


def families(tier):
    t = tier == "thorough"

    def sequences(depth):
        first = moves(len(START))
        for k in range(len(first)):
            if depth < 3:
                yield {"first": k, "depth": depth}
            else:
                for k2 in range(len(moves(len(START) + (1 if makes(first[k]) else 0)))):
                    yield {"first": k, "second": k2, "depth": 3}

    def long():
        for width in (6, 9, 12, 20) if t else (9, 12):
            for k in range(len(moves(len(START)))):
                yield {"first": k, "depth": 2 if t or width == 12 else 1, "width": width}

    return [("long sums", long), ("1 operation", lambda: sequences(1)), ("2 operations", lambda: sequences(2))] + ([("3 operations", lambda: sequences(3))] if t else [])


def makes(move):
    """Whether the move adds an expression to the pool."""
    return move[0] in ("+", "-", "+=", "-=", "neg", "pos", "*", "*=", "r*", "+n", "n-", "-=n")


class Pool:
    def __init__(self, width):
        from pytimize.formulations import linear
        self.linear = linear
        self.width = width
        self.vs = linear.variables(width)
        base = 2 * self.vs[0]
        self.items = [(tree, construct(tree, self.vs)) for tree in start(width)] if width > 4 else [(START[0], self.vs[0]), (START[1], self.vs[1]), (START[2], linear.x[2]), (START[3], base - linear.x[3] + 3)]
        self.constraints, self.programs = [], []

    def apply(self, move):
        op, i = move[0], move[1]
        tree, e = self.items[i]
        if makes(move):
            if op in ("+", "-", "+=", "-="):
                new = ([op, tree, self.items[move[2]][0]], combine(op, e, self.items[move[2]][1]))
            elif op in ("neg", "pos"):
                new = ([op, tree], combine(op, e, None))
            elif op in ("*", "*="):
                new = ([op, tree, ["n", move[2]]], combine(op, e, move[2]))
            elif op == "r*":
                new = (["*", ["n", move[2]], tree], move[2] * e)
            elif op == "+n":
                new = (["+", tree, ["n", move[2]]], move[2] + e)
            elif op == "n-":
                new = (["-", ["n", move[2]], tree], move[2] - e)
            else:
                new = (["-", tree, ["n", move[2]]], combine("-=", e, move[2]))
            self.items.append(new)
        elif op in ("<=", "=="):
            other, f = self.items[move[2]]
            self.constraints.append((["-", tree, other], "=" if op == "==" else op, e <= f if op == "<=" else e == f))
        elif op == "cmp":
            self.constraints.append((["-", tree, ["n", move[2]]], "<=", e <= move[2]))
        elif op == "rcmp":
            self.constraints.append((["-", ["n", move[2]], tree], "<=", move[2] <= e))
        elif op == "program":
            given = list(self.constraints) + [(["-", tree, ["n", 8]], "<=", e <= 8)]
            self.programs.append((tree, given, "max", self.linear.maximize(e).subject_to(*[g[2] for g in given]), {}))
        else:
            # two programs from one objective and the same constraints; the first is then changed in every way there is
            given = list(self.constraints) + [(["-", tree, ["n", 7]], "=", e == 7)]
            objective = self.linear.minimize(e)
            wide = objective.subject_to(self.linear.x[self.width] <= 1, *[g[2] for g in given]).whereAllPositive()
            check(wide.program.A.shape == (len(given) + 1, self.width), "a program with all variables has the shape {}", wide.program.A.shape)
            one, two = objective.subject_to(*[g[2] for g in given]), objective.subject_to(*[g[2] for g in given])
            two.program
            one.where(self.vs[0] <= 0)
            lp = one.program
            for change in (lambda: lp.add_constraint([1] * lp.A.shape[1], 1, "<=", in_place=True), lambda: lp.to_sef(in_place=True), lambda: lp.to_canonical_form([1], in_place=True),
                           lambda: lp.add_variable([1] * lp.A.shape[0], 1, in_place=True)):
                try:
                    change()
                except (ValueError, ArithmeticError, TypeError, IndexError):
                    pass
            self.programs.append((tree, given, "min", two, {}))
            three = objective.subject_to(*[g[2] for g in given]).where(self.vs[0] >= 0)
            self.programs.append((tree, given, "min", three, {1: "+"}))

    def verify(self, ctx):
        x = self.linear.x
        for tree, e in self.items:
            coefficients, constant = vector(meaning(tree), self.width)
            lp = self.linear.maximize(e).subject_to(x[self.width] <= 1).program
            check([float(v) for v in lp.c] == coefficients and float(lp.z) == constant, "the expression {} is now {} + {}", tree, list(lp.c), lp.z)
            ctx.state(coefficients, constant)
        for tree, rel, c in self.constraints:
            lp = self.linear.maximize(0).subject_to(x[self.width] <= 1, c).program
            self.row(lp, 1, tree, rel)
        for tree, given, obj, p, signs in self.programs:
            lp = p.program
            coefficients, constant = vector(meaning(tree), self.width)
            got = [float(v) for v in lp.c]
            named = {j for part in (tree, *[g[0] for g in given]) for j in meaning(part)[0]}
            check(len(got) == max(named, default=0), "a program of the variables {} has {} columns", sorted(named), len(got))
            check(got + [0.0] * (self.width - len(got)) == coefficients and float(lp.z) == constant and lp.objective == obj, "the objective {} of a program is now {} {} + {}", tree, lp.objective,
                  got, lp.z)
            check(len(lp.A) == len(given), "a program has {} rows instead of {}", len(lp.A), len(given))
            for k, (left, rel, _) in enumerate(given):
                self.row(lp, k, left, rel)
            free = [j for j in range(1, len(got) + 1) if j not in signs]
            check(sorted(int(j) for j in lp.free_variables) == free and not list(lp.negative_variables), "free variables {}, negative variables {}", lp.free_variables, lp.negative_variables)
        ctx.call()

    def row(self, lp, k, tree, rel):
        terms, constant = meaning(tree)
        coefficients, value = vector((terms, -constant), self.width)
        check(same_constraint(constraint_row(lp, k, self.width), coefficients, rel, value), "the constraint {} {} 0 is now {}", tree, rel, constraint_row(lp, k, self.width))


def run(case, ctx):
    stub.fast_steps()
    first = moves(len(START))[case["first"]]
    prefix = [first]
    size = len(START) + makes(first)
    if "second" in case:
        prefix.append(moves(size)[case["second"]])
        size += makes(prefix[-1])
    tails = [()] if case["depth"] == len(prefix) else [(m,) for m in moves(size)]
    if case["depth"] == 3:  # the third operation works with a result, or builds a program
        tails = [m for m in tails if m[0][0] in ("program", "twin") or m[0][1] >= len(START)]
    for tail in tails:
        pool = Pool(case.get("width", 4))
        for move in prefix + list(tail):
            pool.apply(move)
        pool.verify(ctx)
        if case["depth"] < 3:
            pool.verify(ctx)
        ctx.validated()
