"""Expression trees over variables and numbers: exact meaning, and construction through the package's operators."""

from fractions import Fraction as F
from itertools import product

WIDTH = 4  # variables 1..4


def meaning(t):
    """({index: coefficient}, constant), exactly; indices from 1."""
    kind = t[0]
    if kind in "vx":
        return {t[1]: F(1)}, F(0)
    if kind == "n":
        return {}, F(t[1])
    if kind in ("neg", "pos"):
        s = -1 if kind == "neg" else 1
        terms, constant = meaning(t[1])
        return {k: s * v for k, v in terms.items()}, s * constant
    (a, ca), (b, cb) = meaning(t[1]), meaning(t[2])
    if kind in ("*", "*="):
        if t[2][0] == "n":
            return {k: v * cb for k, v in a.items()}, ca * cb
        return {k: v * ca for k, v in b.items()}, ca * cb
    s = 1 if kind in ("+", "+=") else -1
    terms = dict(a)
    for k, v in b.items():
        terms[k] = terms.get(k, F(0)) + s * v
    return terms, ca + s * cb


def vector(m, width=WIDTH):
    return [float(m[0].get(j + 1, 0)) for j in range(width)], float(m[1])


def leaf(t, vs):
    from pytimize.formulations import linear
    if t[0] == "v":
        return vs[t[1] - 1]
    if t[0] == "x":
        if len(t) > 2:
            import numpy
            return linear.x[getattr(numpy, t[2])(t[1])]
        return linear.x[t[1]]
    return number(t[1], t[2]) if len(t) > 2 else t[1]


def number(value, kind):
    """A number of another type than int and float."""
    import numpy
    return F(value) if kind == "fraction" else getattr(numpy, kind)(value)


def construct(t, vs):
    kind = t[0]
    if kind in "vxn":
        return leaf(t, vs)
    a = construct(t[1], vs)
    return combine(kind, a, construct(t[2], vs) if len(t) > 2 else None)


def combine(kind, a, b):
    if kind == "neg":
        return -a
    if kind == "pos":
        return +a
    if kind == "+":
        return a + b
    if kind == "-":
        return a - b
    if kind == "*":
        return a * b
    if kind == "+=":
        a += b
    elif kind == "-=":
        a -= b
    elif kind == "*=":
        a *= b
    return a


def is_number(t):
    """Whether the tree contains no variable (Python then evaluates it without the package)."""
    return t[0] == "n" or t[0] in ("neg", "pos") and is_number(t[1]) or t[0] not in ("v", "x") and len(t) == 3 and is_number(t[1]) and is_number(t[2])


LEAVES = [["v", 1], ["v", 3], ["x", 1], ["x", 2], ["n", 2], ["n", -3], ["n", 0], ["n", 0.5]]


def unary(operands):
    for a in operands:
        if not is_number(a):
            yield ["neg", a]
            yield ["pos", a]


def sums(left, right, ops=("+", "-", "+=", "-=")):
    for a, b in product(left, right):
        if not (is_number(a) and is_number(b)):
            for op in ops:
                yield [op, a, b]


def multiples(operands, numbers=(["n", 2], ["n", -3], ["n", 0], ["n", 0.5], ["n", -1])):
    for a in operands:
        if not is_number(a):
            for k in numbers:
                yield ["*", a, k]
                yield ["*", k, a]
                yield ["*=", a, k]


def level1(leaves=LEAVES):
    return list(unary(leaves)) + list(sums(leaves, leaves)) + list(multiples(leaves))


def orders(n):
    """Some orders of the numbers 1 to n."""
    up = list(range(1, n + 1))
    return [up, up[::-1], up[1::2] + up[::2], sorted(up, key=str), [n] + up[2::3], up[::3] + [n]]


def long_sum(indices, how, style="v", coefficients=(1, -2, 3, 1, 0.5)):
    """A sum of many terms, nested to the left or right or in halves, or grown in place."""
    terms = []
    for k, i in enumerate(indices):
        leaf_, a = [style if style != "vx" else "vx"[k % 2], i], coefficients[k % len(coefficients)]
        terms.append(leaf_ if a == 1 else ["*", ["n", a], leaf_] if k % 2 else ["*", leaf_, ["n", a]])

    def fold(ts):
        if len(ts) == 1:
            return ts[0]
        if how == "halves":
            return ["+", fold(ts[:len(ts) // 2]), fold(ts[len(ts) // 2:])]
        if how == "right":
            return ["-" if len(ts) % 3 == 0 else "+", ts[0], fold(ts[1:])]
        out = ts[0]
        for k, term in enumerate(ts[1:]):
            out = [("+=" if k % 3 else "-=") if how == "grown" else ("+" if k % 4 else "-"), out, term]
        return out

    return fold(terms)


def constraint_row(lp, row, width=WIDTH):
    """(coefficients, relation, right side) of one row, padded to width."""
    a = [float(v) for v in lp.A[row]]
    return a + [0.0] * (width - len(a)), lp.inequalities[row], float(lp.b[row])


FLIP = {"<=": ">=", ">=": "<=", "=": "="}


def same_constraint(got, coefficients, relation, value):
    """Equal, or equal after multiplying both sides by -1."""
    a, r, b = got
    return (a == coefficients and r == relation and b == value) or (
        [-v for v in a] == coefficients and FLIP[r] == relation and -b == value)
