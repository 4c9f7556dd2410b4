"""Enumerations of linear programs shared by the checks (simplest first, fixed order)."""

import itertools
from itertools import product

RELS = ("<=", ">=", "=")
SIGNS = "+-f"


def program(A, b, c, rel, sign, obj, z=0, D=1):
    return {"A": [list(r) for r in A], "b": list(b), "c": list(c), "rel": list(rel), "sign": "".join(sign),
            "obj": obj, "z": z, "D": D}


def full(m, n, entries, bs, cs, zs=(0,), rels=RELS, signs=SIGNS, objs=("max", "min"), D=1):
    """Every program with m rows, n variables and the given entries, right sides, objectives."""
    for flat in product(entries, repeat=m * n):
        A = [flat[i * n:(i + 1) * n] for i in range(m)]
        yield from over([A], bs, cs, zs, rels, signs, objs, D)


def over(matrices, bs, cs, zs=(0,), rels=RELS, signs=SIGNS, objs=("max", "min"), D=1):
    for A in matrices:
        m, n = len(A), len(A[0])
        for b in bs:
            for c in cs:
                for z in zs:
                    for rel in product(rels, repeat=m):
                        for sign in product(signs, repeat=n):
                            for obj in objs:
                                yield program(A, b, c, rel, sign, obj, z, D)


def sef(m, n, entries, bs, cs, zs=(0,), D=1):
    for flat in product(entries, repeat=m * n):
        A = [flat[i * n:(i + 1) * n] for i in range(m)]
        for b in bs:
            for c in cs:
                for z in zs:
                    yield program(A, b, c, ["="] * m, "+" * n, "max", z, D)


def redundant(signs=("++", "+f", "-+"), objs=("max", "min")):
    """Two rows plus a third one that is a combination of them, with matching or contradicting value."""
    rows = [(1, 1), (1, -1), (1, 0), (2, 1), (0, 0)]
    for r1, r2 in product(rows, repeat=2):
        for b1, b2 in ((0, 0), (2, 1), (1, 2), (2, 0)):
            for k1, k2, extra in ((1, 1, 0), (2, 0, 0), (-1, 0, 0), (0, 1, 1), (0, 0, 0), (1, -1, 0)):
                r3 = tuple(k1 * u + k2 * v for u, v in zip(r1, r2))
                b3 = k1 * b1 + k2 * b2 + extra
                for rel in (("=", "=", "="), ("=", "<=", "="), ("<=", "=", ">="), ("<=", ">=", "<="), (">=", ">=", "=")):
                    for c in ((1, 2), (-1, 1)):
                        for sign in signs:
                            for obj in objs:
                                yield program([r1, r2, r3], (b1, b2, b3), c, rel, sign, obj)


M23 = [
    [(1, 1, 1), (1, -1, 0)],
    [(1, 0, 2), (0, 1, -1)],
    [(1, 2, 0), (2, 4, 1)],
    [(-1, 1, 1), (1, 1, -1)],
    [(2, 1, 1), (1, 2, 1)],
    [(1, 0, 0), (0, 0, 1)],
    [(0, 1, 1), (0, 1, 1)],
    [(3, -1, 2), (-2, 1, 1)],
]
M33 = [
    [(1, 0, 0), (0, 1, 0), (0, 0, 1)],
    [(1, 1, 0), (0, 1, 1), (1, 0, 1)],
    [(1, 2, 3), (3, 1, 2), (2, 3, 1)],
    [(1, -1, 0), (0, 1, -1), (-1, 0, 1)],
    [(2, 1, 1), (1, 1, 0), (1, 0, 1)],
    [(1, 1, 1), (1, 1, 1), (1, -1, 1)],
]
M24 = [
    [(1, 1, 0, 1), (0, 1, 1, -1)],
    [(1, -1, 2, 0), (1, 1, 0, 1)],
    [(2, 0, 1, 1), (1, 1, 1, 1)],
]

# classical cycling examples: maximise c x, A x <= b, x >= 0, degenerate at the origin
CYCLING = [
    # Beale
    {"A": [[1, -32, -4, 36], [1, -24, -1, 6], [0, 0, 1, 0]], "b": [0, 0, 1], "c": [3, -80, 2, -24], "div": [4, 2, 1],
     "cdiv": 4},
    # Chvatal
    {"A": [[1, -11, -5, 18], [1, -3, -1, 2], [1, 0, 0, 0]], "b": [0, 0, 1], "c": [10, -57, -9, -24], "div": [2, 2, 1],
     "cdiv": 1},
    # Kuhn
    {"A": [[-2, -9, 1, 9], [1, 3, -1, -6], [2, 3, -1, -12]], "b": [0, 0, 2], "c": [2, 3, -1, -12], "div": [1, 3, 1],
     "cdiv": 1},
    # Hoffman-like small degenerate
    {"A": [[1, -2, 1, 0], [1, 1, -2, 1], [-2, 1, 1, 1]], "b": [0, 0, 0], "c": [1, 1, 1, -1], "div": [1, 1, 1],
     "cdiv": 1},
]


def cycling(perms=None, rowperms=True, sef_form=False):
    """Cycling examples under column and row permutations (an all-integer scaling of the rows)."""
    for ex in CYCLING:
        n, m = 4, 3
        # data multiplied out: row i is A_i / div_i with value b_i; use integers A_i with value b_i * div_i
        A = [list(r) for r in ex["A"]]
        b = [v * d for v, d in zip(ex["b"], ex["div"])]
        c = ex["c"]
        for cp in (perms or itertools.permutations(range(n))):
            for rp in (itertools.permutations(range(m)) if rowperms else [tuple(range(m))]):
                A2 = [[A[i][j] for j in cp] for i in rp]
                b2 = [b[i] for i in rp]
                c2 = [c[j] for j in cp]
                if sef_form:
                    A3 = [r + [1 if k == i else 0 for k in range(m)] for i, r in enumerate(A2)]
                    yield program(A3, b2, c2 + [0] * m, ["="] * m, "+" * (n + m), "max")
                else:
                    yield program(A2, b2, c2, ["<="] * m, "+" * n, "max")


# degenerate cones (A x <= 0) on which other pivoting rules than Bland's cycle from the slack basis:
# (entering rule, leaving rule on ties), A, c
OTHER_RULES = [
    (('first', 'last'), [[3, 3, 1, 3, -2], [1, -3, -2, 0, 3], [2, 1, 0, -2, -1]], [-2, 1, 2, 0, 3]),
    (('first', 'last'), [[3, 1, 3, 0, 2], [0, 1, -2, -3, -2], [0, 3, 2, -2, 0]], [-2, -2, 1, -3, 3]),
    (('first', 'last'), [[2, 0, 1, 3], [0, -3, -2, -3], [-3, -3, -2, -2], [1, -3, -3, 1]], [1, -3, 3, 2]),
    (('first', 'last'), [[3, -2, -2, -1], [1, -1, -3, -2], [-1, -3, 1, -1], [-3, 1, -3, -2]], [3, -2, -3, 2]),
    (('first', 'last'), [[-3, 0, 2, 1], [3, 1, 3, -2], [-1, 0, 3, -1], [3, 3, 2, -1]], [2, 3, -3, 3]),
    (('first', 'smallpiv'), [[3, -3, 1, -3], [-2, -3, 3, 0], [1, 1, -2, -1]], [-3, -2, 2, 1]),
    (('first', 'smallpiv'), [[0, 0, 2, 3, 0], [-2, -3, -2, 1, -3], [1, 2, 1, -2, 1]], [-3, -3, -2, 2, -1]),
    (('first', 'smallpiv'), [[3, 1, -2, 3, -3], [-3, -2, -2, -2, -2], [2, 3, -1, -2, -2]], [0, 3, -1, -3, 3]),
    (('first', 'smallpiv'), [[-1, 3, 3, 3], [3, 1, 1, 0], [2, -3, -3, -3], [-3, 1, 2, 3]], [-3, 1, -3, 3]),
    (('first', 'smallpiv'), [[-2, -3, 1, 2], [3, 0, -3, -2], [-2, -2, 2, -1], [-2, -2, -2, 2]], [-2, -1, 2, -3]),
    (('first', 'smallpiv'), [[3, 3, -3, 2], [2, 0, 3, -2], [-3, -2, -2, 1], [-2, -3, 1, -1]], [3, 2, -1, 1]),
    (('last', 'first'), [[-2, 2, 2, -2], [1, 2, -2, 0], [2, 0, -1, -1]], [2, 2, -1, -1]),
    (('last', 'first'), [[-2, -1, 2, 1], [0, 2, 1, -2], [1, -1, 1, -1]], [2, 0, 2, -1]),
    (('last', 'first'), [[1, 2, -2, 2], [2, -2, 1, 2], [-2, 1, 2, 1]], [1, 1, 1, 1]),
    (('last', 'first'), [[2, -2, 0, -1], [-1, -3, 1, 2], [2, -2, 3, -2]], [3, -3, 2, 0]),
    (('last', 'first'), [[-3, 2, 1, 1], [1, -3, -2, 3], [3, -2, 1, -3]], [2, -3, 2, 3]),
    (('last', 'first'), [[-3, 3, -2, 1], [-2, -2, 1, 3], [-1, 1, 3, -1]], [-2, 3, 2, 2]),
    (('last', 'first'), [[1, 0, 3, -2, 2], [3, -1, 3, 1, -1], [0, 3, 1, 3, 2]], [1, 2, 1, 1, -2]),
    (('last', 'first'), [[3, 3, 2, -2, -2], [0, 1, 1, -1, 3], [-2, 2, 0, 2, 0]], [1, 2, -1, -1, 1]),
    (('last', 'first'), [[2, -3, -3, -1, 2], [-3, 1, 2, 3, 3], [0, 2, -1, -1, -1]], [1, 2, 3, -3, 1]),
    (('last', 'first'), [[-3, -3, 1, 1], [3, -1, 2, -3], [-1, -1, 1, 3], [-2, 3, 1, -2]], [2, 3, 3, 0]),
    (('last', 'first'), [[1, -2, -1, -3], [0, -2, -3, -2], [1, -3, 1, 3], [2, -1, -2, 2]], [3, -3, 1, 0]),
    (('last', 'first'), [[1, 0, 3, -2], [1, -3, 1, 2], [-2, 2, -3, 3], [0, 2, 2, -1]], [0, 3, -2, 3]),
    (('last', 'smallpiv'), [[2, 1, 2, 0], [0, 2, -1, 1], [1, 0, 2, 2]], [1, 1, -2, 1]),
    (('last', 'smallpiv'), [[1, 1, -3, 2], [2, 3, 1, -3], [-2, -1, 2, 2]], [3, 3, 3, 0]),
    (('last', 'smallpiv'), [[-2, -2, 3, 0], [3, -2, 1, 3], [-2, 2, 2, 1]], [-1, 1, 3, 1]),
    (('last', 'smallpiv'), [[-3, 2, 2, 1], [3, -3, 2, -3], [1, -2, -2, 3]], [2, -1, 3, 2]),
    (('last', 'smallpiv'), [[3, -2, -2, -2, -1], [-1, -2, 1, 3, -3], [-1, 3, 0, 1, -1]], [3, 0, -1, -1, -3]),
    (('last', 'smallpiv'), [[-2, 3, 2, -3, 3], [-1, 3, 3, -1, -2], [-3, -3, -2, 2, 2]], [-2, -1, -2, -1, 3]),
    (('last', 'smallpiv'), [[2, -3, -1, 3, 2], [1, -1, 1, -1, 1], [-1, 3, -3, -1, 2]], [-1, -1, 0, 2, 3]),
    (('last', 'smallpiv'), [[-2, 2, 0, -1], [-3, 3, 2, 0], [2, -3, 3, 2], [3, 1, -2, -1]], [2, 1, 1, -2]),
    (('last', 'smallpiv'), [[-1, -1, -2, 3], [3, -2, 2, 1], [-2, -3, -3, 2], [1, -3, -3, 0]], [1, -3, -2, 3]),
    (('last', 'smallpiv'), [[-2, 1, 2, 0], [-3, 1, 3, -3], [-2, -2, -2, 3], [0, 3, -1, 1]], [2, 2, 3, 2]),
    (('small', 'first'), [[2, 1, -2, -2], [-1, 2, -2, -1]], [2, 2, -2, 0]),
    (('small', 'first'), [[2, 2, 1, -2], [0, -1, 2, 1], [1, 1, -1, 2]], [2, -1, 2, 2]),
    (('small', 'first'), [[1, -1, 2, 2], [2, 0, 1, 0], [-2, 2, -2, -1]], [1, 2, -2, 0]),
    (('small', 'first'), [[1, 1, -2, 2], [-1, 2, 2, 1], [1, -2, 0, 0]], [2, 0, 1, 1]),
    (('small', 'first'), [[-3, 1, 1, 3], [2, -1, 1, 3], [1, 2, -2, -3]], [2, 3, 2, 3]),
    (('small', 'first'), [[1, -3, -1, -3], [3, -2, -1, -2], [2, 3, -3, 3]], [3, 0, -2, 2]),
    (('small', 'first'), [[3, -2, 2, 1], [2, -1, -3, 1], [3, 2, 1, -1]], [1, 3, 3, 2]),
    (('small', 'first'), [[1, 2, 1, 3, -3], [-3, 3, 1, -2, -2], [2, 1, 3, -2, 0]], [-1, -3, 3, 1, -3]),
    (('small', 'first'), [[-1, -3, 3, -2, 3], [0, -3, 1, 2, 2], [-3, 1, 1, 0, 3]], [-2, 0, 0, 1, 2]),
    (('small', 'first'), [[2, 3, 1, -3, -1], [-2, 1, 1, -1, 1], [-1, 3, 2, 1, -3]], [1, -1, 3, 3, -2]),
    (('small', 'first'), [[1, -1, 2, 2], [-3, 1, 3, -2], [2, 3, -3, 2], [0, 3, -2, 2]], [0, 2, 3, 2]),
    (('small', 'first'), [[2, -1, 2, -3], [-1, -2, -1, 3], [3, -1, -2, 0], [-2, 3, 2, -1]], [3, 2, 2, 3]),
    (('small', 'first'), [[2, -1, -3, 3], [1, 1, -1, 1], [0, -2, 3, -3], [1, -1, 1, 0]], [2, 2, 2, -1]),
    (('small', 'last'), [[0, 1, 2, -2], [1, 1, 0, 2], [2, 0, 2, 1]], [-2, 2, -2, 1]),
    (('small', 'last'), [[2, 0, 1, 0], [-2, 1, -1, 2], [1, 2, 0, 3]], [2, -3, 2, -1]),
    (('small', 'last'), [[1, -3, -2, 3, -2], [1, -2, -1, 1, 2], [3, 0, 2, 0, 3]], [-2, 3, 0, 1, 0]),
    (('small', 'last'), [[0, 2, 3, 0, 0], [1, 1, -1, 2, -2], [3, -2, -2, -3, 1]], [-2, -3, -1, 3, 2]),
    (('small', 'last'), [[-3, 1, 3, -1, 0], [0, 3, -2, 3, 1], [1, 3, 3, 1, -2]], [-1, -2, 1, -3, 3]),
    (('small', 'last'), [[-1, -3, 2, 2], [-3, 3, 2, 1], [-2, -3, -3, 0], [-2, -2, -1, -3]], [3, -2, 1, 1]),
    (('small', 'smallpiv'), [[0, 1, 2, 1], [1, 2, 1, 0]], [2, 1, -1, -2]),
    (('small', 'smallpiv'), [[1, 0, 2, 1], [0, 1, 1, 2]], [2, -2, 1, -1]),
    (('small', 'smallpiv'), [[2, -1, 2, 1], [-1, 0, 1, 1], [1, 2, 2, -1]], [1, 1, 1, 1]),
    (('small', 'smallpiv'), [[-1, 2, -2, 1], [0, 1, 0, -2], [2, 1, -2, -1]], [2, 1, 0, 0]),
    (('small', 'smallpiv'), [[1, 0, 2, 2], [2, 1, -2, -1], [0, -1, -1, 1]], [1, 1, 1, -2]),
    (('small', 'smallpiv'), [[0, -3, -3, -2], [-1, 2, -2, 1], [-1, 1, -3, 3]], [-2, 3, -1, -3]),
    (('small', 'smallpiv'), [[-2, 3, -2, -2], [2, 0, 3, 2], [3, 1, 1, -1]], [1, 2, 1, -1]),
    (('small', 'smallpiv'), [[-3, 2, 1, 0], [-1, 2, 2, 2], [-3, 1, 2, 1]], [-1, 3, -1, -1]),
    (('small', 'smallpiv'), [[-1, 1, 0, 2, -3], [3, 2, 0, 3, 1], [-1, -1, 2, 3, 1]], [1, -2, 3, 2, 1]),
    (('small', 'smallpiv'), [[0, -1, -2, -3, 0], [2, 0, -3, 2, -1], [1, 3, 2, -1, 3]], [2, 3, 3, 3, 0]),
    (('small', 'smallpiv'), [[1, -2, -1, 0, -1], [-1, 3, -1, -1, 1], [-1, 1, 3, -2, -2]], [-3, 2, 1, -2, 2]),
    (('small', 'smallpiv'), [[1, 3, 2, 0], [0, 1, -2, 1], [2, -3, 3, 3], [-1, 2, -2, -3]], [-1, 3, -1, -3]),
    (('small', 'smallpiv'), [[-3, -1, 2, -1], [-2, 2, 1, 0], [-3, -3, 1, -1], [3, -2, 3, 3]], [0, 0, 3, 1]),
    (('small', 'smallpiv'), [[2, -2, -2, 2], [-1, 2, 1, -2], [2, -2, 3, 1], [1, 3, 1, 0]], [1, 0, 2, 3]),
]


def other_rules(sef_form=True, reverse=False):
    """Programs on which pivoting rules other than Bland's cycle."""
    for _, A, c in OTHER_RULES:
        m, n = len(A), len(A[0])
        for order in ((list(range(n)), list(range(n))[::-1]) if reverse else (list(range(n)),)):
            rows = [[r[j] for j in order] for r in A]
            obj = [c[j] for j in order]
            if sef_form:
                rows = [r + [int(i == k) for k in range(m)] for i, r in enumerate(rows)]
                yield program(rows, [0] * m, obj + [0] * m, ["="] * m, "+" * (n + m), "max")
            else:
                yield program(rows, [0] * m, obj, ["<="] * m, "+" * n, "max")


def decimals(objs=("max", "min")):
    """Tenths that are not binary fractions, chosen so that rounding shows at ties and equalities."""
    mats = [
        [(1, 2, 3), (3, 3, 3)], [(1, 1, 1), (3, 1, 2)], [(7, 1, 1), (1, 3, 9)], [(1, -3, 2), (2, 3, -1)],
        [(1, 2, 3), (2, 4, 6)],
    ]
    for A in mats:
        for b in ((3, 3), (6, 3), (1, 7), (0, 3), (6, 12)):
            for c in ((1, 2, 3), (3, -1, 7), (1, 1, 1)):
                for rel in product(RELS, repeat=2):
                    for sign in ("+++", "+f-", "ff+", "-++"):
                        for obj in objs:
                            yield program(A, b, c, rel, sign, obj, 3, 10)


def near_ties(objs=("max",)):
    """Ratios that differ by one millionth, in every order of the rows and columns."""
    e = 10 ** 6
    for d1 in (e, e + 1, e - 1, e + 3):
        for d2 in (e, e + 1, e - 1):
            for a in ((e, e), (e, 2 * e), (2 * e, e)):
                for c in ((e, e), (e, 0), (2 * e, -e), (e, 2 * e)):
                    for k in (0, e, -e):
                        A = [(a[0], k), (a[1], e), (0, e)]
                        b = (d1, d2 * a[1] // a[0], e)
                        for perm in itertools.permutations(range(3)):
                            for obj in objs:
                                yield program([A[i] for i in perm], [b[i] for i in perm], c, ["<="] * 3, "++", obj, 0, e)


def large(objs=("max", "min")):
    """Mixed magnitudes."""
    mats = [[(1, 1000), (1000, 1)], [(100000, 1), (1, 1)], [(1, 1), (1, 1001)]]
    for A in mats:
        for b in ((1000000, 2000), (5, 70000), (1000, 1000)):
            for c in ((1, 1), (1000, 1), (1, -1)):
                for rel in product(RELS, repeat=2):
                    for sign in ("++", "f+", "-f"):
                        for obj in objs:
                            yield program(A, b, c, rel, sign, obj, 7)


def sef_degenerate(m, n, values, bs, cs, limit=None):
    """SEF programs with 0/1 style data and mostly zero right sides (degenerate phase one)."""
    yield from sef(m, n, values, bs, cs)


SEF35 = [
    [(1, 0, 0, 1, 1), (0, 1, 0, 1, -1), (0, 0, 1, -1, 1)],
    [(1, 1, 1, 0, 0), (0, 1, 1, 1, 0), (0, 0, 1, 1, 1)],
    [(0, 0, 1, 1, 0), (0, 1, 0, 0, 1), (1, 0, 0, 1, 1)],
    [(2, 1, 0, 0, 1), (1, 2, 1, 0, 0), (0, 1, 2, 1, 0)],
    [(1, -1, 0, 1, 0), (0, 1, -1, 0, 1), (-1, 0, 1, 1, 1)],
    [(1, 2, 3, 1, 0), (3, 1, 2, 0, 1), (1, 1, 1, 1, 1)],
]
SEF46 = [
    [(1, 0, 0, 0, 1, 1), (0, 1, 0, 0, 1, -1), (0, 0, 1, 0, -1, 1), (0, 0, 0, 1, 1, 2)],
    [(1, 1, 0, 0, 0, 1), (0, 1, 1, 0, 0, 1), (0, 0, 1, 1, 0, 1), (0, 0, 0, 1, 1, 1)],
    [(0, 1, 1, 1, 0, 0), (1, 0, 1, 0, 1, 0), (1, 1, 0, 0, 0, 1), (1, 1, 1, 1, 1, 1)],
]


def sef_lists(matrices, bs, cs, zs=(0,), D=1, colperms=False, rowsigns=False):
    for A in matrices:
        n = len(A[0])
        for b in bs:
            for c in cs:
                for z in zs:
                    for perm in (itertools.permutations(range(n)) if colperms else [tuple(range(n))]):
                        for signs in (product((1, -1), repeat=len(A)) if rowsigns else [(1,) * len(A)]):
                            yield program([[s * r[j] for j in perm] for s, r in zip(signs, A)],
                                          [s * v for s, v in zip(signs, b)], [c[j] for j in perm],
                                          ["="] * len(A), "+" * n, "max", z, D)


def sef_dependent():
    rows = [(1, 1, 1), (1, -1, 0), (0, 1, 2), (0, 0, 0)]
    for r1, r2 in product(rows, repeat=2):
        for b1, b2 in ((1, 0), (2, 1), (0, 0), (3, -1)):
            for k1, k2, extra in ((1, 1, 0), (2, 0, 0), (-1, 0, 0), (0, 1, 1), (0, 0, 0), (1, -1, 0), (0, -3, 0), (1, 1, -1)):
                r3 = tuple(k1 * u + k2 * v for u, v in zip(r1, r2))
                b3 = k1 * b1 + k2 * b2 + extra
                for c in ((1, 2, 1), (-1, 1, 0), (1, 1, -3)):
                    for order in itertools.permutations(range(3)):
                        rs, bs = [r1, r2, r3], [b1, b2, b3]
                        yield program([rs[i] for i in order], [bs[i] for i in order], c, ["="] * 3, "+++", "max", 1)


def sef_near_ties():
    e = 10 ** 6
    for d1, d2 in product((e, e + 1, e - 1, e + 7), repeat=2):
        for a in (e, 2 * e):
            for c in ((e, e, 0, 0), (2 * e, e, 0, 0), (e, -e, 0, 0)):
                for perm in itertools.permutations(range(4)):
                    A = [(e, 0, e, 0), (a, e, 0, e)]
                    b = (d1, d2 * a // e)
                    yield program([[r[j] for j in perm] for r in A], b, [c[j] for j in perm], ["=", "="], "++++", "max", 0, e)


def sef_decimals():
    for A in ([(1, 2, 3, 10), (3, 3, 3, 0)], [(1, 1, 1, 0), (3, 1, 2, 10)], [(7, 1, 1, 2), (1, 3, 9, 1)], [(1, -3, 2, 7), (2, 3, -1, 1)],
              [(1, 2, 3, 4), (3, 6, 9, 12)]):
        for b in ((3, 3), (6, 3), (1, 7), (0, 3), (-6, 3), (6, 18)):
            for c in ((1, 2, 3, 0), (3, -1, 7, 1), (1, 1, 1, 1), (-3, -1, -1, -7)):
                for perm in itertools.permutations(range(4)):
                    yield program([[r[j] for j in perm] for r in A], b, [c[j] for j in perm], ["=", "="], "++++", "max", 3, 10)


def entry(i, j, k=0):
    """A small deterministic integer for row i and column j of table k (no two columns alike within a table)."""
    return ((3 * i * i + 5 * j + i * j * (k + 1) + 2 * j * j * (i + 1) + k) % 7) - 2


def table(m, n, k=0):
    return [tuple(entry(i, j, k) for j in range(n)) for i in range(m)]


def sign_patterns(n, every=True):
    """All plus, all minus, all free, the alternating ones and (every) those with one or two odd variables."""
    out = ["+" * n, "-" * n, "f" * n, ("+-f" * n)[:n], ("f+" * n)[:n]]
    if every:
        for a, b in (("f", "+"), ("-", "+"), ("f", "-")):
            for j in range(n):
                out.append("".join(a if k == j else b for k in range(n)))
            for j in (1, n - 2):
                out.append("".join(a if k in (j, n - 1) else b for k in range(n)))
    return list(dict.fromkeys(out))


def wide(m, n, tables=(0, 1, 2), bs=None, objs=("max", "min"), every=True, rels=None, zs=(3,)):
    """Programs with many variables (indices of two digits from n = 10 on)."""
    bs = bs or [tuple((4, 7, 9)[i % 3] for i in range(m)), tuple((-3, 5, 2)[i % 3] for i in range(m)), (0,) * m]
    rels = rels or list(product(RELS, repeat=m))
    for k in tables:
        A = table(m, n, k)
        c = tuple(entry(m, j, k + 1) for j in range(n))
        for b in bs:
            for rel in rels:
                for sign in sign_patterns(n, every):
                    for z in zs:
                        for obj in objs:
                            yield program(A, b, c, rel, sign, obj, z)
                            x, b2, c2 = bounded(A, rel, sign, obj, k)
                            yield {**program(A, b2, c2, rel, sign, obj, z), "at": x}


def bounded(A, rel, sign, obj, k=0):
    """Right sides and objective for which the program has feasible primal and dual points, hence an optimum."""
    m, n = len(A), len(A[0])
    side = {"=": 0, "<=": 1, ">=": -1}
    x = [{"+": 1, "-": -1, "f": -1 if j % 2 else 1}[s] * (j * (k + 1) % 3) for j, s in enumerate(sign)]
    b = [sum(a * v for a, v in zip(r, x)) + side[q] * ((i + k) % 2) for i, (r, q) in enumerate(zip(A, rel))]
    s = 1 if obj == "max" else -1
    y = [s * side[q] * (i + 1) if q != "=" else i - 1 for i, q in enumerate(rel)]
    reduced = {"+": 1, "-": -1, "f": 0}
    c = [sum(v * r[j] for v, r in zip(y, A)) - s * reduced[sign[j]] * ((j + k) % 3) for j in range(n)]
    return x, b, c


def tall(m, n, tables=(0, 1, 2), objs=("max", "min"), signs=None, every=True, zs=(3,)):
    """Programs with many rows: one relation per row, all alike, alternating, or one row different."""
    rels = [[r] * m for r in RELS] + [[RELS[i % 3] for i in range(m)], [RELS[i % 2] for i in range(m)]]
    if every:
        for a, b in (("=", "<="), (">=", "<="), ("=", ">=")):
            rels += [[a if i == r else b for i in range(m)] for r in range(m)]
    for k in tables:
        A = table(m, n, k)
        c = tuple(entry(m, j, k + 1) for j in range(n))
        for x in ((1,) * n, tuple(range(n)), (0,) * n):
            # right sides for which x is feasible whatever the relations are, and ones with room above or below it
            for room in (0, 2, -1):
                b = [sum(a * v for a, v in zip(r, x)) + room * (i % 3) for i, r in enumerate(A)]
                for rel in rels:
                    for sign in (signs or product(SIGNS, repeat=n)):
                        for z in zs:
                            for obj in objs:
                                yield program(A, b, c, rel, sign, obj, z)


def sef_wide(m, n, tables=(0, 1, 2, 3, 4), bs=None, zs=(1,), rotations=True):
    """Standard-equality-form programs with many columns, every rotation of the columns."""
    for k in tables:
        A = table(m, n, k)
        c = tuple(entry(m, j, k + 1) for j in range(n))
        some = tuple(sum(r[j] for j in range(0, n, 3)) for r in A)
        for b in (bs or [some, (0,) * m, tuple((4, 7, 9, 1)[i % 4] for i in range(m)), tuple((-3, 5, 2, 6)[i % 4] for i in range(m))]):
            for cc in (c, tuple(-abs(v) for v in c)):
                for s in (range(n) if rotations else (0,)):
                    for z in zs:
                        yield program([r[s:] + r[:s] for r in A], b, cc[s:] + cc[:s], ["="] * m, "+" * n, "max", z)


def scaled(programs, ways=("x1000", "/1000", "/10000", "/1000000", "rows", "b", "c", "A")):
    """The same programs with all or some of their numbers much larger or smaller."""
    for p in programs:
        A, b, c, z, D = p["A"], p["b"], p["c"], p["z"], p["D"]
        for way in ways:
            q = {**p, "scaled": way}
            if way[0] == "/":
                q["D"] = D * int(way[1:])
            elif way[0] == "x":
                s = int(way[1:])
                q.update(A=[[v * s for v in r] for r in A], b=[v * s for v in b], c=[v * s for v in c], z=z * s)
            elif way == "rows":
                q.update(A=[[v * (1000 if i % 2 else 1) for v in r] for i, r in enumerate(A)], b=[v * (1000 if i % 2 else 1) for i, v in enumerate(b)])
            elif way == "b":
                q["b"] = [v * 1000 for v in b]
            elif way == "c":
                q.update(c=[v * 1000 for v in c], z=z * 1000)
            else:
                q["A"] = [[v * 1000 for v in r] for r in A]
            yield q


def every(programs, step, start=0):
    """Every step-th program of a family: a smaller family, not a sample drawn at random."""
    for i, p in enumerate(programs):
        if i % step == start:
            yield p


def small_diagonals(sizes, slacks=False, objs=("max", "min")):
    """Many independent rows with small coefficients."""
    for n in sizes:
        for a, D in ((1, 10), (1, 100), (3, 10)):
            for k, obj in enumerate(objs):
                A = [[a if i == j else (a if (i + 1 == j and k) else 0) for j in range(n)] for i in range(n)]
                c = [(1 + i % 3) * (1 if obj == "max" else -1) for i in range(n)]
                if slacks:
                    A = [r + [int(i == j) for j in range(n)] for i, r in enumerate(A)]
                    yield program(A, [1 + i % 2 for i in range(n)], c + [0] * n, ["="] * n, "+" * (2 * n), "max", 0, D)
                else:
                    for rel in ("<=", "="):
                        yield program(A, [1 + i % 2 for i in range(n)], c, [rel] * n, "+" * n, obj, 0, D)


def sef_parallel(sizes):
    """Many parallel columns next to a (negated) identity, right-hand sides that are all or partly zero, several column orders."""
    for m, k in sizes:
        for direction in ([1] * m, [i % 2 for i in range(m)], [(-1) ** i * (1 + i % 3) for i in range(m)], [int(i == m - 1) for i in range(m)]):
            for sign, step in ((-1, 0), (-1, 1), (1, 0)):
                A = [[sign * int(i == j) for j in range(m)] + [v * (1 + step * (h % 3)) * (1 if h % 4 < 3 or not step else -1) for h in range(k)] for i, v in enumerate(direction)]
                n = m + k
                for b in ([0] * m, [sign * int(i == 0) * 2 for i in range(m)]):
                    for c in ([-1 - j % 3 for j in range(n)], [0] * n, [1 - j % 3 for j in range(n)]):
                        for order in (range(n), range(n - 1, -1, -1), list(range(m, n)) + list(range(m)), sorted(range(n), key=lambda j: (j * 7) % n)):
                            order = list(order)
                            yield program([[r[j] for j in order] for r in A], b, [c[j] for j in order], ["="] * m, "+" * n, "max", 1)


def many_pivots(t=False, sef_form=False):
    """Programs on which the simplex method takes dozens of steps: Klee-Minty cubes, boxes, flows, assignments, transports; feasible, infeasible, unbounded."""
    def listed():
        for n in (4, 6, 7) if not t else range(3, 9):
            A = [[2 ** (i - j + 1) if j < i else int(i == j) for j in range(n)] for i in range(n)]
            c = [2 ** (n - 1 - j) for j in range(n)]
            for rows in (range(n), range(n)[::-1]):
                for cols in (range(n), range(n)[::-1]):
                    yield program([[A[i][j] for j in cols] for i in rows], [5 ** (i + 1) for i in rows], [c[j] for j in cols], ["<="] * n, "+" * n, "max", 1)
                    yield program([[-A[i][j] for j in cols] for i in rows], [5 ** (i + 1) for i in rows], [c[j] for j in cols], ["<="] * n, "-" * n, "min", 1)
        for n in (10, 14) if not t else (8, 10, 12, 14, 18):
            box = [[int(i == j) for j in range(n)] for i in range(n)]
            for a, c in (([1 + k % 3 for k in range(n)], [1 + k * k % 7 for k in range(n)]), ([1] * n, [n - k for k in range(n)]), ([2 + k % 5 for k in range(n)], [3] * n)):
                for rel, b in (("<=", 2 * n), ("=", n), (">=", 9 * n)):
                    yield program([a] + box, [b] + [3 + k % 2 for k in range(n)], c, [rel] + ["<="] * n, "+" * n, "max")
                    yield program(box + [a], [3 + k % 2 for k in range(n)] + [b], c, ["<="] * n + [rel], "+" * n, "min")
        for arcs, ends in ((_grid(3, 3), (0, 8)), (_grid(2, 6), (0, 11)), (_grid(4, 3), (0, 11)))[:3 if t else 2]:
            nodes = 1 + max(map(max, arcs))
            inner = [v for v in range(nodes) if v not in ends]
            keep = [[(b == v) - (a == v) for a, b in arcs] for v in inner]
            cap = [[int(i == j) for j in range(len(arcs))] for i in range(len(arcs))]
            out = [(a == ends[0]) - (b == ends[0]) for a, b in arcs]
            for caps in ([1 + k * 5 % 4 for k in range(len(arcs))], [2] * len(arcs)):
                yield program(keep + cap, [0] * len(inner) + caps, out, ["="] * len(inner) + ["<="] * len(arcs), "+" * len(arcs), "max")
            way = [[(b == v) - (a == v) for a, b in arcs] for v in range(nodes)]  # shortest path: dependent rows
            for first in (-1, -2):
                b = [first if v == ends[0] else 1 if v == ends[1] else 0 for v in range(nodes)]
                yield program(way, b, [1 + k * 7 % 5 for k in range(len(arcs))], ["="] * nodes, "+" * len(arcs), "min")
            yield program(way[1:], b[1:], [1 - k % 3 for k in range(len(arcs))], ["="] * (nodes - 1), "+" * len(arcs), "max")
        for k in (3, 4) if not t else (3, 4, 5):
            rows = [[int(i // k == r) for i in range(k * k)] for r in range(k)] + [[int(i % k == r) for i in range(k * k)] for r in range(k)]
            cost = [1 + i * i % 11 for i in range(k * k)]
            for b in ([1] * (2 * k), [2 + i % 2 for i in range(k)] * 2, [3] * k + [2] * k):
                for obj in ("max", "min"):
                    yield program(rows, b, cost, ["="] * (2 * k), "+" * (k * k), obj)
                    yield program(rows, b, cost, ["<="] * k + [">="] * k, "+" * (k * k), obj)

    for p in listed():
        if sef_form:
            from .lpref import to_sef
            A, b, c = to_sef(p)
            p = program(A, b, c, ["="] * len(b), "+" * len(c), "max", 2)
        yield {**p, "large": True}


def _grid(rows, columns):
    """Arcs of a grid, to the right, down, and some back."""
    at = lambda i, j: i * columns + j
    arcs = [(at(i, j), at(i, j + 1)) for i in range(rows) for j in range(columns - 1)] + [(at(i, j), at(i + 1, j)) for i in range(rows - 1) for j in range(columns)]
    return arcs + [(b, a) for a, b in arcs[1::4]]


def vast(t=False, tall_too=True):
    """Programs beyond every small number: 25 to 60 variables or rows."""
    for m, n in ((2, 25), (3, 40)) if not t else ((1, 30), (2, 25), (3, 40), (4, 60), (12, 26)):
        rels = [RELS[k:] + RELS[:k] for k in range(3)]
        rels = [tuple((r * m)[:m]) for r in rels]
        for p in wide(m, n, tables=(0, 1) if t else (0,), bs=[tuple((4, 7, 9)[i % 3] for i in range(m))], every=False, rels=rels):
            if "at" in p:
                yield {**p, "large": True}
    if tall_too:
        for m, n in ((25, 2), (40, 3)) if not t else ((25, 2), (40, 3), (60, 4)):
            yield from ({**p, "large": True} for p in tall(m, n, tables=(0,), signs=(("+-f" * n)[:n], "+" * n, "f" * n), every=t, objs=("max", "min")))
