from fractions import Fraction as F
from itertools import permutations, product

from .. import gen, lpref, stub
from ..core import check
from ..lputil import raises, snap
from .L03 import close

TITLE = "bases and basic solutions"
BOUNDS = ("Every program of the families, every index list over 0..n+1 of length 0..m+1 (duplicates, out of range, every order), "
          "as list and array; for every basis the basic solution and every vector of a grid, every basic solution of the program "
          "and their one-entry perturbations are classified and compared with exact arithmetic; right-hand sides that are multiples of a column, in tenths, give zeros up to rounding. 2x11, 2x22 and 3x6 programs, assignments of 6 to 8 rows. Dependent columns with entries in the hundreds and thousands, numbers divided by up to 10^4, 10 to 12 rows with coefficients of a tenth (index lists: consecutive columns with one index replaced). A fixed selection of every family also by seven detours (the program copied, its last row or variable added later, another program handled first) with every query asked before.")
ASSUMPTIONS = []


def rounding(entries):
    """Multiples of one column as right-hand side, in tenths and hundredths: exact zeros computed with rounding errors."""
    for a, b, c, d in product(entries, repeat=4):
        if a * d == b * c:
            continue
        for col in ((a, c), (b, d)):
            for scale, D in ((1, 10), (3, 10), (7, 10)):
                yield gen.program([(a, b), (c, d)], [v * scale for v in col], (1, 1), ["=", "="], "++", "max", 0, D)
    for perm in permutations(range(3)):
        for k in (1, 3, 7):
            A = [(1, 3, 7), (6, 1, 3), (2, 7, 9)]
            yield gen.program([[r[j] for j in perm] for r in A], [r[0] * k for r in A], (1, 1, 1), ["="] * 3, "+++", "max", 0, 10)
            yield gen.program([[r[j] for j in perm] for r in A], [r[0] * k + r[2] for r in A], (1, 1, 1), ["="] * 3, "+++", "max", 0, 10)


def magnitudes(t):
    """Dependent columns with entries in the hundreds and thousands, and small numbers."""
    for k in range(40 if t else 12):
        u = [(137 * (k + 1) * (i + 2) + 311 * i * i + 53 * k) % 997 - 400 for i in range(3)]
        v = [(271 * (k + 3) * (i + 1) + 89 * i * k + 17) % 4001 - 1500 for i in range(3)]
        for a, b in ((1, 1), (2, -1), (3, 2)):
            w = [a * x + b * y for x, y in zip(u, v)]
            for cols in ((u, v, w), (w, u, v), (u, w, [x + (i == k % 3) for i, x in enumerate(v)])):
                yield gen.program([list(r) for r in zip(*cols)], [1000, 2000, -500], (1, 1, 1), ["="] * 3, "+++", "max", 0)
    yield from gen.scaled(gen.every(gen.sef(2, 3, (-1, 0, 1), [(1, 2), (-1, 1), (0, 0)], [(1, -2, 3)]), 3 if t else 11), ("x1000", "/1000", "/10000", "rows"))


def index_lists(m, n):
    """Every list of up to m + 1 indices; for many rows the bases of consecutive columns with one index replaced."""
    if m <= 4:
        for length in range(0, m + 2):
            yield from product(range(0, n + 2), repeat=length)
        return
    for start in (1, 2, n - m + 1, n // 2):
        idx = list(range(start, start + m))
        yield tuple(idx[::-1])
        yield tuple(idx[1:])
        yield tuple(idx + [n])
        for i in range(m):
            for j in range(0, n + 2):
                yield tuple(idx[:i] + [j] + idx[i + 1:])


def plain_families(tier):
    t = tier == "thorough"
    return [
        ("1x1", lambda: gen.sef(1, 1, (-2, 0, 1), [(-2,), (0,), (3,)], [(1,)])),
        ("1x3", lambda: gen.sef(1, 3, (-1, 0, 2), [(-2,), (0,), (3,)], [(1, -2, 0)])),
        ("2x2", lambda: gen.sef(2, 2, (-1, 0, 1, 2), [(1, -2), (0, 2), (0, 0)], [(3, -1)])),
        ("2x3", lambda: gen.sef(2, 3, (-1, 0, 1), [(1, 2), (-1, 1), (0, 0)] if t else [(1, 1)], [(1, -2, 3)])),
        ("2x3 wide", lambda: gen.sef_lists([[(3, 1, 4), (1, 5, 9)], [(2, -6, 5), (3, 5, -8)], [(9, 7, 9), (3, 2, 3)]], [(7, 3), (0, 5), (-2, 8)], [(1, 1, 1)], colperms=True)),
        ("3x4", lambda: gen.sef_lists([[r[:4] for r in M] for M in gen.SEF35] if t else [[r[:4] for r in M] for M in gen.SEF35[:3]],
                                      [(1, 2, 3), (0, 0, 1)], [(1, 1, 1, 1)], (0,))),
        ("2x11", lambda: gen.sef_wide(2, 11, (0, 1, 2, 3, 4) if t else (0,), rotations=False)),
        ("3x6", lambda: gen.sef_wide(3, 6, (0, 1, 2) if t else (0,), rotations=False)),
        ("tenths", lambda: gen.sef_lists([[(1, 2, 3), (3, 3, -3)], [(3, -1, 7), (1, 7, 1)]], [(3, 3), (6, 12), (0, 3)], [(1, 2, 3)], (5,), 10, colperms=True)),
        ("degenerate up to rounding", lambda: rounding((1, 2, 3, 6, 7) if t else (1, 3, 6, 7))),
        ("other magnitudes", lambda: magnitudes(t)),
        ("many small rows", lambda: gen.small_diagonals((10, 11, 12) if t else (10,), True)),
        ("5 to 10 rows", lambda: gen.every((p for p in gen.many_pivots(t, True) if max(p["b"]) < 20 and 4 < len(p["b"]) <= (10 if t else 8) and len(p["c"]) <= 20), 1 if t else 4)),
        ("2x22", lambda: gen.every(gen.sef_wide(2, 22, (0,), bs=[(4, 7)], rotations=False), 2)),
        ("not sef", lambda: gen.over([[(1, 2), (3, 1)], [(1, 1), (2, 2)]], [(1, 2), (-1, 0)], [(1, 1)], objs=("max",))),
    ]


def families(tier):
    fams = plain_families(tier)
    return fams + lpref.warmed(fams, 60 if tier == "thorough" else 12, ("2x11", "3x6", "many small rows"))


def run(p, ctx):
    import numpy as np
    stub.fast_steps()
    m, n, d = len(p["b"]), len(p["c"]), p["D"]
    lp = lpref.build(p)
    before = snap(lp)
    sef = bool(lp.is_sef)
    if m <= 4:
        bases = set(lpref.bases(p["A"]))
    else:
        lists = {tuple(sorted(i - 1 for i in idx)) for idx in index_lists(m, n)}
        bases = {B for B in lists if len(B) == len(set(B)) == m and 0 <= B[0] and B[-1] < n and lpref.rank([[r[j] for j in B] for r in p["A"]]) == m}
    sols = {B: lpref.basic_solution(p["A"], p["b"], B) for B in bases}
    vectors = [list(v) for v in product((F(0), F(1), F(-1)), repeat=n)] if n <= 3 else [[F(0)] * n, [F(1)] * n]
    for x in sols.values():
        vectors.append(x)
        for j in range(n):
            vectors.append([v + (F(1, 2) if k == j else 0) for k, v in enumerate(x)])
            vectors.append([v - (F(1, 1000) if k == j else 0) for k, v in enumerate(x)])
    moved = {B: [[v + (s if k == j else 0) for k, v in enumerate(x)] for j in range(n) for s in (0, F(1, 2), F(-1, 1000))] for B, x in sols.items()} if n > 6 else {}
    seen, uniq = set(), []
    for v in vectors:
        if tuple(v) not in seen:
            seen.add(tuple(v))
            uniq.append(v)
    vectors = uniq
    for idx in index_lists(m, n):
        length = len(idx)
        B = tuple(sorted(i - 1 for i in idx))
        is_basis = B in bases
        arg = list(idx)
        got = lp.is_basis(arg)
        check(bool(got) == is_basis, "is_basis({}) is {}", list(idx), got)
        check(arg == list(idx), "is_basis changed its argument to {}", arg)
        ctx.call()
        if not is_basis:
            check(raises((ArithmeticError, ValueError, IndexError), lp.compute_basic_solution, arg), "compute_basic_solution accepted {}", arg)
            check(not lp.is_basis_feasible(arg), "is_basis_feasible({}) although it is no basis", arg)
            if sef and length in (0, m, m + 1):
                check(raises((ValueError, IndexError, ArithmeticError), lp.is_basic_solution, [0.0] * n, arg, False), "is_basic_solution accepted the non-basis {}", arg)
            ctx.call(3)
            continue
        ctx.state(lpref.key(p), idx)
        x = sols[B]
        for a in (arg, np.array(arg)):
            got = lp.compute_basic_solution(a)
            check(len(got) == n and all(close(float(g), float(w), 1e-9) for g, w in zip(got, x)),
                  "basic solution of {} is {} instead of {}", list(idx), got, [str(v) for v in x])
            check([int(i) for i in a] == list(idx), "the index list was changed")
            ctx.call()
        want = all(v >= 0 for v in x)
        got = lp.is_basis_feasible(arg)
        check(bool(got) == want, "is_basis_feasible({}) is {}, basic solution {}", list(idx), got, [str(v) for v in x])
        for k, v in enumerate(vectors if n <= 6 else vectors[:2] + list(sols.values())[:20] + moved[B]):
            fv = [float(w) for w in v]
            av = np.array(fv) if k % 2 else fv
            if not sef:
                check(raises(ArithmeticError, lp.is_basic_solution, av, arg, False), "is_basic_solution accepted a program not in SEF")
                ctx.call()
                break
            basic = v == x
            got = lp.is_basic_solution(av, arg, bool(k % 3))
            check(bool(got) == basic, "is_basic_solution({}, {}) is {}", fv, list(idx), got)
            got = lp.is_feasible_basic_solution(av, arg)
            check(bool(got) == (basic and want), "is_feasible_basic_solution({}, {}) is {}", fv, list(idx), got)
            ctx.call(2)
            check(arg == list(idx), "the index list was changed")
    if sef:
        some = [j + 1 for j in min(bases)] if bases else [1] * m
        for bad in ([0.0] * (n + 1), [0.0] * (n - 1)):
            check(raises(ValueError, lp.is_basic_solution, bad, some, False), "vector of wrong length accepted")
            check(raises(ValueError, lp.is_feasible_basic_solution, bad, some), "vector of wrong length accepted")
    check(snap(lp) == before, "the program was changed")
