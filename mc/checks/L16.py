from itertools import product

from .. import gen, lpref, stub
from ..core import check
from ..lputil import snap

TITLE = "row reduction"
BOUNDS = ("Every matrix of the shapes 1x1 to 3x3 and 2x4, 4x2, 1x4, 4x1 over small integers (3x3 over {-1,0,1}, 3x4 over {0,1}), 4x4, 4x5, 5x5 and 5x6 triangular and reversed 0/1 matrices (thorough adds "
          "wider entries, 4x3 and 4x4 over {0,1}), tenths, thirds and mixed magnitudes, as float and int arrays; compared with the exact "
          "reduced form; the form test is asked for each matrix, its reduced form, and every one-entry change and row exchange of it. One table for every size up to 12x12 (several tables each), wide and tall ones with up to 101 columns and 40 rows, banded ones up to 30x31 (thorough: 44x45).")
ASSUMPTIONS = ["comparison tolerance 1e-7"]


def families(tier):
    t = tier == "thorough"

    def every(m, n, entries, D=1):
        for flat in product(entries, repeat=m * n):
            yield {"A": [list(flat[i * n:(i + 1) * n]) for i in range(m)], "D": D}

    out = [(f"{m}x{n}", lambda m=m, n=n, e=e: every(m, n, e)) for m, n, e in
           ((1, 1, range(-3, 4)), (1, 2, range(-2, 4)), (2, 1, range(-2, 4)), (1, 4, (-1, 0, 1, 3)), (4, 1, (-1, 0, 1, 3)), (2, 2, range(-2, 4)), (2, 3, (-2, -1, 0, 1, 2)),
            (3, 2, (-2, -1, 0, 1, 2)), (2, 4, (-1, 0, 2) if not t else (-1, 0, 1, 2)), (4, 2, (-1, 0, 2) if not t else (-1, 0, 1, 2)), (3, 3, (-1, 0, 1) if not t else (-1, 0, 1, 2)),
            (3, 4, (0, 1)))]
    def triangular(n, extra=0):
        """Upper triangular 0/1 matrices (and their rows reversed), with further columns of ones and twos."""
        places = [(i, j) for i in range(n) for j in range(i, n)] if n < 5 else [(i, j) for i in range(n) for j in range(i + 1, n)]
        for values in product((0, 1), repeat=len(places)):
            M = [[int(i == j) if n >= 5 else 0 for j in range(n)] for i in range(n)]
            for (i, j), v in zip(places, values):
                M[i][j] = v
            M = [r + [(i + k) % 3 for k in range(extra)] for i, r in enumerate(M)]
            yield {"A": M, "D": 1}
            yield {"A": M[::-1], "D": 1}
            if t:
                for r in range(1, n):
                    yield {"A": M[r:] + M[:r], "D": 1}

    out += [("4x4 triangular", lambda: triangular(4)), ("4x5 triangular", lambda: triangular(4, 1)), ("5x5 triangular", lambda: triangular(5)),
            ("5x6 triangular", lambda: triangular(5, 1))]
    if t:
        out += [("3x4 signed", lambda: every(3, 4, (-1, 0, 1))), ("4x3", lambda: every(4, 3, (0, 1))), ("4x4", lambda: every(4, 4, (0, 1)))]
    out += [
        ("sizes up to 12x12", lambda: ({"A": [list(r) for r in gen.table(m, n, k)], "D": 1} for m in range(1, 13) for n in range(1, 13) for k in range(40 if t else 5))),
        ("larger", lambda: larger(t)),
        ("2x2 tenths", lambda: every(2, 2, (-7, -3, 0, 1, 2, 3, 6), 10)),
        ("2x3 tenths", lambda: every(2, 3, (0, 1, 3, -7) if t else (0, 1, 3), 10)),
        ("3x3 tenths", lambda: every(3, 3, (0, 1, 3) if t else (1, 3), 10)),
        ("2x3 thirds", lambda: every(2, 3, (0, 1, -2, 4), 3)),
        ("2x2 magnitudes", lambda: every(2, 2, (0, 1, 1000, -100000, 1000000))),
    ]
    return out


def larger(t):
    """13 to 40 rows or columns: wide, tall, banded, of low rank, with zero rows and columns."""
    for m, n in ((3, 40), (40, 3), (5, 25), (25, 5), (14, 14), (2, 101)) if not t else [(m, n) for m in (2, 3, 5, 8) for n in (13, 20, 33, 70, 101)] + [(n, m) for m in (2, 3, 5, 8) for n in (13, 20, 33, 70)] + [(14, 14)]:
        for k in range(3):
            A = [list(r) for r in gen.table(m, n, k)]
            yield {"A": A, "D": 1}
            yield {"A": [[v if j % 3 or k else 0 for j, v in enumerate(r)] if i % 4 else [0] * n for i, r in enumerate(A)], "D": 1}
    for n in (13, 20, 30) if not t else range(13, 45):
        for below, above in ((1, 0), (0, 1), (-1, 1), (2, 0)):
            band = [[1 if i == j else below if i == j + 1 else above if j == i + 1 else 0 for j in range(n)] for i in range(n)]
            for rows in (band, band[::-1], band[1::2] + band[::2], [r[::-1] for r in band], band + band[:3], band[:n // 2]):
                yield {"A": rows, "D": 1}
                yield {"A": [r + [i % 3] for i, r in enumerate(rows)], "D": 1}


def close(u, v):
    return abs(u - v) <= 1e-7 * (1 + abs(v))


def is_rref(rows):
    """The definition, exactly."""
    last, zero = -1, False
    for i, r in enumerate(rows):
        lead = next((j for j, v in enumerate(r) if v != 0), None)
        if lead is None:
            zero = True
            continue
        if zero or lead <= last or r[lead] != 1 or any(rows[k][lead] != 0 for k in range(len(rows)) if k != i):
            return False
        last = lead
    return True


def run(case, ctx):
    import numpy as np
    from pytimize.programs import LinearProgram
    stub.fast_steps()
    rows, d = case["A"], case["D"]
    m, n = len(rows), len(rows[0])
    want = [[float(v) for v in r] for r in lpref.rref(rows)[0]]
    lp = LinearProgram(np.ones((1, 1)), np.ones(1), np.ones(1))
    ctx.state(rows, d)
    arrays = [np.array([[v / d for v in r] for r in rows], dtype=float)]
    if d == 1:
        arrays.append(np.array(rows, dtype=int))
    for arr in arrays:
        kept = arr.copy()
        out = lp.to_rref(arr)
        ctx.call()
        check(out.shape == (m, n) and all(close(float(a), w) for r, wr in zip(out, want) for a, w in zip(r, wr)), "to_rref gives {} instead of {}", out.tolist(), want)
        check((arr == kept).all() and arr.dtype == kept.dtype, "to_rref changed its argument")
        again = lp.to_rref(out)
        check(all(close(float(a), w) for r, wr in zip(again, want) for a, w in zip(r, wr)), "reducing the reduced matrix gives {}", again.tolist())
        ctx.call()

    def ask(matrix):
        p = LinearProgram([[float(v) for v in r] for r in matrix], [1.0] * m, [1.0] * n)
        before = snap(p)
        got = p.is_in_rref
        ctx.call()
        check(bool(got) == is_rref(matrix), "is_in_rref is {} for {}", got, matrix)
        check(snap(p) == before, "is_in_rref changed the program")
    if d == 1:
        ask(rows)
    ask(want)
    if m * n <= 9:
        for i in range(m):
            for j in range(n):
                for v in (0.5, 1.0, -1.0, 0.001, -0.001):
                    ask([[x + v if (k, l) == (i, j) else x for l, x in enumerate(r)] for k, r in enumerate(want)])
            for k in range(i):
                swapped = list(want)
                swapped[i], swapped[k] = swapped[k], swapped[i]
                ask(swapped)
