"""Exact reference for linear programs, independent of the simplex method.

A program is a dict
    A   list of integer rows        b  list of integers      c  list of integers     z  integer
    D   common denominator of A, b, c, z (default 1): the real data are A/D, b/D, c/D, z/D
    obj "max" | "min"
    rel list of "<=", ">=", "="     sign string over {"+", "-", "f"} (x >= 0, x <= 0, free)

status() decides it by eliminating all variables (Gauss for equalities, Fourier-Motzkin for
inequalities) from the system of the constraints together with t = c x, and reading off the range
of t.  Everything is integer arithmetic.
"""

import itertools
from fractions import Fraction
from math import gcd


def _norm(row):
    g = 0
    for v in row:
        g = gcd(g, v)
        if g == 1:
            return tuple(row)
    return tuple(v // g for v in row) if g > 1 else tuple(row)


def _prune(rows):
    """Rows a.x <= b given as (a..., b); keeps the tightest row for every direction."""
    best = {}
    for row in rows:
        a = row[:-1]
        g = 0
        for v in a:
            g = gcd(g, v)
        if g == 0:
            if row[-1] < 0:
                return None
            continue
        key = tuple(v // g for v in a)
        value = Fraction(row[-1], g)
        if key not in best or value < best[key]:
            best[key] = value
    out = []
    for key, value in best.items():
        d = value.denominator
        out.append(tuple(v * d for v in key) + (value.numerator,))
    return out


def eliminate(eqs, ineqs, keep):
    """Projects {eqs: a.x = b, ineqs: a.x <= b} onto the variable `keep` (column index).

    Returns None if empty, else (low, high) with None for infinite ends.
    """
    eqs = [list(r) for r in eqs]
    ineqs = [list(r) for r in ineqs]
    n = (len(eqs[0]) if eqs else len(ineqs[0])) - 1
    todo = [j for j in range(n) if j != keep]
    # equalities first
    while eqs:
        row = eqs.pop()
        pivot = next((j for j in todo if row[j] != 0), None)
        if pivot is None:
            if row[keep] == 0:
                if row[-1] != 0:
                    return None
                continue
            # fixes the kept variable
            ineqs.append(list(row))
            ineqs.append([-v for v in row])
            continue
        p = row[pivot]

        def sub(other):
            q = other[pivot]
            if q == 0:
                return other
            # other - q/p * row, multiplied by |p|
            s = 1 if p > 0 else -1
            return list(_norm([abs(p) * o - s * q * r for o, r in zip(other, row)]))

        eqs = [sub(r) for r in eqs]
        ineqs = [sub(r) for r in ineqs]
        todo.remove(pivot)
    rows = _prune(ineqs)
    if rows is None:
        return None
    while todo:
        # cheapest variable first
        def cost(j):
            pos = sum(1 for r in rows if r[j] > 0)
            neg = sum(1 for r in rows if r[j] < 0)
            return pos * neg - pos - neg
        j = min(todo, key=cost)
        todo.remove(j)
        pos = [r for r in rows if r[j] > 0]
        neg = [r for r in rows if r[j] < 0]
        new = [r for r in rows if r[j] == 0]
        for p in pos:
            for q in neg:
                new.append(_norm([p[k] * -q[j] + q[k] * p[j] for k in range(len(p))]))
        rows = _prune(new)
        if rows is None:
            return None
    low = high = None
    for r in rows:
        v = Fraction(r[-1], r[keep])
        if r[keep] > 0:
            high = v if high is None or v < high else high
        else:
            low = v if low is None or v > low else low
    if low is not None and high is not None and low > high:
        return None
    return low, high


def system(p):
    """Equalities and inequalities over x1..xn (scaled integers)."""
    n = len(p["c"])
    eqs, ineqs = [], []
    for row, rel, value in zip(p["A"], p["rel"], p["b"]):
        r = list(row) + [value]
        if rel == "=":
            eqs.append(r)
        elif rel == "<=":
            ineqs.append(r)
        else:
            ineqs.append([-v for v in r])
    for j, s in enumerate(p["sign"]):
        if s != "f":
            r = [0] * (n + 1)
            r[j] = -1 if s == "+" else 1
            ineqs.append(r)
    return eqs, ineqs


def objective_range(p):
    """None if infeasible, else (inf, sup) of c x + z, None for infinite."""
    d = p.get("D", 1)
    eqs, ineqs = system(p)
    eqs = [[0] + r for r in eqs]
    ineqs = [[0] + r for r in ineqs]
    eqs.append([1] + [-v for v in p["c"]] + [p.get("z", 0)])
    res = eliminate(eqs, ineqs, 0)
    if res is None:
        return None
    return tuple(None if v is None else v / d for v in res)


def status(p):
    """("infeasible", None) | ("unbounded", None) | ("optimal", Fraction)"""
    if len(p["c"]) + len(p["b"]) > 8:
        return status_by_certificate(p)
    r = objective_range(p)
    if r is None:
        return "infeasible", None
    v = r[1] if p["obj"] == "max" else r[0]
    return ("unbounded", None) if v is None else ("optimal", v)


def feasible(p):
    return objective_range(p) is not None


# ---------------------------------------------------------------- second, independent method
def solve_square(rows, rhs):
    """Unique solution of a square rational system or None."""
    n = len(rows)
    m = [[Fraction(v) for v in r] + [Fraction(b)] for r, b in zip(rows, rhs)]
    for j in range(n):
        k = next((i for i in range(j, n) if m[i][j] != 0), None)
        if k is None:
            return None
        m[j], m[k] = m[k], m[j]
        piv = m[j][j]
        m[j] = [v / piv for v in m[j]]
        for i in range(n):
            if i != j and m[i][j] != 0:
                f = m[i][j]
                m[i] = [v - f * w for v, w in zip(m[i], m[j])]
    return [m[i][n] for i in range(n)]


def rref(rows):
    """Exact reduced row echelon form (list of lists of Fractions) and its pivot columns."""
    m = [[Fraction(v) for v in r] for r in rows]
    pivots = []
    r = 0
    cols = len(m[0]) if m else 0
    for j in range(cols):
        k = next((i for i in range(r, len(m)) if m[i][j] != 0), None)
        if k is None:
            continue
        m[r], m[k] = m[k], m[r]
        piv = m[r][j]
        m[r] = [v / piv for v in m[r]]
        for i in range(len(m)):
            if i != r and m[i][j] != 0:
                f = m[i][j]
                m[i] = [v - f * w for v, w in zip(m[i], m[r])]
        pivots.append(j)
        r += 1
        if r == len(m):
            break
    return m, pivots


def rank(rows):
    return len(rref(rows)[1]) if rows else 0


def det(rows):
    n = len(rows)
    if n == 0:
        return 1
    if n == 1:
        return rows[0][0]
    if n == 2:
        return rows[0][0] * rows[1][1] - rows[0][1] * rows[1][0]
    total = 0
    for j in range(n):
        if rows[0][j]:
            minor = [r[:j] + r[j + 1:] for r in rows[1:]]
            total += (-1) ** j * rows[0][j] * det(minor)
    return total


def to_sef(p):
    """Exact SEF data (A, b, c) of p, c for maximisation, without the constant."""
    n = len(p["c"])
    s = 1 if p["obj"] == "max" else -1
    cols, c = [], []
    for j in range(n):
        col = [r[j] for r in p["A"]]
        if p["sign"][j] == "-":
            cols.append([-v for v in col]); c.append(-s * p["c"][j])
        elif p["sign"][j] == "+":
            cols.append(col); c.append(s * p["c"][j])
        else:
            cols.append(col); c.append(s * p["c"][j])
            cols.append([-v for v in col]); c.append(-s * p["c"][j])
    m = len(p["b"])
    for i, rel in enumerate(p["rel"]):
        if rel != "=":
            cols.append([(1 if rel == "<=" else -1) if k == i else 0 for k in range(m)]); c.append(0)
    A = [[col[i] for col in cols] for i in range(m)]
    return A, list(p["b"]), c


def bases(A):
    """All column sets (0-based, sorted) forming a basis of a full-row-rank integer matrix."""
    m = len(A)
    n = len(A[0]) if A else 0
    return [B for B in itertools.combinations(range(n), m) if det([[r[j] for j in B] for r in A]) != 0]


def basic_solution(A, b, B):
    x = [Fraction(0)] * len(A[0])
    for j, v in zip(B, solve_square([[r[j] for j in B] for r in A], b)):
        x[j] = v
    return x


def status_by_bases(p):
    """status() again, by enumerating basic feasible solutions and extreme rays of the SEF."""
    A, b, c = to_sef(p)
    d = p.get("D", 1)
    s = 1 if p["obj"] == "max" else -1
    m, piv = rref([r + [v] for r, v in zip(A, b)])
    n = len(c)
    if n in piv:
        return "infeasible", None
    rows = [i for i in range(len(piv))]
    A2 = [m[i][:n] for i in rows]
    b2 = [m[i][n] for i in rows]
    best = None
    for B in bases(A2):
        x = basic_solution(A2, b2, B) if B else [Fraction(0)] * n
        if all(v >= 0 for v in x):
            v = sum(ci * xi for ci, xi in zip(c, x))
            best = v if best is None or v > best else best
    if best is None:
        return "infeasible", None
    # extreme rays of {d >= 0, A2 d = 0}: basic solutions with the extra row sum d = 1
    A3 = [list(r) for r in A2] + [[Fraction(1)] * n]
    m3, piv3 = rref([r + [v] for r, v in zip(A3, [0] * len(A2) + [1])])
    if n not in piv3:
        A4 = [m3[i][:n] for i in range(len(piv3))]
        b4 = [m3[i][n] for i in range(len(piv3))]
        for B in bases(A4):
            x = basic_solution(A4, b4, B)
            if all(v >= 0 for v in x) and sum(ci * xi for ci, xi in zip(c, x)) > 0:
                return "unbounded", None
    return "optimal", (s * best + p.get("z", 0)) / d


def _pivots(rows, cost, basis, allowed):
    """Bland's rule on exact rows (last entry: right side); None at an optimum, else the unbounded column."""
    while True:
        j = next((j for j in allowed if cost[j] > 0), None)
        if j is None:
            return None
        ratios = [(r[-1] / r[j], basis[i], i) for i, r in enumerate(rows) if r[j] > 0]
        if not ratios:
            return j
        i = min(ratios)[2]
        piv = rows[i][j]
        rows[i] = [v / piv for v in rows[i]]
        for k, r in enumerate(rows):
            if k != i and r[j] != 0:
                f = r[j]
                rows[k] = [u - f * v for u, v in zip(r, rows[i])]
        if cost[j] != 0:
            f = cost[j]
            cost[:] = [u - f * v for u, v in zip(cost, rows[i])]
        basis[i] = j


def status_by_certificate(p):
    """status() for larger programs: an exact two-phase simplex whose answer counts only with an exactly verified certificate."""
    A, b, c = to_sef(p)
    m, n = len(b), len(c)
    dot = lambda u, v: sum(x * y for x, y in zip(u, v))
    flip = [-1 if v < 0 else 1 for v in b]
    rows = [[Fraction(f * v) for v in r] + [Fraction(int(i == k)) for k in range(m)] + [Fraction(f * v)] for i, (f, r, v) in enumerate(zip(flip, A, b))]
    basis = [n + i for i in range(m)]
    cost = [sum(r[j] for r in rows) for j in range(n)] + [Fraction(0)] * m + [sum(r[-1] for r in rows)]
    _pivots(rows, cost, basis, range(n + m))
    if cost[-1] != 0:
        # the objective is minus the sum of the artificials: the reduced cost of artificial i is -1 - y_i
        y = [f * (-1 - cost[n + i]) for i, f in enumerate(flip)]
        assert all(dot(y, [r[j] for r in A]) >= 0 for j in range(n)) and dot(y, b) < 0, "reference: no Farkas certificate"
        return "infeasible", None
    for i in range(m):
        if basis[i] >= n:
            j = next((j for j in range(n) if rows[i][j] != 0), None)
            if j is not None:
                piv = rows[i][j]
                rows[i] = [v / piv for v in rows[i]]
                for k in range(m):
                    if k != i and rows[k][j] != 0:
                        f = rows[k][j]
                        rows[k] = [u - f * v for u, v in zip(rows[k], rows[i])]
                basis[i] = j
    cost = [Fraction(v) for v in c] + [Fraction(0)] * (m + 1)
    for i, j in enumerate(basis):
        if j < n and cost[j] != 0:
            f = cost[j]
            cost = [u - f * v for u, v in zip(cost, rows[i])]
    j = _pivots(rows, cost, basis, range(n))
    x = [Fraction(0)] * n
    for i, k in enumerate(basis):
        if k < n:
            x[k] = rows[i][-1]
    assert min(x) >= 0 and all(dot(r, x) == v for r, v in zip(A, b)), "reference: infeasible point"
    if j is not None:
        d = [Fraction(0)] * n
        d[j] = Fraction(1)
        for i, k in enumerate(basis):
            if k < n:
                d[k] = -rows[i][j]
        assert min(d) >= 0 and all(dot(r, d) == 0 for r in A) and dot(c, d) > 0, "reference: no ray"
        return "unbounded", None
    y = [-f * cost[n + i] for i, f in enumerate(flip)]
    assert all(dot(y, [r[k] for r in A]) >= c[k] for k in range(n)) and dot(y, b) == dot(c, x), "reference: not optimal"
    s = 1 if p["obj"] == "max" else -1
    return "optimal", (s * dot(c, x) + p.get("z", 0)) / Fraction(p.get("D", 1))


# ---------------------------------------------------------------- exact judging of float points
def value(p, x):
    d = p.get("D", 1)
    return (sum(ci * xi for ci, xi in zip(p["c"], x)) + p.get("z", 0)) / d


def slack_violation(p, x):
    """Largest violation of a row or sign restriction at x (0 if feasible), in real units."""
    d = p.get("D", 1)
    worst = 0
    for row, rel, b in zip(p["A"], p["rel"], p["b"]):
        v = sum(a * xi for a, xi in zip(row, x)) - b
        v = v / d
        if rel == "<=":
            worst = max(worst, v)
        elif rel == ">=":
            worst = max(worst, -v)
        else:
            worst = max(worst, abs(v))
    for s, xi in zip(p["sign"], x):
        if s == "+":
            worst = max(worst, -xi)
        elif s == "-":
            worst = max(worst, xi)
    return worst


# ---------------------------------------------------------------- construction
def data(p):
    """Float data as nested lists."""
    d = p.get("D", 1)
    return ([[v / d for v in r] for r in p["A"]], [v / d for v in p["b"]], [v / d for v in p["c"]],
            p.get("z", 0) / d)


WARM = None  # set per case: the detour on which a program is built, with every query asked on the way

DETOURS = ("asked before", "copied", "row last", "row last, not in place", "variable last", "variable last, not in place", "another program first")


def warmed(families, limit=60, skip=()):
    """For each family another one: at most limit (evenly spaced) of its cases, built by each of the detours."""
    def some(g):
        step = max(1, -(-sum(1 for _ in g()) // limit))
        step += step % 2 == 0  # not in step with the alternations of the family
        for k, case in enumerate(g()):
            if k % step == 0:
                for kind in DETOURS:
                    yield {**case, "warm": kind}

    return [(f"{name}, after other questions", lambda g=g: some(g)) for name, g in families if name not in skip]


def _quietly(f, *args):
    """Asks a question; the answer, if it is a list or an array handed out, is changed afterwards."""
    try:
        out = f(*args)
    except (Exception, SystemExit):  # noqa: B902 - refusals are judged elsewhere, on the final program
        return
    for v in out if isinstance(out, tuple) else (out,):
        if isinstance(v, list):
            v.append(0)
        elif hasattr(v, "flags") and hasattr(v, "fill") and v.flags.writeable:
            v.fill(9)


def ask_everything(lp):
    """Asks the program every query it has."""
    import numpy as np
    m, n = len(lp.b), len(lp.c)
    for q in ("copy", "relax", "optimal_value", "branch_and_bound", "cs_conditions", "__repr__"):
        if hasattr(lp, q):
            _quietly(getattr(lp, q))
    for q in ("dual", "to_sef", "auxiliary", "two_phase_simplex", "solve"):
        _quietly(getattr(lp, q), False)
    for q in ("inequalities", "free_variables", "negative_variables", "positive_variables", "is_sef", "objective", "z"):
        _quietly(getattr, lp, q)
    for basis in (list(range(1, m + 1)), list(range(n - m + 1, n + 1))):
        for q in ("is_basis", "is_canonical_form_for", "is_basis_feasible", "compute_basic_solution"):
            _quietly(getattr(lp, q), list(basis))
        for q in ("to_canonical_form", "simplex", "simplex_iteration"):
            _quietly(getattr(lp, q), list(basis), False)
        for x in ([0.0] * n, [1.0] * n):
            _quietly(lp.is_feasible_basic_solution, x, list(basis))
            _quietly(lp.is_basic_solution, x, list(basis), False)
    for x in ([0.0] * n, [1.0] * n, np.array([0.5] * n)):
        _quietly(lp.is_feasible, x, False)
        _quietly(lp.evaluate, x)
        _quietly(lp.value_of, x)
        _quietly(lp.verify_unboundedness, x, [1.0] * n, False)
    for y in ([0.0] * m, [1.0] * m):
        _quietly(lp.verify_infeasibility, y, False)
        _quietly(lp.verify_optimality, y, False)
    _quietly(lp.__eq__, lp)


def warm_build(p, make):
    """The same program by a detour; make(A, b, c, rel, sign, objective) builds one."""
    import numpy as np
    A, b, c, z = data(p)
    A, b, c = np.array(A, dtype=float).reshape(len(b), len(c)), np.array(b, dtype=float), np.array(c, dtype=float)
    rel, sign = list(p["rel"]), p["sign"]
    new = WARM.endswith("not in place")
    if WARM.startswith("row last") and len(b) > 1:
        lp = make(A[:-1], b[:-1], c, rel[:-1], sign)
        ask_everything(lp)
        lp = lp.add_constraint(A[-1], rel[-1], b[-1], in_place=not new)
    elif WARM.startswith("variable last") and len(c) > 1:
        lp = make(A[:, :-1], b, c[:-1], rel, sign[:-1])
        ask_everything(lp)
        lp = lp.add_variable(c[-1], A[:, -1], sign[-1] == "f", sign[-1] == "-", in_place=not new)
    elif WARM == "another program first":
        ask_everything(make(A, b + 1, c[::-1] - 1, rel, sign))
        ask_everything(make(A[::-1], -b[::-1], c, rel[::-1], sign))
        lp = make(A, b, c, rel, sign)
    else:
        lp = make(A, b, c, rel, sign)
        ask_everything(lp)
        if WARM == "copied":
            lp = lp.copy()
    return lp


def build(p, cls=None, arrays=True, **extra):
    import numpy as np
    if cls is None:
        from pytimize.programs import LinearProgram as cls
    if WARM is not None and (not extra or not WARM.startswith("variable")):
        return warm_build(p, lambda A, b, c, rel, sign: cls(A.copy(), b.copy(), c.copy(), data(p)[3], p["obj"], list(rel), [j + 1 for j, s in enumerate(sign) if s == "f"],
                                                            [j + 1 for j, s in enumerate(sign) if s == "-"], **extra))
    A, b, c, z = data(p)
    if arrays:
        A, b, c = np.array(A, dtype=float).reshape(len(b), len(c)), np.array(b, dtype=float), np.array(c, dtype=float)
    free = [j + 1 for j, s in enumerate(p["sign"]) if s == "f"]
    neg = [j + 1 for j, s in enumerate(p["sign"]) if s == "-"]
    return cls(A, b, c, z, p["obj"], list(p["rel"]), free, neg, **extra)


def key(p):
    return (p["A"], p["b"], p["c"], p.get("z", 0), p.get("D", 1), p["obj"], p["rel"], p["sign"])


def clean_list(x):
    """A returned vector as a list of python floats; None stays None."""
    if x is None:
        return None
    return [float(v) for v in x]


def some_bases(A, step=1):
    """For every (step-th) column: the basis that begins there and takes every later column (round the end) that is independent of those before."""
    m, n = len(A), len(A[0])
    found = []
    for s in range(0, n, step):
        chosen, reduced = [], []
        for j in [*range(s, n), *range(s)]:
            v = [Fraction(r[j]) for r in A]
            for lead, u in reduced:
                if v[lead] != 0:
                    f = v[lead]
                    v = [a - f * b for a, b in zip(v, u)]
            lead = next((i for i, a in enumerate(v) if a != 0), None)
            if lead is not None:
                chosen.append(j)
                reduced.append((lead, [a / v[lead] for a in v]))
                if len(chosen) == m:
                    break
        if len(chosen) == m:
            B = tuple(sorted(chosen))
            if B not in found:
                found.append(B)
    return found
