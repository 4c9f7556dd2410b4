from fractions import Fraction as F
from itertools import product

from ..core import check

TITLE = "Comparator"
BOUNDS = ("Every ordered pair of about 300 (thorough: 1000) numbers: integers, tenths, thirds, their shifts by 1e-14 to 1e-2 in both directions and relatively, large and tiny magnitudes, "
          "as int, float and numpy scalars; integrality at shifts from 0 to 1/2 on both sides of integers from -1e6 to 1e12; every array of up to 3 elements (and 2x2) over "
          "a list of values against every number of a list; arrays of up to 101 elements, in one to three dimensions and several memory layouts, with one odd element at every position.")
ASSUMPTIONS = ["clearly apart: more than 1e-9 from zero, or relatively more than 1e-4; clearly close: within 1e-11 of zero, or relatively within 1e-9; in between only consistency "
               "is required"]


def numbers(t):
    base = [0, 1, -1, 2, 3, 0.1, -0.3, 1 / 3, 0.5, 7.25, -100, 1000.5, 1e6, -1e9] + ([5, -2, 0.7, 1e-3, -1e-3, 12345, 1e12, -0.5, 2.5] if t else [])
    shifts = [0, 1e-14, 1e-12, 9e-11, 1.1e-10, 2e-9, 2e-8, 1e-7, 1e-6, 1e-5, 1.1e-5, 1e-4, 1e-3, 0.01] if t else [0, 1e-14, 1e-12, 9e-11, 1.1e-10, 2e-9, 1e-7, 1e-5, 1e-3, 0.01]
    out = []
    for b in base:
        for s in shifts:
            for v in (b + s, b - s, b * (1 + s), b * (1 - s)):
                if v not in out:
                    out.append(v)
    return out + [1e-300, -1e-300, 5e-324, 1e300, -1e300]


def families(tier):
    t = tier == "thorough"
    ns = numbers(t)
    values = [0, 1, -1, 1e-12, -1e-12, 1e-9, 0.5, 2 + 1e-12, 2 - 1e-12, 3.000001, -4]
    tests = [0, 1, -1, 0.5, 2, 1e-12]

    def integrality():
        for n in [0, 1, -1, 2, -2, 3, 7, 10, -10, 99, 1000, -12345, 10 ** 6, -10 ** 6, 10 ** 12]:
            for s in [0, 1e-16, 1e-13, 1e-12, 5e-12, 2e-9, 1e-8, 1e-6, 1e-3, 0.01, 0.1, 0.25, 0.49, 0.499999, 0.5]:
                yield {"integer": n, "shift": s}

    def arrays():
        for k in (0, 1, 2) + ((3,) if t else ()):
            for vs in product(values, repeat=k):
                yield {"array": list(vs)}
        for vs in product(values[1:8:2] if not t else values[:7], repeat=3 if not t else 4):
            yield {"array": list(vs), "square": True}

    def long():
        """One odd element at every position of a long array, in several shapes and layouts."""
        for n in (4, 7, 10, 11, 12, 13, 17, 24, 33, 64, 100, 101):
            for base in (0, 2, -1) if t or n < 30 else (0,):
                for odd in values:
                    for k in range(n) if n < 25 or t else (0, 9, 10, 11, n // 2, n - 2, n - 1):
                        yield {"array": [base] * k + [odd] + [base] * (n - k - 1), "layouts": True, "tests": tests[:3]}

    return [("long arrays", long), ("pairs", lambda: ({"value": a, "against": ns} for a in ns)), ("integrality", integrality), ("arrays", lambda: ({**c, "tests": tests} for c in arrays()))]


def exact_relation(a, b):
    """"<", "=", ">" where that is clear, else None."""
    a, b = F(a), F(b)
    gap, size = abs(a - b), max(abs(a), abs(b))
    if b == 0:
        clear_apart, clear_close = gap > F(1, 10 ** 9), gap <= F(1, 10 ** 11)
    else:
        clear_apart, clear_close = gap > size / 10 ** 4 and gap > F(1, 10 ** 7), gap <= abs(b) / 10 ** 9 or gap == 0
    if clear_close:
        return "="
    return ("<" if a < b else ">") if clear_apart else None


def relations(C, a, b):
    return [bool(C.is_close_compare(a, op, b)) for op in ("<", "<=", ">", ">=")]


def judge_pair(C, a, b, ctx):
    lt, le, gt, ge = got = relations(C, a, b)
    ctx.call(4)
    close = le and ge
    check(lt + close + gt == 1, "{!r} and {!r}: <, <=, >, >= are {}", a, b, got)
    check(le == (lt or close) and ge == (gt or close), "{!r} and {!r}: <, <=, >, >= are {}", a, b, got)
    want = exact_relation(a, b)
    if want is not None:
        check({"<": lt, "=": close, ">": gt}[want], "{!r} and {!r}: <, <=, >, >= are {}, expected {}", a, b, got, want)
    if b == 0:
        check(bool(C.is_close_to_zero(a)) == close and bool(C.is_negative(a)) == lt and bool(C.is_positive(a)) == gt, "{!r} is close to zero {}, negative {}, positive {}", a,
              C.is_close_to_zero(a), C.is_negative(a), C.is_positive(a))
        ctx.call(3)
    return got


def run(case, ctx):
    import numpy as np
    from pytimize.utilities import Comparator as C
    if "against" in case:
        a = case["value"]
        for b in case["against"]:
            got = judge_pair(C, a, b, ctx)
            check(relations(C, np.float64(a), b) == got and relations(C, np.float64(a), np.float64(b)) == got, "{!r} and {!r} compare differently as numpy numbers", a, b)
            if isinstance(a, int):
                check(relations(C, float(a), b) == got and relations(C, np.int64(a), b) == got, "{!r} and {!r} compare differently as another type", a, b)
            ctx.validated()
            ctx.state("pair", a, b)
        judge_pair(C, a, 0, ctx)
        judge_pair(C, a, 0.0, ctx)
        judge_pair(C, a, a, ctx)
    elif "integer" in case:
        n, s = case["integer"], case["shift"]
        for v in (n + s, n - s) if s else (n, float(n)):
            gap = abs(F(v) - round(F(v)))
            ctx.call()
            ctx.state("integrality", v)
            for x in (v, np.float64(v)):
                got = bool(C.is_integer(x))
                if gap <= F(1, 10 ** 11):
                    check(got, "{!r} is not integral", x)
                elif gap > F(1, 10 ** 9):
                    check(not got, "{!r} is integral", x)
            for others in ([], [3], [3, -2.0]):
                for arr in (others + [v], [v] + others):
                    check(bool(C.is_integer(np.array(arr, dtype=float))) == bool(C.is_integer(v)), "integrality of {} differs from that of {}", arr, v)
            check(bool(C.is_integer(np.array([[1.0, v], [2.0, 4.0]]))) == bool(C.is_integer(v)), "integrality of a square array with {}", v)
    else:
        values = case["array"]
        shaped = [np.array(values, dtype=float)]
        if case.get("square"):
            shaped.append(np.array((values * 2)[:4], dtype=float).reshape(2, 2))
        if values and all(isinstance(v, int) for v in values):
            shaped.append(np.array(values))
        if case.get("layouts"):
            n = len(values)
            full = np.array(values, dtype=float)
            shaped += [full.reshape(1, n), full.reshape(n, 1), np.repeat(full, 2)[::2], full[::-1], np.float32(full) if values == np.float32(full).tolist() else full]
            for k in (2, 3, 4, 5):
                if n % k == 0:
                    shaped += [full.reshape(k, n // k), full.reshape(n // k, k).T]
            if n % 12 == 0:
                shaped.append(full.reshape(2, 3, n // 6))
        for arr in shaped:
            elements = [v for v in arr.flatten().tolist()]
            kept = arr.copy()
            for test in case["tests"]:
                for op in ("<", "<=", ">", ">="):
                    want = all(bool(C.is_close_compare(v, op, test)) for v in set(elements))
                    check(bool(C.is_close_compare(arr, op, test)) == want, "{} {} {} is {}", elements, op, test, not want)
                    ctx.call()
            check(bool(C.is_negative(arr)) == all(bool(C.is_negative(v)) for v in set(elements)), "is_negative of {}", elements)
            check(bool(C.is_positive(arr)) == all(bool(C.is_positive(v)) for v in set(elements)), "is_positive of {}", elements)
            check(bool(C.is_integer(arr)) == all(bool(C.is_integer(v)) for v in set(elements)), "is_integer of {}", elements)
            close = C.is_close_to_zero(arr)
            check(np.shape(close) == arr.shape and np.array(close).flatten().tolist() == [bool(C.is_close_to_zero(v)) for v in elements], "is_close_to_zero of {} is {}", elements, close)
            check((arr == kept).all(), "the array was changed")
            ctx.call(4)
            ctx.state("array", arr.shape, elements)
