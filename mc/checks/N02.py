from itertools import product

from ..core import check
from .N01 import STYLES, start_point

TITLE = "newton_method()"
BOUNDS = ("Quadratics with nonsingular (definite and indefinite, also ill-conditioned up to 1e7) Hessians in 1 to 3 and 6 to 40 variables, both senses, every start point of a grid given as "
          "list/array of ints/floats, every tolerance and iteration cap of a list; smooth convex and concave functions (cosh, quartic, "
          "exponential sums) with caps 0..20; even powers started far away (up to 120 steps); every iterate observed through the derivative calls.")
ASSUMPTIONS = ["iterates are the points at which the derivatives are requested", "non-quadratic functions are chosen so that Newton's method is defined at every iterate"]

QS = {1: [[[2]], [[-3]], [[0.5]], [[10]]],
      2: [[[2, 0], [0, 1]], [[2, 1], [1, 2]], [[0, 1], [1, 0]], [[1, 2], [2, 1]], [[-2, 1], [1, -3]], [[100, 0], [0, 1]], [[1, 3], [3, -2]]],
      3: [[[2, 1, 0], [1, 2, 1], [0, 1, 2]], [[0, 1, 2], [1, 0, 1], [2, 1, 0]], [[-1, 0, 0], [0, 2, 0], [0, 0, -3]]]}
ILL = {1: [[[1e6]], [[-1e-6]], [[1e9]]], 2: [[[1, 0], [0, 5000]], [[1, 0], [0, -1e6]], [[1e4, 99], [99, 1]], [[1e-5, 0], [0, 1]], [[1e5, 1], [1, 1e-3]], [[0, 1e4], [1e4, 1]]],
       3: [[[1e5, 0, 1], [0, 1, 0], [1, 0, 2]], [[1, 0, 0], [0, -1e3, 0], [0, 0, 1e6]]]}
BS = {1: [[0], [3], [-1.5]], 2: [[0, 0], [1, -2], [-4, 3]], 3: [[1, -1, 2], [0, 0, 0]]}
FUNCTIONS = ("cosh", "quartic", "exponentials", "cosh + quadratic")


def families(tier):
    t = tier == "thorough"

    def quadratics(n, grid):
        for Q in QS[n]:
            for b in BS[n]:
                for start in product(grid, repeat=n):
                    for obj in ("min", "max"):
                        for style in STYLES:
                            for args in ({}, {"max_iteration": 1}, {"tolerance": 1e-6, "max_iteration": 3}, {"max_iteration": 0}):
                                yield {"Q": Q, "b": b, "x": list(start), "obj": obj, "style": style, "args": args}

    def ill():
        for n in ILL:
            for Q in ILL[n]:
                for b in BS[n]:
                    for start in product((-3, 0, 2) if not t else (-7, -3, -1, 0, 2, 4), repeat=n):
                        for obj in ("min", "max"):
                            for style in STYLES:
                                for args in ({"max_iteration": 1}, {"max_iteration": 0}, {}):
                                    yield {"Q": Q, "b": b, "x": list(start), "obj": obj, "style": style, "args": args}

    def smooth():
        for name in FUNCTIONS:
            n = 2 if "+" in name else 1
            for start in product((-3, -1, 2, 3) if n == 2 else (-3, -2, -1, 1, 2, 3), repeat=n):
                for obj in ("min", "max"):
                    for style in STYLES:
                        for tol in (None, 1e-4, 1e-2, 1e-8):
                            for cap in (None, 0, 1, 2, 3, 5, 8, 20) if tol else (None, 3, 20):
                                args = {} if tol is None else {"tolerance": tol}
                                if cap is not None:
                                    args["max_iteration"] = cap
                                yield {"f": name, "x": list(start), "obj": obj, "style": style, "args": args}

    def slow():
        for name in ("quartic", "power 6", "power 10", "two powers"):
            for start in (-1e6, -1000, -30, 50, 1000, 1e6):
                for obj in ("min", "max"):
                    for style in (STYLES if t else STYLES[:2]):
                        for tol in (None, 1e-6, 1e-1):
                            for cap in (None, 10, 24, 40, 1000) if tol else (None,):
                                args = {} if tol is None else {"tolerance": tol}
                                if cap is not None:
                                    args["max_iteration"] = cap
                                yield {"f": name, "x": [start] if name != "two powers" else [start, 7], "obj": obj, "style": style, "args": args}

    def many():
        """6 to 40 variables: tridiagonal and arrow-shaped."""
        for n in (6, 12, 25, 40):
            for k, (diagonal, off) in enumerate(((3, 1), (4, -1), (2.5, 0.5))):
                band = [[diagonal + i % 3 if i == j else off * (abs(i - j) == 1) for j in range(n)] for i in range(n)]
                arrow = [[n + i if i == j else off * (min(i, j) == k) for j in range(n)] for i in range(n)]
                for Q in (band, arrow):
                    for start in ([(-2, 1, 3)[(i + k) % 3] for i in range(n)], [0] * n, [int(i == n - 1) * 5 for i in range(n)]):
                        for b in ([0] * n, [(1, -2, 0, 3)[i % 4] for i in range(n)]):
                            for obj in ("min", "max"):
                                for style in STYLES if t else STYLES[k:k + 2]:
                                    for args in ({}, {"max_iteration": 1}, {"tolerance": 1e-6, "max_iteration": 3}, {"max_iteration": 0}):
                                        yield {"Q": Q, "b": b, "x": list(start), "obj": obj, "style": style, "args": args}

    return [("many variables", many), ("slow", slow), ("ill-conditioned", ill), ("1 variable", lambda: quadratics(1, (-3, 0, 1, 5) if not t else range(-9, 10))), ("2 variables", lambda: quadratics(2, (-3, 0, 2) if not t else (-7, -3, -1, 0, 2, 4))),
            ("3 variables", lambda: quadratics(3, (-2, 1) if not t else (-3, 0, 1, 4))), ("smooth", smooth)]


def functions(case):
    import numpy as np
    s = 1.0 if case["obj"] == "min" else -1.0
    if "Q" in case:
        Q, b = np.array(case["Q"], dtype=float), np.array(case["b"], dtype=float)
        return (lambda x: float(0.5 * x @ Q @ x + b @ x + 1)), (lambda x: Q @ x + b), (lambda x: Q.copy())
    name = case["f"]
    if name == "cosh":
        return (lambda x: s * float(np.cosh(x[0]))), (lambda x: s * np.sinh(x)), (lambda x: s * np.cosh(x).reshape(1, 1))
    if name == "quartic":
        return (lambda x: s * float(x[0] ** 4)), (lambda x: s * 4 * x ** 3), (lambda x: s * (12 * x ** 2).reshape(1, 1))
    if name[:5] == "power":
        k = int(name[6:])
        return (lambda x: s * float(x[0] ** k)), (lambda x: s * k * x ** (k - 1)), (lambda x: s * (k * (k - 1) * x ** (k - 2)).reshape(1, 1))
    if name == "two powers":
        return ((lambda x: s * float(x[0] ** 4 + x[1] ** 6)), (lambda x: s * np.array([4 * x[0] ** 3, 6 * x[1] ** 5])),
                (lambda x: s * np.diag([12 * x[0] ** 2, 30 * x[1] ** 4])))
    if name == "exponentials":
        return ((lambda x: s * float(np.exp(x[0]) + 2 * np.exp(-x[0]) + x[0])), (lambda x: s * (np.exp(x) - 2 * np.exp(-x) + 1)),
                (lambda x: s * (np.exp(x) + 2 * np.exp(-x)).reshape(1, 1)))
    return ((lambda x: s * float(np.cosh(x[0]) + (x[1] - 1) ** 2 + x[0] ** 2)), (lambda x: s * np.array([np.sinh(x[0]) + 2 * x[0], 2 * (x[1] - 1)])),
            (lambda x: s * np.array([[np.cosh(x[0]) + 2, 0], [0, 2.0]])))


def run(case, ctx):
    import numpy as np
    from pytimize.programs import UnconstrainedProgram
    f, df0, d2f0 = functions(case)
    points, hessians = [], []

    def df(x):
        points.append([float(v) for v in x])
        return df0(x)

    def d2f(x):
        hessians.append([float(v) for v in x])
        points.append([float(v) for v in x])
        return d2f0(x)

    args = case["args"]
    tol, cap = args.get("tolerance", 1e-4), args.get("max_iteration", 10 ** 5)
    x0 = start_point(case["x"], case["style"])
    out = UnconstrainedProgram(f, case["obj"]).newton_method(x0, df, d2f, **args)
    ctx.call()
    kept = start_point(case["x"], case["style"])
    check(type(x0) is type(kept) and list(x0) == list(kept) and getattr(x0, "dtype", None) == getattr(kept, "dtype", None), "the starting point was changed to {}", x0)
    got = [float(v) for v in out]
    start = [float(v) for v in case["x"]]
    check(len(got) == len(start), "a point of length {} was returned", len(got))
    path = [start]
    for g in points + [got]:
        if g != path[-1]:
            path.append(g)
    ctx.state(case.get("Q"), case.get("b"), case.get("f"), case["obj"], got)
    check(len(path) - 1 <= cap, "{} iterations with cap {}", len(path) - 1, cap)
    if cap == 0:
        check(got == start, "with no iterations {} was returned", got)
        return
    norm = float(np.linalg.norm(df0(np.array(got))))
    if "Q" in case:
        Q, b = np.array(case["Q"], dtype=float), np.array(case["b"], dtype=float)
        x = np.linalg.solve(Q, -b)
        check(all(abs(u - v) <= 1e-9 * (1 + abs(v)) for u, v in zip(got, x)), "returned {} instead of the stationary point {}", got, x.tolist())
        if tol >= 1e-4:
            check(len(path) <= 2, "took {} steps on a quadratic", len(path) - 1)
        return
    check(norm <= tol * (1 + 1e-9) or len(path) - 1 == cap, "stopped after {} iterations (cap {}) with gradient norm {}", len(path) - 1, cap, norm)
    if cap >= 1000 or cap >= 20 and case["f"] in FUNCTIONS and max(map(abs, start)) < 10:
        check(norm <= tol * (1 + 1e-9) or case["f"] == "quartic" and cap == 20, "did not reach the tolerance: gradient norm {}", norm)
