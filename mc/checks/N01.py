from itertools import product

from ..core import check

TITLE = "steepest_descent()"
BOUNDS = ("Definite quadratics in 1 to 3 variables (listed Hessians, condition number up to 100) with several linear terms, both senses, every start point of "
          "a grid given as list/array of ints/floats; separately every combination of step length, Armijo constant, reduction "
          "factor, tolerance and iteration cap 0..5; steep ones (Hessians up to 1e9, dozens of halvings) with caps 1..4; quadratics in 4, 5 and 6 to 40 variables, and smooth strictly convex and concave functions (cosh, exponential sums, quartic plus quadratic); "
          "every iterate is observed through the gradient calls, and every step is compared with the documented backtracking: the first of alpha, p alpha, p^2 alpha, ... with sufficient decrease.")
ASSUMPTIONS = ["iterates are the points at which the gradient is requested", "tolerances from 1e-5 up (below that, decreases are lost to rounding)", "a step counts as sufficient or not only beyond a rounding margin of 1e-9", "step parameters in the ranges where backtracking terminates (0 < p < 1, 0 < c < 1)"]

QS = {1: [[[0.5]], [[1]], [[2]], [[7]], [[0.1]]],
      2: [[[2, 0], [0, 1]], [[2, 1], [1, 2]], [[10, 0], [0, 1]], [[1, -0.5], [-0.5, 3]], [[4, 3], [3, 4]], [[50, 0], [0, 0.5]], [[0.2, 0.1], [0.1, 0.2]]],
      3: [[[2, 1, 0], [1, 2, 1], [0, 1, 2]], [[1, 0, 0], [0, 5, 0], [0, 0, 3]]],
      4: [[[2, 1, 0, 0], [1, 2, 1, 0], [0, 1, 2, 1], [0, 0, 1, 3]], [[1, 0, 0, 0], [0, 2, 0, 0], [0, 0, 3, 0], [0, 0, 0, 4]]],
      5: [[[1 + (i == j) * (2 + i) for j in range(5)] for i in range(5)]]}
STEEP = {1: [[[1e4]], [[3e5]], [[1e8]], [[1e-3]]], 2: [[[2e4, 0], [0, 1e4]], [[4e6, 3e6], [3e6, 4e6]], [[1e9, 2e8], [2e8, 1e9]]], 3: [[[2e5, 1e5, 0], [1e5, 2e5, 1e5], [0, 1e5, 2e5]]]}
FUNCTIONS = ("cosh", "exponentials", "quartic", "cosh + quadratic")
BS = {1: [[0], [3], [-1.5]], 2: [[0, 0], [1, -2], [-4, 3]], 3: [[1, -1, 2], [0, 0, 0]], 4: [[1, -1, 2, 0]], 5: [[1, 2, -3, 0, 4]]}
STYLES = ("list int", "list float", "array int", "array float")


def families(tier):
    t = tier == "thorough"

    def main(n, grid):
        for Q in QS[n]:
            for b in BS[n]:
                for start in product(grid, repeat=n):
                    for obj in ("min", "max"):
                        for style in STYLES:
                            yield {"Q": Q, "b": b, "x": list(start), "obj": obj, "style": style, "args": {}}

    def parameters(n, grid):
        for Q in (QS[n] if t else QS[n][1:4]):
            for b in (BS[n] if t else BS[n][1:2]):
                for start in product(grid, repeat=n):
                    for obj in ("min", "max"):
                        for alpha, c, p in product((1, 0.1, 10), (0.1, 0.5, 0.7, 0.95), (0.5, 0.9, 0.1)):
                            for tol in (1e-4, 1e-1, 1e-5):
                                yield {"Q": Q, "b": b, "x": list(start), "obj": obj, "style": "array float", "args": {"alpha": alpha, "c": c, "p": p, "tolerance": tol}}
                        for cap in (0, 1, 2, 3, 5):
                            yield {"Q": Q, "b": b, "x": list(start), "obj": obj, "style": "list int", "args": {"max_iteration": cap}}
                            yield {"Q": Q, "b": b, "x": list(start), "obj": obj, "style": "array int", "args": {"alpha": 0.1, "max_iteration": cap, "tolerance": 1e-12}}
    def steep():
        # many halvings before the decrease suffices
        for n in STEEP:
            for Q in STEEP[n]:
                for b in BS[n]:
                    for start in product((-3, 2) if not t else (-5, -3, 1, 2, 4), repeat=n):
                        for obj in ("min", "max"):
                            for args in ({"max_iteration": 3}, {"max_iteration": 1}, {"max_iteration": 4, "alpha": 100}, {"max_iteration": 2, "c": 0.2, "p": 0.95}, {"max_iteration": 3, "alpha": 1e-3, "p": 0.1}):
                                for style in STYLES[1:3]:
                                    yield {"Q": Q, "b": b, "x": list(start), "obj": obj, "style": style, "args": args}

    def smooth():
        for name in FUNCTIONS:
            n = 2 if "+" in name else 1
            for start in product((-2, -1, 0, 1, 2, 3) if not t else range(-4, 5), repeat=n):
                for obj in ("min", "max"):
                    for style in STYLES:
                        for args in ({}, {"alpha": 0.5, "c": 0.3, "p": 0.8}, {"alpha": 4, "p": 0.25, "tolerance": 1e-2}, {"max_iteration": 2}, {"alpha": 0.1, "max_iteration": 3}):
                            yield {"f": name, "x": list(start), "obj": obj, "style": style, "args": args}

    def many():
        """6 to 40 variables: tridiagonal and arrow-shaped."""
        for n in (6, 12, 25, 40):
            for k, (diagonal, off) in enumerate(((3, 1), (4, -1), (2.5, 0.5))):
                band = [[diagonal + i % 3 if i == j else off * (abs(i - j) == 1) for j in range(n)] for i in range(n)]
                arrow = [[n + i if i == j else off * (min(i, j) == k) for j in range(n)] for i in range(n)]
                for Q in (band, arrow):
                    for start in ([(-2, 1, 3)[(i + k) % 3] for i in range(n)], [0] * n, [int(i == n - 1) * 5 for i in range(n)]):
                        for b in ([0] * n, [(1, -2, 0, 3)[i % 4] for i in range(n)]):
                            for obj in ("min", "max"):
                                for style in STYLES if t else STYLES[k:k + 2]:
                                    for args in ({}, {"max_iteration": 3}, {"alpha": 0.5, "c": 0.3, "p": 0.8, "max_iteration": 12}):
                                        yield {"Q": Q, "b": b, "x": list(start), "obj": obj, "style": style, "args": args}

    return [
        ("many variables", many),
        ("smooth", smooth),
        ("steep", steep),
        ("4 variables", lambda: main(4, (-2, 1) if not t else (-2, 1, 3))),
        ("5 variables", lambda: main(5, (-1, 2))),
        ("1 variable", lambda: main(1, (-3, -1, 0, 1, 3, 6) if not t else range(-8, 9))),
        ("2 variables", lambda: main(2, (-3, 0, 2) if not t else (-5, -3, -1, 0, 1, 2, 7))),
        ("3 variables", lambda: main(3, (-2, 1) if not t else (-3, -1, 0, 2))),
        ("parameters, 1 variable", lambda: parameters(1, (-3, 2))),
        ("parameters, 2 variables", lambda: parameters(2, (-2, 3))),
    ]


def start_point(x, style):
    import numpy as np
    kind = float if "float" in style else int
    x = [kind(v) for v in x]
    return np.array(x, dtype=kind) if "array" in style else x


def functions(case):
    """A strictly convex function and its gradient."""
    import numpy as np
    if "Q" in case:
        Q, b = np.array(case["Q"], dtype=float), np.array(case["b"], dtype=float)
        return (lambda x: float(0.5 * x @ Q @ x + b @ x + 1)), (lambda x: Q @ x + b)
    name = case["f"]
    if name == "cosh":
        return (lambda x: float(np.cosh(x[0] - 1))), (lambda x: np.sinh(x - 1))
    if name == "exponentials":
        return (lambda x: float(np.exp(x[0]) + 2 * np.exp(-x[0]) + x[0])), (lambda x: np.exp(x) - 2 * np.exp(-x) + 1)
    if name == "quartic":
        return (lambda x: float(x[0] ** 4 / 4 + x[0] ** 2)), (lambda x: x ** 3 + 2 * x)
    return (lambda x: float(np.cosh(x[0]) + (x[1] - 1) ** 2 + x[0] * x[1] / 2)), (lambda x: np.array([np.sinh(x[0]) + x[1] / 2, 2 * (x[1] - 1) + x[0] / 2]))


def steps(path, function, gradient, args):
    """Every step is alpha p^k times the steepest descent direction, k being the first with sufficient decrease."""
    import numpy as np
    alpha, c, p = args.get("alpha", 1), args.get("c", 0.7), args.get("p", 0.5)
    for u, v in zip(path[:40], path[1:41]):
        u, v = np.array(u), np.array(v)
        g = gradient(u)
        f0, slope = function(u), float(g @ g)
        margin = 1e-9 * (1 + abs(f0))
        k, found = alpha, False
        while k * slope > 1e-13 and not found:
            excess = function(u - k * g) - (f0 - c * k * slope)
            if np.linalg.norm(u - k * g - v) <= 1e-9 * (np.linalg.norm(k * g)) + 1e-13 * (1 + np.linalg.norm(u)):
                check(excess <= margin, "the step from {} to {} (length {}) does not decrease the objective sufficiently", u, v, k)
                found = True
            else:
                check(excess >= -margin, "the step length {} from {} is sufficient, the step goes to {}", k, u, v)
            k *= p
        check(found or np.linalg.norm(v - u) <= 1e-6 * (1 + np.linalg.norm(u)), "the step from {} to {} is not along the gradient", u, v)


def run(case, ctx):
    import numpy as np
    from pytimize.programs import UnconstrainedProgram
    s = 1.0 if case["obj"] == "min" else -1.0
    grads, values = [], []
    function, gradient = functions(case)

    def f(x):
        values.append(1)
        return s * function(x)

    def df(x):
        grads.append([float(v) for v in x])
        return s * gradient(x)

    args = dict(case["args"])
    tol, cap = args.get("tolerance", 1e-4), args.get("max_iteration", 10 ** 5)
    for k in range(2):
        del grads[:]
        x0 = start_point(case["x"], case["style"])
        program = UnconstrainedProgram(f, case["obj"]) if case["obj"] == "max" or k else UnconstrainedProgram(f)
        out = program.steepest_descent(x0, df, **args)
        ctx.call()
        kept = start_point(case["x"], case["style"])
        check(type(x0) is type(kept) and list(x0) == list(kept) and getattr(x0, "dtype", None) == getattr(kept, "dtype", None), "the starting point was changed to {}", x0)
        got = [float(v) for v in out]
        check(len(got) == len(case["x"]), "a point of length {} was returned", len(got))
        path = [[float(v) for v in case["x"]]]
        for g in grads + [got]:
            if g != path[-1]:
                path.append(g)
        fs = [f(np.array(p)) for p in path]
        for u, v in zip(fs, fs[1:]):
            check(s * v <= s * u + 1e-12 * (1 + abs(u)), "an iterate worsened the objective from {} to {} (path {})", u, v, path[:8])
        steps(path, function, gradient, args)
        check(len(path) - 1 <= cap, "{} iterations with cap {}", len(path) - 1, cap)
        norm = float(np.linalg.norm(gradient(out)))
        if cap < 10 ** 5:
            # the capped run is a prefix of the run with more iterations
            if norm > tol:
                check(len(path) - 1 == cap, "stopped after {} of {} iterations with gradient norm {}", len(path) - 1, cap, norm)
            del grads[:]
            longer = program.steepest_descent(start_point(case["x"], "array float"), df, **{**args, "max_iteration": cap + 1})
            ctx.call()
            longer_path = [[float(v) for v in case["x"]]]
            for g in grads + [[float(v) for v in longer]]:
                if g != longer_path[-1]:
                    longer_path.append(g)
            check(longer_path[:len(path)] == path, "the first iterates depend on the cap: {} and {}", path, longer_path)
        else:
            check(norm <= tol * (1 + 1e-9), "stopped with gradient norm {} although the tolerance is {}", norm, tol)
        ctx.state(case.get("Q"), case.get("b"), case.get("f"), case["obj"], got)
    ctx.note("iterates", len(path))
