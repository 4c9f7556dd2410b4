from itertools import combinations, product

from .. import gen, lpref, stub
from ..core import check
from ..lputil import snap

TITLE = "forms of vectors, matrices and index lists"
BOUNDS = ("Every program of the families, built from every form of its data (lists, arrays of every number type that holds them, up to the ends of its range, column order, reversed and strided views, "
          "read-only arrays; the three parts in the same form and in every pair of different forms), and every operation that takes a vector, column, row or index list with every form of it "
          "(two-vector operations with every pair of forms); each result or refusal is compared with that for float arrays (float lists). Vectors of up to 30 entries.")
ASSUMPTIONS = ["results are compared up to 1e-9, since the memory layout may change the order of summation", "lists hold Python numbers, arrays may hold any number type"]


def number_types(values, np):
    """The integer types that hold these values; the narrow ones, and those reaching an end of their range, always."""
    if all(x == int(x) for x in values):
        large = any(abs(x) > 50 for x in values)
        for name in ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"):
            info = np.iinfo(name)
            if all(info.min <= x <= info.max for x in values) and (large or name in ("int8", "int32", "int64", "uint8")):
                yield name


def vector_forms(v, np):
    """Every way to write the vector v; all but the first hold exactly the same numbers."""
    f = [float(x) for x in v]
    yield "list", list(f)
    yield "array", np.array(f)
    yield "float32", np.array(f, dtype=np.float32)
    if all(x == int(x) for x in f):
        yield "int list", [int(x) for x in f]
        yield "mixed list", [int(x) if i % 2 else x for i, x in enumerate(f)]
    for name in number_types(f, np):
        yield name, np.array(f).astype(name)
    yield "reversed", np.array(f[::-1])[::-1]
    wide = np.full(2 * len(f) + 1, 77.0)
    wide[::2][:len(f)] = f
    yield "strided", wide[::2][:len(f)]
    fixed = np.array(f)
    fixed.flags.writeable = False
    yield "read-only", fixed
    yield "column of a matrix", np.array([[x, 5.0] for x in f])[:, 0]


def matrix_forms(A, np):
    f = [[float(x) for x in r] for r in A]
    yield "array", np.array(f)
    yield "list", [list(r) for r in f]
    yield "float32", np.array(f, dtype=np.float32)
    if all(x == int(x) for r in f for x in r):
        yield "int list", [[int(x) for x in r] for r in f]
        yield "mixed list", [[int(x) if (i + j) % 2 else x for j, x in enumerate(r)] for i, r in enumerate(f)]
    for name in number_types([x for r in f for x in r], np):
        yield name, np.array(f).astype(name)
    yield "column order", np.asfortranarray(np.array(f))
    yield "reversed", np.array([r[::-1] for r in f[::-1]])[::-1, ::-1]
    yield "transposed", np.array(list(map(list, zip(*f)))).T
    fixed = np.array(f)
    fixed.flags.writeable = False
    yield "read-only", fixed


def index_forms(v, np):
    yield "list", list(v)
    yield "array", np.array(v, dtype=np.int64)
    yield "int32", np.array(v, dtype=np.int32)
    yield "int8", np.array(v, dtype=np.int8)
    yield "reversed", np.array(v[::-1], dtype=np.int64)[::-1]
    wide = np.full(2 * len(v) + 1, 1, dtype=np.int64)
    wide[::2][:len(v)] = v
    yield "strided", wide[::2][:len(v)]


def families(tier):
    t = tier == "thorough"

    def build(ps):
        for p in ps:
            yield {"do": "build", "p": p}

    def use(ps):
        for p in ps:
            yield {"do": "use", "p": p}

    general = [gen.over([[(1, -2), (3, 1)]], [(4, -1)], [(2, -3)], (1,), objs=("max", "min")), gen.over([[(2,), (-1,), (1,)]], [(4, -2, 0)], [(3,)], (1,)),
               gen.over([[(1, 0, -1), (2, 1, 1)]], [(3, 5)], [(1, 2, -1)], (-2,), objs=("max",)), gen.over([[(1, 3), (7, -2)]], [(5, 3)], [(1, -1)], (1,), D=2)]
    sef = [gen.sef_lists([[(1, 0, 2, 1), (0, 1, 1, -1)], [(1, 2, 1, 0), (1, 1, 0, 1)], [(1, 1, 1, 1), (2, 2, 1, 0)]], list(product((0, 2, 3), repeat=2)), [(1, -1, 2, 0)], (1,)),
           gen.sef_lists([[(1, 0, 0, 2, 1), (0, 1, 0, 1, -1), (0, 0, 1, -1, 2)], [(2, 1, 0, 0, 1), (1, 0, 1, 0, -1), (0, 1, 1, 1, 0)]], [(1, 2, 3), (0, 1, 2)], [(1, -1, 2, 0, 3)], (1,)),
           gen.sef(1, 3, (-1, 0, 2), [(2,), (-1,)], [(1, -2, 0)], (1,)), gen.sef_lists([[(1, 3, -1), (3, 1, 5)]], [(3, 5), (1, 1)], [(1, 2, -3)], (1,), 2)]

    def all_of(pools, step=1):
        for pool in pools:
            yield from gen.every(pool, 1 if t else step)

    long = [gen.program([[(5 * i + 7 * j) % 9 - 2 for j in range(n)] for i in range(m)], [9 - 2 * i for i in range(m)], [(3 * j) % 7 - 3 for j in range(n)], (["<=", "=", ">="] * m)[:m], (s * n)[:n], "max", 1)
            for m, n in ((2, 12), (12, 2), (1, 30), (25, 1), (3, 24)) for s in ("+", "+-f", "f-")]
    long_sef = [gen.program([[(5 * i + 7 * j + i * j) % 9 - 2 for j in range(n)] for i in range(m)], [9 + 2 * i for i in range(m)], [(3 * j) % 7 - 3 for j in range(n)], ["="] * m, "+" * n, "max", 1)
                for m, n in ((2, 12), (1, 30), (3, 24), (6, 14))]
    # the ends of the ranges of the narrow number types
    wide = [gen.over([[(200, 255), (1, 7)], [(-128, 100), (3, 1)]], [(255, 100), (-128, 90)], [(200, 129)], (1,), objs=("max",)),
            gen.over([[(65535, 40000), (1, 200)], [(-32768, 300), (2, -128)]], [(65535, 1)], [(33000, -129)], (1,), objs=("min",))]
    wide_sef = [gen.sef_lists([[(200, 1, 0, 255), (0, 0, 1, 129)]], [(200, 255), (400, 129)], [(200, -128, 0, 255)], (1,)),
                gen.sef_lists([[(128, 255, -128)]], [(255,), (128,)], [(1, 200, -129)], (1,))]
    general, sef = [list(g) for g in general], [list(g) for g in sef]
    wide, wide_sef = [list(g) for g in wide], [list(g) for g in wide_sef]
    return [("built, long", lambda: build(long + long_sef)), ("used, long", lambda: use(long + long_sef)), ("built, wide numbers", lambda: build(all_of(wide + wide_sef, 6))), ("used, wide numbers", lambda: use(all_of(wide + wide_sef, 13))),
            ("built, general", lambda: build(all_of(general, 13))), ("built, standard form", lambda: build(all_of(sef))),
            ("used, general", lambda: use(all_of(general, 13))), ("used, standard form", lambda: use(all_of(sef)))]


def plain(v):
    """A result as nested comparable data."""
    import numpy as np
    if isinstance(v, np.ndarray):
        return v.astype(float).tolist()
    if isinstance(v, (list, tuple)):
        return [plain(w) for w in v]
    if hasattr(v, "inequalities"):
        return plain(list(snap(v)))
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, float, np.number)):
        return float(v)
    return v


def near(u, v):
    if isinstance(u, list) and isinstance(v, list):
        return len(u) == len(v) and all(near(a, b) for a, b in zip(u, v))
    if isinstance(u, float) and isinstance(v, float):
        return abs(u - v) <= 1e-9 * (1 + abs(v))
    return type(u) is type(v) and u == v


def attempt(f):
    try:
        return "gives", plain(f())
    except Exception as e:  # noqa: B902
        return "raises", type(e).__name__


def agree(got, want, what):
    check(got[0] == want[0] and near(got[1], want[1]), "{} {} {}, otherwise it {} {}", what, got[0], got[1], want[0], want[1])


def some_bases(n, m):
    """The first and the last columns, and some spread ones."""
    picks = [list(range(1, m + 1)), list(range(n - m + 1, n + 1))] + [[(k + i * step) % n + 1 for i in range(m)] for k, step in ((0, 5), (3, 7), (n - 2, 1))]
    return [tuple(b) for b in picks if len(set(b)) == m]


def whole(lp):
    """What a program answers, for comparison between differently built ones."""
    lp = lp.copy()
    yield "content", lambda: lp
    yield "text", lambda: str(lp)
    yield "dual", lambda: lp.dual()
    yield "standard form", lambda: lp.to_sef(False)
    yield "solution value", lambda: lp.optimal_value() if lp.solve(False) is not None else None
    yield "conditions", lambda: lp.cs_conditions()
    yield "with a row", lambda: lp.add_constraint([1.0] * len(lp.c), "<=", 3)
    yield "with a variable", lambda: lp.add_variable(1, [1.0] * len(lp.b))
    yield "evaluation", lambda: lp.evaluate([1.0] * len(lp.c))
    if lp.is_sef:
        for basis in some_bases(len(lp.c), len(lp.b)) if len(lp.c) > 9 else combinations(range(1, len(lp.c) + 1), len(lp.b)):
            yield f"form for {basis}", lambda: lp.to_canonical_form(list(basis), False)


def run_build(p, ctx):
    import numpy as np
    from pytimize.programs import LinearProgram
    d = p["D"]
    free = [j + 1 for j, s in enumerate(p["sign"]) if s == "f"]
    neg = [j + 1 for j, s in enumerate(p["sign"]) if s == "-"]

    def make(A, b, c, fr, ne):
        return LinearProgram(A, b, c, p["z"] / d, p["obj"], list(p["rel"]), fr, ne)

    As = dict(matrix_forms([[v / d for v in r] for r in p["A"]], np))
    bs = dict(vector_forms([v / d for v in p["b"]], np))
    cs = dict(vector_forms([v / d for v in p["c"]], np))
    base = [(name, attempt(f)) for name, f in whole(make(As["array"], bs["array"], cs["array"], list(free), list(neg)))]
    names = [(a, b, c, "list") for a in As for b in bs for c in cs if (a == b or b == c or a == c or "array" in (a, b)) or a not in bs] if len(As) * len(bs) * len(cs) else []
    frees, negs = dict(index_forms(free, np)), dict(index_forms(neg, np))
    names += [("array", "array", "array", k) for k in frees]
    for a, b, c, k in names:
        lp = make(As[a], bs[b], cs[c], frees[k], negs[k])
        ctx.call()
        want = base if a == b or k != "list" or "int64" in (a, b, c) else base[:1]
        for (name, f), (_, expected) in zip(whole(lp), want):
            agree(attempt(f), expected, f"{name} of the program built from A as {a}, b as {b}, c as {c}, indices as {k},")
    ctx.state(lpref.key(p))


def run_use(p, ctx):
    import numpy as np
    lp = lpref.build(p)
    m, n = len(p["b"]), len(p["c"])
    before = snap(lp)

    def same(what, f, *forms):
        """f gives the same for every combination of the forms of its arguments."""
        lists = [list(g) for g in forms]
        want = attempt(lambda: f(*[g[0][1] for g in lists]))
        for combination in product(*lists):
            got = attempt(lambda: f(*[a for _, a in combination]))
            ctx.call()
            agree(got, want, f"{what} of {[plain(a) for _, a in combination]} given as {[k for k, _ in combination]}")
        check(snap(lp) == before, "{} changed the program", what)

    def few(k):
        return [[0] * k, [1] * k, [(-1, 0, 2)[j % 3] for j in range(k)], [0] * (k - 1) + [2], [int(j % 11 == 3) for j in range(k)]]

    points = few(n) if n > 9 else list(product((-1, 0, 2) if n < 4 else (0, 1), repeat=n))[::max(1, 3 ** min(n, 3) // 9)]
    bases = some_bases(n, m) if n > 9 else list(combinations(range(1, n + 1), m))
    if lp.is_sef:
        for B in (lpref.bases(p["A"]) if n < 10 else [[j - 1 for j in B] for B in bases[:2]]):
            if n > 9 and lpref.rank([[r[j] for j in B] for r in p["A"]]) < m:
                continue
            x = lpref.basic_solution([list(r) for r in p["A"]], list(p["b"]), B)
            if x is not None and all(float(v) * 8 == int(float(v) * 8) for v in x):
                points.append([float(v) for v in x])
    for x in points:
        for what in ("evaluate", "value_of", "is_feasible"):
            same(what, getattr(lp, what), vector_forms(x, np))
    for y in few(m) if m > 9 else list(product((-1, 0, 2), repeat=m))[::max(1, 3 ** m // 9)]:
        same("verify_infeasibility", lambda v: lp.verify_infeasibility(v, False), vector_forms(y, np))
        same("verify_optimality", lambda v: lp.verify_optimality(v, False), vector_forms(y, np))
        for kwargs in ({}, {"free": True}, {"negative": True}):
            same("add_variable", lambda v: lp.add_variable(2, v, **kwargs), vector_forms(y, np))
            same("add_variable", lambda v: lp.copy().add_variable(-1, v, in_place=True, **kwargs), vector_forms(y, np))
    for x in points[::4]:
        for rel in ("<=", ">=", "="):
            same("add_constraint", lambda v: lp.add_constraint(v, rel, 3), vector_forms(x, np))
        same("add_constraint", lambda v: lp.copy().add_constraint(v, "<=", -2, True), vector_forms(x, np))
        for d in points[1::5]:
            same("verify_unboundedness", lambda u, v: lp.verify_unboundedness(u, v, False), vector_forms(x, np), vector_forms(d, np))
    same("to_rref", lp.to_rref, [f for f in matrix_forms([list(r) + [b] for r, b in zip(p["A"], p["b"])], np) if isinstance(f[1], np.ndarray)])
    if lp.is_sef:
        for basis in bases:
            for order in (basis, basis[::-1]):
                forms = list(index_forms(list(order), np))
                for what in ("is_basis", "is_basis_feasible", "compute_basic_solution", "is_canonical_form_for", "to_canonical_form", "simplex_iteration", "simplex"):
                    same(what, getattr(lp, what), forms)
                for x in points[::5] + points[-2:]:
                    same("is_basic_solution", lp.is_basic_solution, vector_forms(x, np), forms[:2] + forms[-1:])
                    same("is_feasible_basic_solution", lp.is_feasible_basic_solution, vector_forms(x, np), forms[:2] + forms[-1:])
    ctx.state(lpref.key(p))


def run(case, ctx):
    stub.fast_steps()
    (run_build if case["do"] == "build" else run_use)(case["p"], ctx)
