from fractions import Fraction as F
from itertools import permutations, product

from .. import stub
from ..core import check
from ..lputil import snap

TITLE = "constructing and reading back programs"
BOUNDS = ("Products of well-formed and malformed constructor arguments: data as list, float array and int array, ragged, wrong dimension, "
          "non-numeric; every relation list of length 0..3 over valid and invalid relations; senses; every list of up to n+1 free and "
          "negative indices over -1..n+1 in every order, for 1 to 3 variables; every accessor, the sense flag and equality with every "
          "one-place variation are compared with the given data. Every pair of odd variables among 11, lists of odd ones among 24 and 101. All of it for "
          "integer programs too, with every list of up to 3 integral variables, valid and not, and equality over 12 sets of them.")
ASSUMPTIONS = []

A2 = {"list": [[1, 2.5], [-3, 0]], "float": ("f", [[1, 2.5], [-3, 0]]), "int": ("i", [[1, 2], [-3, 0]]), "int list": [[1, 2], [-3, 0]]}
BAD_A = {"ragged": [[1, 2], [3]], "vector": [1, 2], "strings": [["1", "2"], ["3", "4"]], "one string": [[1, 2], [3, "4"]], "none": None, "number": 3,
         "nested": [[[1, 2], [3, 4]]], "cube": ("f", [[[1, 2], [3, 4]]]), "objects": ("o", [[1, 2], [3, 4]]), "complex": ("c", [[1, 2], [3, 4]]), "durations": ("m8[s]", [[1, 2], [3, 4]]), "dates": ("M8[D]", [[1, 2], [3, 4]]), "text array": ("u", [["a", "b"], ["c", "d"]]),
         "mixed": [[1, 2], 3], "None inside": [[1, None], [2, 3]], "empty": [], "vector array": ("f", [1, 2]), "string": "12", "three rows": [[1, 2], [3, 4], [5, 6]],
         "three columns": [[1, 2, 3], [4, 5, 6]], "one row": [[1, 2]]}
V2 = {"list": [4, -1.5], "float": ("f", [4, -1.5]), "int": ("i", [4, -1])}
BAD_V = {"long": [1, 2, 3], "short": [1], "empty": [], "matrix": [[1, 2]], "column": ("f", [[1], [2]]), "strings": ["1", "2"], "none": None, "number": 1,
         "objects": ("o", [1, 2]), "complex": ("c", [4, 1]), "durations": ("m8[s]", [4, 1]), "dates": ("M8[D]", [4, 1]), "None inside": [1, None], "text": "ab", "nested": [1, [2]]}


def families(tier):
    t = tier == "thorough"

    def data():
        for a in list(A2) + list(BAD_A):
            for b in list(V2) + list(BAD_V):
                for c in list(V2) + list(BAD_V):
                    bad = (a in BAD_A) + (b in BAD_V) + (c in BAD_V)
                    # the only malformed matrices that can fit malformed vectors are those of another shape
                    if bad <= 1 or t:
                        yield {"kind": "data", "A": a, "b": b, "c": c}

    def relations():
        rels = ["=", "<=", ">=", "<", "==", "", None, "≤", "=>", 1]
        for k in range(4):
            for r in product(rels if k <= 2 or t else ["=", "<=", "<"], repeat=k):
                for obj in ("max", "min"):
                    yield {"kind": "indices", "n": 2, "rel": list(r), "obj": obj, "free": None, "neg": None}
        for obj in ("max", "min", "Max", "MIN", "", "maximum", None, 1, "maxmin"):
            for rel in (None, ["=", "="], ["<=", ">="]):
                for free in (None, [], [1], [2, 1]):
                    yield {"kind": "indices", "n": 2, "rel": rel, "obj": obj, "free": free, "neg": None}

    def indices(n, rels, objs, longest):
        lists = [None] + [list(s) for k in range(longest + 1) for s in product(range(-1, n + 2), repeat=k)]
        for free in lists:
            for neg in lists:
                for rel in rels:
                    for obj in objs:
                        yield {"kind": "indices", "n": n, "rel": rel, "obj": obj, "free": free, "neg": neg}

    valid = [None] + [list(r) for r in product(("=", "<=", ">="), repeat=2)]
    return [
        ("data", data),
        ("relations and senses", relations),
        ("indices between numbers", lambda: ({"kind": "indices", "n": n, "rel": rel, "obj": obj, "free": f, "neg": g} for n in (2, 12) for rel, obj in ((["=", "="], "max"), (["<=", ">="], "min"))
                                             for f in ([0.5], [1.5], [1, 1.5], [1.999], [n - 0.5, 1], [n + 0.5]) for f, g in ((f, None), (None, f), (f, [2]), ([2], f)))),
        ("constants", lambda: ({"kind": "constant", "z": z, "cls": k} for z in CONSTANTS for k in ("linear", "integer"))),
        ("indices n=1", lambda: indices(1, [None, ["=", "="], ["<=", "="]], ("max", "min"), 2)),
        ("indices n=2", lambda: indices(2, valid if t else [None, ["=", "<="], [">=", ">="]], ("max", "min"), 3 if t else 2)),
        ("indices n=3", lambda: indices(3, [None, ["<=", ">="]] if t else [["=", "="]], ("max", "min") if t else ("max",), 3 if t else 2)),
        ("sign classes n=4", lambda: ({"kind": "indices", "n": 4, "rel": rel, "obj": obj, "free": list(f), "neg": list(g)}
                                      for signs in product("+-f", repeat=4)
                                      for f in permutations([j + 1 for j, s in enumerate(signs) if s == "f"])
                                      for g in permutations([j + 1 for j, s in enumerate(signs) if s == "-"])
                                      for rel in (["=", "="], ["<=", ">="]) for obj in ("max", "min"))),
        ("sign classes n=11", lambda: ({"kind": "indices", "n": 11, "rel": rel, "obj": obj, "free": free, "neg": neg}
                                       for some in ([j] if j == k else [j, k] for j in range(1, 12) for k in range(1, 12))
                                       for rest in ([], [j for j in range(1, 12) if j not in some])
                                       for free, neg in ((some, rest), (rest, some), (some[:1], some[1:]))
                                       for rel, obj in ((["=", "="], "max"), (["<=", ">="], "min")))),
        ("sign classes n=24, n=101", lambda: ({"kind": "indices", "n": n, "rel": ["<=", ">="], "obj": "max", "free": free, "neg": neg}
                                              for n in (24, 101) for some in ([n], [1, n], [n, 10], [2, 20], [12, 21], [n + 1], [n, n], [0, n], list(range(1, n, 2)), list(range(n, 0, -3)))
                                              for rest in ([], [j for j in range(1, n + 1) if j not in some], [n - 1], [3, 1])
                                              for free, neg in ((some, rest), (rest, some)))),
        ("integral variables n=24, n=101", lambda: ({"kind": "integral", "n": n, "integral": s} for n in (24, 101)
                                                    for s in ([n], [1, n], [n, 10], [2, 20], [12, 21], [n + 1], [n, n], [0, n], list(range(1, n, 2)), list(range(n, 0, -3))))),
        ("integral variables", lambda: ({"kind": "integral", "n": n, "integral": None if s is None else list(s)} for n in (1, 2, 3, 4)
                                        for s in [None] + [s for k in range(4) for s in product(range(-1, n + 3), repeat=k)])),
        ("integral variables n=11", lambda: ({"kind": "integral", "n": 11, "integral": list(s)} for k in (1, 2) for s in product(range(0, 13), repeat=k))),
        ("equality of integer programs", lambda: ({"kind": "equal integer", "i": i, "j": j, "data": d} for i in INTEGRAL for j in INTEGRAL
                                                  for d in ({}, {"z": 2, "obj": "min", "neg": [2]}))),
        ("equality", lambda: ({"kind": "equal", "i": i, "j": j} for i in range(len(VARIANTS)) for j in range(len(VARIANTS)))),
    ]


# name -> (constant, well-formed)
CONSTANTS = {"int": True, "float": True, "float64": True, "float32": True, "int8": True, "fraction": True, "text": False, "digits": False, "none": False, "complex": False, "list": False, "dict": False}


def constant(name):
    import numpy as np
    return {"int": -3, "float": 2.5, "float64": np.float64(2.5), "float32": np.float32(-0.5), "int8": np.int8(100), "fraction": F(3, 4), "text": "z", "digits": "3", "none": None,
            "complex": 1j, "list": [1.0], "dict": {}}[name]


INTEGRAL = ["linear", None, [], [1], [2], [3], [1, 2], [2, 1], [1, 3], [2, 3], [1, 2, 3], [3, 1, 2]]
VARIANTS = [dict(), dict(A=[[1, 2], [-3, 1]]), dict(A=[[1, 3], [-3, 0]]), dict(A=[[2, 1], [0, -3]]), dict(b=[4, 1]), dict(b=[1, 4]), dict(c=[1, 2]), dict(c=[2, 1]), dict(z=1),
            dict(z=-1), dict(obj="min"), dict(rel=["<=", "="]), dict(rel=["=", "<="]), dict(rel=["<=", "<="]), dict(rel=[">=", "="]), dict(rel=[">=", "<="]), dict(rel=["<=", ">="]),
            dict(free=[1]), dict(free=[2]), dict(free=[1, 2]), dict(neg=[1]), dict(neg=[2]), dict(neg=[1, 2]), dict(free=[1], neg=[2]), dict(free=[2], neg=[1]),
            dict(obj="min", rel=["<=", ">="], free=[1], neg=[2], z=1), dict(obj="min", rel=["<=", ">="], free=[2], neg=[1], z=1), dict(A=[[1, 2], [-3, 0], [0, 0]], b=[4, 2, 0], rel=["="] * 3),
            dict(A=[[1, 2, 0], [-3, 0, 0]], c=[3, 4, 0]), dict(rel=None), dict(rel=["=", "="], free=[], neg=[]), dict(free=[2, 1]), dict(neg=[2, 1])]


def value(v):
    import numpy as np
    if isinstance(v, tuple):
        return np.array(v[1], dtype={"f": float, "i": int, "o": object, "u": None, "c": complex}.get(v[0], v[0]))
    return v


def given(v):
    v = v[1] if isinstance(v, tuple) else v
    return [[float(x) for x in r] if isinstance(r, list) else float(r) for r in v]


def shape(v):
    v = v[1] if isinstance(v, tuple) else v
    return (len(v), len(v[0])) if isinstance(v[0], list) else (len(v),)


def outcome(*args, cls=None):
    from pytimize.programs import LinearProgram
    try:
        return (cls or LinearProgram)(*args)
    except ValueError:
        return None


def judge(lp, A, b, c, z, obj, rel, free, neg):
    n = len(c)
    check(lp is not None, "a well-formed program was refused")
    free, neg = sorted(free or []), sorted(neg or [])
    rel = rel or ["="] * len(b)
    got = snap(lp)
    check(got[:3] == (A, b, c), "data reported as {}", got[:3])
    check(got[3] == z and lp.objective == obj, "objective reported as {} {}", got[3], lp.objective)
    check(got[5] == rel, "relations reported as {} instead of {}", got[5], rel)
    check(sorted(got[6]) == free and sorted(got[7]) == neg, "sign classes reported as {} {}", got[6], got[7])
    check([int(i) for i in lp.positive_variables] == [j for j in range(1, n + 1) if j not in free and j not in neg], "positive variables reported as {}", lp.positive_variables)
    check(lp.A.shape == (len(b), n) and lp.b.shape == (len(b),) and lp.c.shape == (n,), "shapes")
    check(bool(lp.is_sef) == (obj == "max" and set(rel) <= {"="} and not free and not neg), "is_sef is {}", lp.is_sef)


def data(lp):
    return tuple(sorted(v) if k in (6, 7) else v for k, v in enumerate(snap(lp)))


def integral_lists(case, ctx):
    """Integer programs over n variables with every list of integral variables."""
    from pytimize.programs import IntegerProgram
    n, integral = case["n"], case["integral"]
    data = [[[1.0] * n, [2.0] * n], [4.0, 3.0], [1.0] * n]
    good = integral is None or len(set(integral)) == len(integral) and all(1 <= j <= n for j in integral)
    given = None if integral is None else list(integral)
    made = [outcome(*data, 1, "min", ["<=", "<="], None, None, given, cls=IntegerProgram)]
    if good:
        made.append(IntegerProgram(*data, z=1, objective="min", inequalities=["<=", "<="], integral_variables=given))
    ctx.call(2)
    ctx.state(n, integral)
    check(given == integral, "the list of integral variables was changed to {}", given)
    for ip in made:
        check((ip is not None) == good, "integral variables {} were {}", integral, "refused" if good else "accepted")
        if ip is None:
            continue
        judge(ip, *data, 1, "min", ["<=", "<="], None, None)
        if given:
            given[0] = 99  # the program has a list of its own
            given.append(98)
        for j in range(1, n + 1):
            point = [0.5 if k == j else 0.0 for k in range(1, n + 1)]
            got = bool(ip.is_feasible(point, show_steps=False))
            want = integral is not None and j not in integral
            check(got == want, "with integral variables {}, {} is called {}", integral, point, "feasible" if got else "infeasible")
            ctx.call()
        if given:
            del given[-1]
            given[0] = integral[0]


def equality(case, ctx):
    from pytimize.programs import IntegerProgram, LinearProgram
    d, n = case["data"], 3

    def make(integral):
        args = {**dict(z=0, obj="max", neg=None), **d}
        args = [[[1, 2, 0], [-3, 0, 1]], [4, 2], [3, 4, 5], args["z"], args["obj"], None, None, args["neg"]]
        if integral == "linear":
            return LinearProgram(*args)
        return IntegerProgram(*args, integral)
    p, q = make(case["i"]), make(case["j"])
    kinds = ["linear" if i == "linear" else set(range(1, n + 1)) if i is None else set(i) for i in (case["i"], case["j"])]
    want = kinds[0] == kinds[1]
    for x, y in ((p, q), (q, p), (p, q.copy()), (p.copy(), q)):
        check(bool(x == y) == want and bool(x != y) == (not want), "== is {} for programs with integral variables {} and {}", x == y, case["i"], case["j"])
    ctx.call(5)
    ctx.state(str(case))


def run(case, ctx):
    from pytimize.programs import IntegerProgram, LinearProgram
    if case["kind"] == "integral":
        return integral_lists(case, ctx)
    if case["kind"] == "equal integer":
        return equality(case, ctx)
    for cls in (LinearProgram, IntegerProgram):
        construct(case, ctx, cls)


def construct(case, ctx, cls):
    stub.fast_steps()
    ctx.call()
    if case["kind"] == "data":
        names = case["A"], case["b"], case["c"]
        bad = names[0] in BAD_A or names[1] in BAD_V or names[2] in BAD_V
        A, b, c = A2.get(names[0], BAD_A.get(names[0])), V2.get(names[1], BAD_V.get(names[1])), V2.get(names[2], BAD_V.get(names[2]))
        fits = {"three rows": ("long", None), "three columns": (None, "long"), "one row": ("short", None)}.get(names[0])
        if fits and names[1] == (fits[0] or names[1]) and names[2] == (fits[1] or names[2]) \
                and (fits[0] or names[1] in V2) and (fits[1] or names[2] in V2):
            bad = False
        lp = outcome(value(A), value(b), value(c), cls=cls)
        ctx.state(names)
        if bad:
            check(lp is None, "the malformed data A={}, b={}, c={} were accepted", *names)
        else:
            judge(lp, given(A), given(b), given(c), 0, "max", None, None, None)
        return
    if case["kind"] == "constant":
        from pytimize.programs import IntegerProgram
        z = constant(case["z"])
        lp = outcome([[1.0, 2.0], [3.0, 1.0]], [4.0, 5.0], [1.0, 1.0], z, "min", cls=IntegerProgram if case["cls"] == "integer" else cls)
        ctx.state(str(case))
        check((lp is not None) == CONSTANTS[case["z"]], "the constant {!r} was {}", z, "accepted" if lp is not None else "refused")
        if lp is not None:
            judge(lp, [[1.0, 2.0], [3.0, 1.0]], [4.0, 5.0], [1.0, 1.0], z, "min", None, None, None)
            check(abs(lp.evaluate([1.0, 2.0]) - 3 - float(z)) < 1e-9, "with the constant {!r} the value at (1, 2) is {}", z, lp.evaluate([1.0, 2.0]))
        return
    if case["kind"] == "equal":
        def make(d):
            d = {**dict(A=[[1, 2], [-3, 0]], b=[4, 2], c=[3, 4], z=0, obj="max", rel=None, free=None, neg=None), **d}
            return outcome(d["A"], d["b"], d["c"], d["z"], d["obj"], d["rel"], d["free"], d["neg"], cls=cls)
        p, q = make(VARIANTS[case["i"]]), make(VARIANTS[case["j"]])
        want = data(p) == data(q)
        for x, y in ((p, q), (p, q.copy()), (p.copy(), q)):
            check(bool(x == y) == want and bool(x != y) == (not want), "== is {} for programs reporting {} and {}", x == y, snap(p), snap(q))
        ctx.call(5)
        return
    n, rel, obj, free, neg = case["n"], case["rel"], case["obj"], case["free"], case["neg"]
    A = [[1.0 + i + 2 * j for j in range(n)] for i in range(2)]
    b, c = [3.0, -1.0], [float(j - 1) for j in range(n)]
    f, g = free or [], neg or []
    good = (obj in ("max", "min") and (rel is None or len(rel) == 2 and all(r in ("=", "<=", ">=") for r in rel))
            and all(1 <= j <= n and j == int(j) for j in f + g) and len(set(f)) == len(f) and len(set(g)) == len(g) and not set(f) & set(g))
    args = [None if v is None else list(v) for v in (rel, free, neg)]
    lp = outcome(A, b, c, 1.5, obj, *args, cls=cls)
    ctx.state(str(case))
    check(args == [rel, free, neg], "the constructor changed its arguments to {}", args)
    if good:
        judge(lp, A, b, c, 1.5, obj, rel, free, neg)
    else:
        check(lp is None, "the malformed program was accepted: {} {} {} {}", rel, obj, free, neg)
