import re
from itertools import combinations, permutations, product

from .. import gen, lpref, stub
from ..core import check
from ..lputil import snap

TITLE = "printed programs"
BOUNDS = ("Every relation, sign and sense pattern for up to 4 variables and 3 rows, every one- and two-variable sign exception among 12 "
          "variables, every number of a grid of 28 exponents times 16 mantissas times both signs in every position (objective, matrix, "
          "right side, constant), and every pair (thorough: triple) of 24 magnitudes above each other in a column; the text is parsed "
          "back and compared, and columns are checked for alignment. Integer programs with every set of up to 3 integral variables (12 variables: up to 2, and all). 23 to 110 variables, 12 to 40 rows (a list of signs, relations and integral variables).")
ASSUMPTIONS = ["documented rounding: 3 decimals from 1 upwards, 4 significant digits below 1 and beyond 1e10, zero below 1e-10"]

MANTISSAS = (1, 1.5, 1.2345, 1.23456789, 2, 2 / 3, 3.0004, 3.0005, 3.0006, 4.5, 9, 9.994, 9.9949, 9.9996, 9.99951, 9.99999)
MAGS = (0.0, 1.0, -1.0, 7.0, -7.0, 0.5, -0.5, 12.0, -12.0, 123.25, -123.25, 1000000.0, 0.001, -0.001, 1e-5, -2.5e-5, 3e-9, 2e10, -2.5e11, 1e15, 99999.9999, -0.3333333, 2.6666666, 1e10)
NUMBER = r"-?\d+\.(?:\d+)?(?:e[+-]\d+)?"


def families(tier):
    t = tier == "thorough"

    def sweep():
        for e in range(-12, 16):
            for m in MANTISSAS:
                for s in (1, -1):
                    for where in ("A", "b", "c", "z"):
                        yield {"kind": "number", "v": s * m * 10.0 ** e, "where": where}

    def columns():
        for rows in product(MAGS, repeat=3 if t else 2):
            yield {"kind": "column", "rows": list(rows)}

    def many():
        for k in (1, 2, 12, 11):
            for js in combinations(range(12), k):
                for a, b in (("f", "+"), ("-", "+"), ("+", "-"), ("+", "f"), ("-", "f"), ("f", "-")):
                    yield {"kind": "program", "p": gen.program([list(range(1, 13))], [5], list(range(12)), ["<="], "".join(a if j in js else b for j in range(12)), "max", 0)}

    def more():
        # 23 to 110 variables, 12 to 40 rows
        for n, m in ((23, 1), (40, 3), (110, 1), (3, 12), (2, 40)):
            for sign in ("+" * n, "f" * n, "-" * n, ("+-f" * n)[:n], "+" * (n - 1) + "-", "f" + "-" * (n - 1), "+" * (n // 2) + "f" + "+" * (n - n // 2 - 1), "f" * (n - 1) + "+"):
                for rels in (["<="] * m, [("<=", "=", ">=")[i % 3] for i in range(m)]):
                    p = gen.program([[(-1) ** i * ((i + 2 * j) % 13) for j in range(n)] for i in range(m)], [3 - i for i in range(m)], [2 * j - 1 for j in range(n)], rels, sign, "min", 4)
                    yield {"kind": "program", "p": p}
                    for s in (None, [n], [1, n], list(range(1, n + 1, 3)), list(range(1, n)), sorted({2, n // 2 + 1})):
                        yield {"kind": "integer", "p": p, "integral": s}

    def patterns():
        for n, m in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (3, 2), (4, 1), (2, 3), (1, 4)):
            for p in gen.over([[tuple((-1) ** i * (i + 2 * j) for j in range(n)) for i in range(m)]], [tuple(3 - i for i in range(m))], [tuple(2 * j - 1 for j in range(n))], (0, 3, -2)):
                yield {"kind": "program", "p": p}

    def integers():
        for n, m in ((1, 1), (2, 1), (2, 2), (3, 2), (11, 1), (12, 2)):
            sets = [None] + [list(s) for k in ((0, 1, 2, 3) if n < 9 else (0, 1, 2, n)) for s in (permutations if n < 4 else combinations)(range(1, n + 1), k)]
            for p in gen.over([[tuple((-1) ** i * (i + 2 * j) for j in range(n)) for i in range(m)]], [tuple(3 - i for i in range(m))], [tuple(2 * j - 1 for j in range(n))], (0,),
                              objs=("max",), signs="+-f") if n < 9 else [gen.program([list(range(1, n + 1))] * m, [5] * m, list(range(n)), ["<="] * m, s * n, "min", 1) for s in "+-f"]:
                for s in sets:
                    yield {"kind": "integer", "p": p, "integral": s}
    return [("patterns", patterns), ("numbers", sweep), ("columns", columns), ("12 variables", many), ("23 to 110 variables", more),
            ("integer programs", integers),
            ("tenths", lambda: ({"kind": "program", "p": p} for p in gen.decimals()))]


def near(got, v):
    if abs(v) < 1e-10:
        return got == 0
    if abs(v) < 1 or abs(v) > 1e10:
        return abs(got - v) <= 1.1e-3 * abs(v) if abs(v) < 1 else abs(got - v) <= 5.1e-4 * abs(v)
    if v == int(v):
        return got == v
    return abs(got - v) <= 5.1e-4


def parse(text):
    """The program a reader sees: dict of sense, c, z, rows, relations, b, sign classes and (if stated) integral variables."""
    lines = text.rstrip("\n").split("\n")
    head = re.fullmatch(rf"(Max|Min) \[({NUMBER}(?: {NUMBER})*)\]x(?: ([+-]) ({NUMBER}))?", lines[0])
    check(head, "unreadable objective line {!r}", lines[0])
    check(lines[1] == "Subject To:" and lines[2] == "", "unreadable heading {!r}", lines[1:3])
    out = {"obj": head[1].lower(), "c": [float(v) for v in head[2].split()], "z": float((head[3] + head[4]) if head[3] else 0), "A": [], "b": [], "rel": []}
    k = 3
    layout = []
    xs = 0
    while k < len(lines) and lines[k].startswith("["):
        row = re.fullmatch(rf"\[( *{NUMBER} *(?: +{NUMBER} *)*)\](x?) +([≥≤=]) +\[( *{NUMBER} *)\]", lines[k])
        check(row, "unreadable row {!r}", lines[k])
        xs += bool(row[2])
        out["A"].append([float(v) for v in row[1].split()])
        out["b"].append(float(row[4]))
        out["rel"].append({"≥": ">=", "≤": "<=", "=": "="}[row[3]])
        layout.append((tuple(i for i, ch in enumerate(lines[k]) if ch in ".]["), len(lines[k]), lines[k].index(row[3], lines[k].index("]"))))
        k += 1
    n = len(out["c"])
    check(len(set(layout)) <= 1, "columns are not aligned:\n{}", text)
    check(xs == bool(out["A"]), "the vector x appears {} times", xs)
    signs = {}
    integral = None
    for line in lines[k:]:
        whole = re.fullmatch(r"(x(?:[₀-₉]+(?:, x[₀-₉]+)*)?) ∈ Z", line)
        if whole:
            check(integral is None and line == lines[-1], "integrality stated twice or out of place: {!r}", text)
            integral = sorted(indices(whole[1], n))
            continue
        cond = re.fullmatch(r"(x(?:[₀-₉]+(?:, x[₀-₉]+)*)?) ([≥≤]) 0", line)
        check(cond, "unreadable sign condition {!r}", line)
        for j in indices(cond[1], n):
            check(j not in signs and 1 <= j <= n, "variable {} has two sign conditions", j)
            signs[j] = "+" if cond[2] == "≥" else "-"
    out["sign"] = "".join(signs.get(j, "f") for j in range(1, n + 1))
    out["integral"] = integral or []
    return out


def indices(names, n):
    return range(1, n + 1) if names == "x" else [int(x.strip()[1:].translate(str.maketrans("₀₁₂₃₄₅₆₇₈₉", "0123456789"))) for x in names.split(",")]


def judge(lp, ctx, integral=()):
    before = snap(lp)
    text = repr(lp)
    ctx.call(3)
    check(str(lp) == text and "{}".format(lp) == text, "str and repr differ")
    got = parse(text)
    check(got["obj"] == lp.objective, "sense printed as {}", got["obj"])
    check(len(got["c"]) == len(lp.c) and all(near(g, float(v)) for g, v in zip(got["c"], lp.c)), "objective {} printed as {}", lp.c.tolist(), got["c"])
    check(near(got["z"], float(lp.z)), "constant {} printed as {}", lp.z, got["z"])
    check(len(got["A"]) == len(lp.A) and all(len(g) == len(r) and all(near(x, float(v)) for x, v in zip(g, r)) for g, r in zip(got["A"], lp.A)),
          "matrix {} printed as {}", lp.A.tolist(), got["A"])
    check(len(got["b"]) == len(lp.b) and all(near(g, float(v)) for g, v in zip(got["b"], lp.b)), "right side {} printed as {}", lp.b.tolist(), got["b"])
    check(got["rel"] == lp.inequalities, "relations {} printed as {}", lp.inequalities, got["rel"])
    sign = "".join("f" if j in lp.free_variables else "-" if j in lp.negative_variables else "+" for j in range(1, len(lp.c) + 1))
    check(got["sign"] == sign, "sign classes {} printed as {}", sign, got["sign"])
    check(got["integral"] == sorted(integral), "integral variables {} printed as {}", integral, got["integral"])
    check(snap(lp) == before, "printing changed the program")
    ctx.state(text)


def run(case, ctx):
    from pytimize.programs import IntegerProgram, LinearProgram
    stub.fast_steps()
    if case["kind"] == "program":
        judge(lpref.build(case["p"]), ctx)
    elif case["kind"] == "integer":
        p, n = case["p"], len(case["p"]["c"])
        ip = lpref.build(p, IntegerProgram, integral_variables=None if case["integral"] is None else list(case["integral"]))
        wanted = range(1, n + 1) if case["integral"] is None else case["integral"]
        judge(ip, ctx, list(wanted))
        judge(ip.copy(), ctx, list(wanted))
        judge(ip.relax(), ctx)
    elif case["kind"] == "number":
        d = {"A": [[1.0, 2.0], [3.0, 10.5]], "b": [1.0, 2.0], "c": [4.0, 0.5], "z": 0.0}
        v = case["v"]
        if case["where"] == "z":
            d["z"] = v
        elif case["where"] == "A":
            d["A"][1][0] = v
        else:
            d[case["where"]][1] = v
        judge(LinearProgram(d["A"], d["b"], d["c"], d["z"], "min", ["<=", ">="]), ctx)
    else:
        r = case["rows"]
        judge(LinearProgram([[v, 1.0] for v in r], list(r), [r[0], r[1]], r[0], "max", ["="] * (len(r) - 1) + [">="]), ctx)
        judge(LinearProgram([[2.5, v] for v in r], [1.0] * len(r), [r[1], r[0]], -r[1], "max"), ctx)
