import re
from fractions import Fraction as F
from itertools import permutations, product

from .. import gen, lpref
from ..core import check
from .L03 import canonical
from . import L13

TITLE = "the displayed computation process"
BOUNDS = ("Standard-form programs (complete small families, lists up to 4x6, tenths, 2x11; single bases of 33x35): every basis in every order for the canonical form, every basis with its own and "
          "damaged vectors for the basic-solution test, every feasible basis for the simplex method, the two-phase method; every relation, sign and sense "
          "up to 2x2 (lists 2x3, 2x11; 1x1100) for the feasibility test on a grid and for the conversion. Each step text is read back and compared with the exact facts.")
ASSUMPTIONS = ["numbers are read up to the documented rounding", "an explanation may leave out facts where none are recorded today (verdict 'not feasible' outside standard form)"]

NUM = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?"


def families(tier):
    t = tier == "thorough"
    return [
        ("1x2", lambda: tag("sef", gen.sef(1, 2, range(-2, 3), [(v,) for v in (-2, 0, 3)], [(1, 2), (0, -1)], (0, 3)))),
        ("2x3", lambda: tag("sef", gen.sef(2, 3, (-1, 0, 1), [(1, 2), (-1, 1), (0, 0)] if t else [(1, 2)], [(1, -2, 3)], (2,)))),
        ("2x4", lambda: tag("sef", gen.sef(2, 4, (0, 1, 2) if t else (0, 1), [(1, -2), (2, 1)], [(1, -2, 3, 1)], (2,)))),
        ("3x5 lists", lambda: tag("sef", gen.sef_lists(gen.SEF35, [(1, -2, 3), (1, 2, 3), (0, 0, 0), (2, 1, 0)], [(1, -1, 2, 0, -3), (1, 1, 1, 1, 1)], (1,), rowsigns=t))),
        ("4x6 lists", lambda: tag("sef", gen.sef_lists(gen.SEF46, [(1, 2, 3, 4), (1, 0, 0, 1)], [(1, -1, 2, 0, -3, 1)], (1,), rowsigns=t))),
        ("tenths", lambda: tag("sef", gen.sef_lists([[(1, 2, 3), (3, 3, -3)], [(3, -1, 7), (1, 7, 1)]], [(3, 3), (6, 12), (0, 3)], [(1, 2, 3), (3, -1, 2)], (5,), 10, colperms=True))),
        ("cycling", lambda: tag("sef", gen.cycling(sef_form=True, rowperms=False, perms=None if t else [(0, 1, 2, 3), (3, 1, 0, 2)]))),
        ("2x11", lambda: tag("sef", gen.sef_wide(2, 11, (0, 1, 2) if t else (0,), rotations=False))),
        ("over a thousand numbers", lambda: long_texts(t)),
        ("any form 1x1", lambda: tag("any", gen.full(1, 1, (-2, 0, 1), [(-1,), (2,)], [(2,), (-3,)], (0, 3)))),
        ("any form 1x2", lambda: tag("any", gen.full(1, 2, (-1, 2), [(-1,), (0,), (2,)], [(1, -2)], (1,)))),
        ("any form 2x2", lambda: tag("any", gen.over([[(1, 1), (1, -1)], [(2, 1), (0, 1)], [(-1, 3), (1, 1)]] if t else [[(1, 1), (1, -1)]], [(1, 0), (2, 1)], [(1, -2)], (-1,)))),
        ("any form 2x3", lambda: tag("any", gen.over(gen.M23[:3] if t else gen.M23[:1], [(1, 0)], [(1, -2, 4)], (2,)))),
        ("any form 2x11", lambda: tag("any", gen.wide(2, 11, (0,), [(1, 2)], every=t))),
    ]


def tag(kind, ps):
    for p in ps:
        yield {"kind": kind, "p": p}


def numbers(text):
    return [float(v) for v in re.findall(NUM, text)]


def integers(text):
    return [int(v) for v in re.findall(r"-?\d+", text)]


def same(got, want, tol=1e-6):
    return len(got) == len(want) and all(abs(g - float(w)) <= tol * (1 + abs(float(w))) for g, w in zip(got, want))


def texts(lp):
    return [s["text"] for s in lp.steps]


def long_texts(t):
    """Vectors and matrices of more than a thousand numbers."""
    for n in (1001, 1100) if not t else (999, 1000, 1001, 1100, 3000):
        for rel in "<=", "=":
            for k in (0, 2):
                yield {"kind": "point", "p": gen.program([[1 + (7 * j + k) % 5 for j in range(n)]], [0], [3 - j % 4 for j in range(n)], [rel], "+" * n, "max", 1)}
    for m in (33,) if not t else (12, 32, 33, 45):
        for k in (0, 1):
            A = [[2 + (i + k) % 3 if i == j else int(j == i + 1) - 2 * int(j == (3 * i + k) % m) * int(i > 28) for j in range(m + 2)] for i in range(m)]
            yield {"kind": "forms", "p": gen.program(A, [1 + i % 4 for i in range(m)], [j % 7 - 3 for j in range(m + 2)], ["="] * m, "+" * (m + 2), "max", 2)}


def run(case, ctx):
    p = case["p"]
    ctx.state(case["kind"], lpref.key(p))
    if case["kind"] == "point":
        feasibility(p, ctx)
        return
    if case["kind"] == "forms":
        m = len(p["b"])
        for order in (list(range(m)), list(range(m))[::-1]):
            form(p, order, ctx)
        return
    if case["kind"] == "any":
        feasibility(p, ctx)
        conversion(p, ctx)
        return
    feasibility(p, ctx)
    if lpref.rank(p["A"]) == len(p["b"]):
        bases = lpref.bases(p["A"])
        for k, B in enumerate(bases if len(bases) <= 20 else bases[::4]):
            basic(p, B, ctx, k == 0)
            for order in permutations(B) if len(B) <= 3 else [B, B[::-1]]:
                form(p, list(order), ctx)
            if min(lpref.basic_solution(p["A"], p["b"], B)) >= 0:
                for order in (B, B[::-1]):
                    lp = lpref.build(p)
                    res = lp.simplex([j + 1 for j in order])
                    ctx.call()
                    process(p, texts(lp), res, ctx)
    lp = lpref.build(p)
    res = lp.two_phase_simplex()
    ctx.call()
    process(p, texts(lp), res, ctx)


def points(p):
    n, d = len(p["c"]), p["D"]
    if n > 99:
        return [[F(0)] * n, [F(0)] * (n - 1) + [F(1)], [F(-1, 2)] + [F(0)] * (n - 1), [F(j % 9) for j in range(n)]]
    if n > 3:
        base = [F(v) for v in p.get("at", [0] * n)]
        return [base] + [[v + (s if k == j else 0) for k, v in enumerate(base)] for j in range(n) for s in (1, -1)]
    grid = [F(-1), F(0), F(1, 2), F(2)] if d == 1 else [F(-1, 10), F(0), F(3, 10), F(1)]
    out = [list(x) for x in product(grid, repeat=n)]
    if set(p["rel"]) == {"="} and lpref.rank(p["A"]) == len(p["b"]):
        out += [lpref.basic_solution(p["A"], p["b"], B) for B in lpref.bases(p["A"])]
    return out


def feasibility(p, ctx):
    lp = lpref.build(p)
    sef = bool(lp.is_sef)
    dp = {**p, "D": F(p["D"])}
    for x in points(p):
        fx = [float(v) for v in x]
        ok = lpref.slack_violation(dp, x) == 0
        old = len(lp.steps)
        got = lp.is_feasible(fx)
        ctx.call()
        new = texts(lp)[old:]
        what = f"feasibility of {fx}: {new}"
        check(new and re.fullmatch(r"Is (.*) Feasible\?", new[0], re.S) and same(numbers(new[0]), fx), "{}: the question does not name the point", what)
        negative = min(x) < 0
        rows = lpref.slack_violation({**dp, "sign": "f" * len(x)}, x) != 0
        said = None
        for line in new[1:]:
            m = re.fullmatch(r"(.*) is (Not )?Feasible:", line, re.S)
            if m:
                check(said is None and same(numbers(m[1]), fx), "{}: the verdict names {}", what, m[1])
                said = not m[2]
            elif "in SEF" in line:
                check(sef, "{}: not in standard form", what)
            elif "Some Entries" in line:
                check(negative and same(numbers(line), fx), "{}: no entry is negative", what)
            elif "All Entries" in line:
                wrong = (min(x) < 0) if "Nonnegative" in line and sef else any(s == "+" and v < 0 or s == "-" and v > 0 for s, v in zip(p["sign"], x))
                false = "Either Nonnegative or is a Free" in line and any(v < 0 and s != "f" for s, v in zip(p["sign"], x))
                check(not wrong and not false, "{}: {!r} is not true", what, line)
            elif "Constraints are Satisfied" in line:
                check(not rows, "{}: the constraints are not satisfied", what)
            elif "Constraints are Not Satisfied" in line:
                check(rows, "{}: the constraints are satisfied", what)
        check(bool(got) == ok, "is_feasible({}) is {}", fx, got)
        check(said == ok if sef or ok else said in (None, False), "{}: the answer is {}", what, ok)
        if sef and not ok:
            check(any("Some Entries" in l for l in new) == negative and any("Not Satisfied" in l for l in new) == rows, "{}: negative entries {}, violated rows {}", what, negative, rows)


def conversion(p, ctx):
    lp = lpref.build(p)
    already = bool(lp.is_sef)
    out = lp.to_sef()
    ctx.call()
    new = texts(out)
    check(bool(new) == (not already), "conversion of a program {} standard form recorded {}", "in" if already else "not in", new)
    if already:
        return
    check(new[0] == "Convert to SEF", "conversion starts with {!r}", new[0])
    signs = [l for l in new[1:] if "=>" in l]
    check(len(signs) == (p["obj"] == "min"), "the sense is {}, recorded {}", p["obj"], new)
    check(any("Take Negative" in l for l in new) == (p["obj"] == "min"), "the sense is {}, recorded {}", p["obj"], new)
    for l in signs:
        a, b = l.split("=>")
        c = [v / p["D"] for v in p["c"]]
        check(same(numbers(a), c) and same(numbers(b), [-v for v in c]), "the objective {} is said to become {!r}", c, l)


def basic(p, B, ctx, every):
    n = len(p["c"])
    x = lpref.basic_solution(p["A"], p["b"], B)
    vectors = [x] + [[v + (F(1, 2) if k == j else 0) for k, v in enumerate(x)] for j in range(n)] + [[F(0)] * n, [F(1)] * n]
    if every:
        for other in lpref.bases(p["A"])[1:6]:
            vectors.append(lpref.basic_solution(p["A"], p["b"], other))
    for order in {tuple(B), tuple(B[::-1])}:
        basis = [j + 1 for j in order]
        for v in vectors:
            lp = lpref.build(p)
            fv = [float(w) for w in v]
            got = lp.is_basic_solution(fv, list(basis))
            ctx.call()
            new = texts(lp)
            what = f"basic solution {fv} for {basis}: {new}"
            nonzero = [j + 1 for j in range(n) if j not in B and v[j] != 0]
            wrong = any(sum(a * w for a, w in zip(r, v)) != b for r, b in zip(p["A"], p["b"]))
            check(new and new[0].startswith("Is ") and integers(new[0]) == basis, "{}: the question does not name the basis", what)
            named = [integers(l)[0] for l in new if l.startswith("Column ") and "Not" in l]
            check(sorted(named) == nonzero, "{}: the nonzero entries off the basis are {}", what, nonzero)
            check(("Ax ≠ b" in new) == wrong and not (wrong and "Ax = b" in new), "{}: Ax = b is {}", what, not wrong)
            verdict = [re.fullmatch(r"(.*) is (Not )?A Basic Solution for Basis (.*)", l, re.S) for l in new]
            verdict = [m for m in verdict if m]
            check(len(verdict) == 1 and bool(verdict[0][2]) == (not got) and bool(got) == (not nonzero and not wrong), "{}: the answer is {}", what, got)
            check(same(numbers(verdict[0][1]), fv), "{}: the verdict names another vector", what)
            check(integers(verdict[0][3]) == basis, "{}: the verdict names the basis {}", what, verdict[0][3])


def form(p, order, ctx):
    lp = lpref.build(p)
    basis = [j + 1 for j in order]
    out = lp.to_canonical_form(list(basis))
    ctx.call()
    new = texts(out)
    d = p["D"]
    cols = [[F(r[j], d) for j in order] for r in p["A"]]
    m = len(order)
    inverse = [lpref.solve_square(cols, [F(int(i == k)) for i in range(m)]) for k in range(m)]
    inverse = [[inverse[k][i] for k in range(m)] for i in range(m)]
    cb = [F(p["c"][j], d) for j in order]
    y = [sum(inverse[k][i] * cb[k] for k in range(m)) for i in range(m)]
    what = f"canonical form for {basis}: {new}"
    found = set()
    for line in new:
        head, _, rest = line.partition(":")
        if line.startswith("Convert to Canonical"):
            found.add("basis")
            check(integers(line) == basis, "{}: another basis is named", what)
        elif head == "Basis":
            found.add("matrix")
            check(same(numbers(rest), sum(cols, [])), "{}: the basis matrix is {}", what, [[str(v) for v in r] for r in cols])
        elif head == "Corresponding Coefficient Entries":
            found.add("entries")
            check(same(numbers(rest), cb), "{}: the coefficients are {}", what, [str(v) for v in cb])
        elif head == "Basis Inverse":
            found.add("inverse")
            check(same(numbers(rest), sum(inverse, [])), "{}: the inverse is {}", what, [[str(v) for v in r] for r in inverse])
        elif head == "y Vector":
            found.add("y")
            check(same(numbers(rest), y), "{}: the vector y is {}", what, [str(v) for v in y])
    check(found == {"basis", "matrix", "entries", "inverse", "y"}, "{}: only {} are shown", what, sorted(found))


def near_all(u, v):
    return len(u) == len(v) and all(L13.near(a, float(b)) or abs(a - float(b)) <= 2e-3 * max(1, abs(float(b))) for a, b in zip(u, v))


def matches(shown, rows, rhs, obj, z):
    if not near_all(shown["c"], obj) or not near_all([shown["z"]], [z]) or len(shown["A"]) != len(rows):
        return False
    left = [(list(r), b) for r, b in zip(rows, rhs)]
    for r, b in zip(shown["A"], shown["b"]):
        k = next((i for i, (w, v) in enumerate(left) if near_all(r, w) and near_all([b], [v])), None)
        if k is None:
            return False
        del left[k]
    return True


def process(p, new, res, ctx):
    """The displayed run of the simplex method against its result."""
    x, basis, cert = res
    d = p["D"]
    counter = [i for i, l in enumerate(new) if l.startswith("Iteration ")]
    numbered = [integers(new[i])[0] for i in counter]
    want = [k for k in range(len(counter))]
    check(numbered == want, "iterations are numbered {}", numbered)
    forms, bases, last = None, None, None
    full = lpref.rank(p["A"]) == len(p["b"])
    if lpref.rank(p["A"]) == lpref.rank([list(r) + [b] for r, b in zip(p["A"], p["b"])]):
        keep = []
        for i in range(len(p["b"])):
            if lpref.rank([p["A"][k] for k in keep + [i]]) == len(keep) + 1:
                keep.append(i)
        original, p = p, {**p, "A": [p["A"][i] for i in keep], "b": [p["b"][i] for i in keep]}
        bases = [()] if not keep else [B for B in lpref.bases(p["A"]) if min(lpref.basic_solution(p["A"], p["b"], B)) >= 0]
        forms = [canonical(p, B) if B else ([], [], [v / d for v in p["c"]], p["z"] / d) for B in bases]
    value = None
    for k, i in enumerate(counter):
        check(i + 1 < len(new), "iteration {} shows nothing", k)
        shown = L13.parse(new[i + 1])
        check(shown["obj"] == "max" and set(shown["rel"]) <= {"="} and set(shown["sign"]) == {"+"}, "iteration {} shows a program not in standard form: {}", k, new[i + 1])
        if forms is None:
            continue
        if k == 0 and not full:
            rows = [[s * v / d for v in [*r, b]] for r, b in zip(original["A"], original["b"]) for s in (1, -1)]
            check(all(any(near_all([*r, b], w) for w in rows) for r, b in zip(shown["A"], shown["b"])), "the process starts with rows that are not in the program: {}", new[i + 1])
            continue
        if k == 0:
            plain = [[v / d for v in r] for r in p["A"]], [v / d for v in p["b"]]
            flip = [[-v for v in r] if b < 0 else r for r, b in zip(*plain)], [abs(b) for b in plain[1]]
            c, z = [v / d for v in p["c"]], p["z"] / d
            check(any(matches(shown, *q, c, z) for q in (plain, flip)) or any(matches(shown, *f) for f in forms), "the process starts with another program: {}", new[i + 1])
            continue
        hits = [j for j, f in enumerate(forms) if matches(shown, *f)]
        check(hits, "iteration {} shows no canonical form of the program for a feasible basis: {}", k, new[i + 1])
        check(value is None or shown["z"] >= value - 1e-2, "iteration {} makes the objective worse: {} after {}", k, shown["z"], value)
        value, last = shown["z"], [bases[j] for j in hits]
    said = {l.partition(":")[0]: l.partition(":")[2] for l in new if not l.startswith("Iteration") and "Subject To" not in l}
    check(("The Program is Unbounded" in said) <= (x is None and isinstance(cert, tuple)), "called unbounded, but the result is {}", res)
    if x is None:
        check("Solution" not in said or not counter, "a solution is shown although none is returned: {}", said)
        if counter and isinstance(cert, tuple):
            check("The Program is Unbounded" in said, "unboundedness is not stated: {}", said)
        return
    check(counter, "the method shows no process")
    check({"Solution", "Optimal Basis", "Optimality Certificate"} <= set(said), "the result is not stated: {}", said)
    check(same(numbers(said["Solution"]), lpref.clean_list(x)), "the solution {} is shown as {}", lpref.clean_list(x), said["Solution"])
    B = [int(j) for j in basis]
    check(integers(said["Optimal Basis"]) == B, "the basis {} is shown as {}", B, said["Optimal Basis"])
    if full:
        check(same(numbers(said["Optimality Certificate"]), lpref.clean_list(cert)), "the certificate {} is shown as {}", lpref.clean_list(cert), said["Optimality Certificate"])
    if forms is not None:
        check(last is None or tuple(sorted(j - 1 for j in B)) in last, "the last form shown belongs to {}, the basis returned is {}", last, B)
