from fractions import Fraction as F
from itertools import product
from math import ceil, floor

from .. import gen, lpref, stub
from ..core import check
from ..lputil import snap

TITLE = "branch_and_bound()"
BOUNDS = ("Boxed programs with 1 to 3 variables (thorough: 4), 1 to 3 further rows over coefficient lists, every relation, sign class and sense and "
          "every set of integral variables, fractional boxes and tenths included, deep branching (up to 10, thorough 13, variables branched on one after another, parity obstructions), objectives of up to 300000 whose branches differ by 1, plus programs with unbounded relaxation; compared "
          "with the exact optimum by enumerating all integer assignments of the box and eliminating the continuous variables. A fixed selection of every family also by seven detours (the program copied, its last row or variable added later, another program handled first) with every query asked before.")
ASSUMPTIONS = ["programs with an unbounded feasible region but bounded relaxation are outside the property (branching need not terminate there)",
               "comparison tolerance 1e-6"]

SETS = {1: [None, [], [1]], 2: [None, [], [1], [2], [2, 1]], 3: [None, [1], [3], [1, 2], [2, 3], [3, 1, 2], []], 4: [None, [2, 4], [1, 3]]}


def boxed(rows, bs, rels, signs, cs, objs, lo, hi, integrals, D=1, z=0, as_rows=True):
    """The rows plus lo <= x <= hi (only the side that the sign class does not imply is added when lo or hi is 0)."""
    n = len(cs[0])
    rels, signs = list(rels), list(signs)
    for b in bs:
        for rel in rels:
            for sign in signs:
                A2, b2, rel2 = [list(r) for r in rows], list(b), list(rel)
                for j, s in enumerate(sign):
                    unit = [D if k == j else 0 for k in range(n)]
                    h = hi if s != "-" else 0
                    l = lo if s != "+" else 0
                    if s != "-":
                        A2.append(unit); b2.append(h); rel2.append("<=")
                    if s != "+":
                        A2.append(unit); b2.append(l); rel2.append(">=")
                for c in cs:
                    for obj in objs:
                        for integral in integrals:
                            p = gen.program(A2, b2, c, rel2, sign, obj, z, D)
                            p["integral"] = integral
                            yield p


def plain_families(tier):
    t = tier == "thorough"
    R = ("<=", ">=", "=")
    both = ("max", "min")

    def one():
        for a, b in product((-2, 1, 2, 3), (-5, -1, 0, 3, 5)):
            yield from boxed([(a,)], [(b,)], product(R, repeat=1), "+-f", [(1,), (-2,)], both, -3, 3, SETS[1], 1, 2)

    def two():
        for row in ((2, 3), (2, -2), (-1, 3), (2, 2), (3, 5)):
            for b in ((7,), (-3,), (5,)) if t else ((7,), (-3,)):
                yield from boxed([row], [b], product(R, repeat=1), map("".join, product("+-f", repeat=2)), [(1, 2), (-3, 1), (2, 3)] if t else [(1, 2), (-3, 1)], both, -2, 3,
                                 SETS[2] if t else SETS[2][:4], 1, 1)

    def two_rows():
        for rows in ([(2, 3), (3, -1)], [(2, 2), (-1, 3)], [(1, 2), (2, 1)]):
            yield from boxed(rows, [(7, 4), (5, 1)] if t else [(7, 4)], product(R, repeat=2), ("++", "+f", "-f", "f-") if t else ("++", "f-"), [(3, 4), (-1, 2)] if t else [(3, 4)], both, -2, 3, (None, [1], [2]))

    def knapsacks():
        for row in ((2, 3, 4), (3, 5, 7), (2, 2, 3)):
            for b in (5, 7, 9):
                for c in ((3, 5, 7), (1, 1, 1), (2, 3, 5), (5, 4, 3)):
                    yield from boxed([row], [(b,)], [("<=",), ("=",), (">=",)], ("+++",), [c], both, 0, 1 if b < 9 else 2, SETS[3])

    def three_rows():
        for rows in ([(1, 1, 0), (0, 1, 1), (1, 0, 1)], [(2, 1, 1), (1, 3, 1), (1, 1, 2)]):
            for b in ((1, 1, 1), (4, 5, 3)):
                yield from boxed(rows, [b], product(R[:2], repeat=3) if not t else product(R, repeat=3), ("+++", "+-f") if t else ("+++",), [(1, 1, 1), (2, -1, 3)], both, -1, 2, (None, [1, 3]))

    def tenths():
        for row in ((3, 1), (7, 3), (1, 2)):
            for b in (3, 6, 9, 21):
                yield from boxed([row], [(b,)], product(R, repeat=1), ("++", "+f", "-+"), [(1, 3), (7, 2)], both, -20, 25, (None, [1], [2]), 10, 3)

    def fractional_box():
        for hi in (5, 7, 1):
            yield from boxed([(2, 2)], [(3,), (7,), (6,)], product(R, repeat=1), ("++", "f+", "--"), [(2, 1), (-1, -1)], both, -hi, hi, (None, [1], [2]), 2)

    def unbounded():
        for p in gen.over([[(1, -1)], [(1, 2)], [(0, 1)], [(2, 0)]], [(3,), (-1,)], [(1, 1), (-1, 2)], (1,)):
            if lpref.status(p)[0] == "unbounded":
                for integral in (None, [1], []):
                    yield {**p, "integral": integral}

    def four():
        for row in ((2, 3, 4, 5), (3, 3, 5, 7)):
            for b in (6, 8, 11):
                for c in ((3, 4, 5, 7), (1, 1, 1, 1), (2, 3, 5, 4)):
                    yield from boxed([row, (1, 1, 1, 1)], [(b, 2), (b, 3)], product(R, ("<=",)), ("++++",), [c], both, 0, 1, SETS[4])

    def deep():
        # one branch per variable, or many on the same two
        for n in range(4, 14 if t else 11):
            for width in (1, 3):
                for cs in ([1] * n, [(-1) ** j * (j + 1) for j in range(n)]):
                    for obj in both:
                        yield {**gen.program([[2 if k == j else 0 for k in range(n)] for j in range(n)], [width] * n, cs, ["<="] * n, "+" * n, obj, 1, 1), "integral": None, "box": True}
        for rows, bs in (([(2, 2)], (7, 9, 13) if t else (5, 9)), ([(2, -2)], (1, 3)), ([(3, 6)], (10, 13)), ([(6, 10)], (7,))):
            for b in bs:
                for rel in R:
                    for hi in (4, 6, 9, 15) if t else (4, 8):
                        for p in boxed(rows, [(b,)], [(rel,)], ("++",), [(1, 2), (3, -1)], both, 0, hi, (None,)):
                            yield {**p, "box": True}

    def close():
        # branches whose best values differ very little, relative to their size
        for base in (1000, 100000, 300000):
            for d in ((0, 1), (1, 0), (2, 1), (1, 3)):
                for row, b in (((2, 2), 7), ((2, 3), 7), ((3, 2), 10), ((2, 2), 5)):
                    c = (base * row[0] // 2 + d[0], base * row[1] // 2 + d[1])
                    yield from boxed([row], [(b,)], [("<=",), (">=",)], ("++", "+f"), [c, (base + d[0], base + d[1])], both, 0, 5, (None, [1]), 1, 2)
            for c in ((base, base + 1, base + 2), (2 * base + 1, 3 * base, 4 * base), (base + 1, base, base)):
                yield from boxed([(2, 3, 4), (2, 2, 2)][:1 + base % 3], [(7, 5)[:1 + base % 3]], [("<=", "<=")[:1 + base % 3], (">=", ">=")[:1 + base % 3]], ("+++",), [c], both, 0, 2, (None, [1, 3]))

    out = [("deep", deep), ("close values", close), ("one variable", one), ("unbounded relaxation", unbounded), ("two variables", two), ("knapsacks", knapsacks), ("tenths", tenths),
           ("fractional boxes", fractional_box), ("two rows", two_rows), ("three rows", three_rows)]
    if t:
        out.append(("four variables", four))
    return out


def families(tier):
    fams = plain_families(tier)
    return fams + lpref.warmed(fams, 150 if tier == "thorough" else 30)


def bounds(p, j):
    """Integer range of variable j implied by the box rows and sign (exact)."""
    lo, hi = None, None
    if p["sign"][j] == "+":
        lo = F(0)
    if p["sign"][j] == "-":
        hi = F(0)
    for r, rel, b in zip(p["A"], p["rel"], p["b"]):
        if all((v == 0) == (k != j) for k, v in enumerate(r)) and rel != "=":
            v = F(b, r[j])
            upper = (rel == "<=") == (r[j] > 0)
            if upper:
                hi = v if hi is None else min(hi, v)
            else:
                lo = v if lo is None else max(lo, v)
    return range(ceil(lo), floor(hi) + 1)


def optimum(p):
    """Exact mixed-integer optimum (None if there is no point)."""
    n = len(p["c"])
    integral = list(range(1, n + 1)) if p["integral"] is None else p["integral"]
    js = [i - 1 for i in sorted(integral)]
    best = None
    for values in product(*[bounds(p, j) for j in js]):
        if len(js) == n:
            x = [F(0)] * n
            for j, v in zip(js, values):
                x[j] = F(v)
            if lpref.slack_violation({**p, "D": F(p["D"])}, x) > 0:
                continue
            v = lpref.value({**p, "D": F(p["D"])}, x)
        else:
            q = {**p, "A": p["A"] + [[1 if k == j else 0 for k in range(n)] for j in js], "b": p["b"] + list(values), "rel": p["rel"] + ["="] * len(js)}
            st, v = lpref.status(q)
            if st != "optimal":
                continue
        if best is None or (v > best if p["obj"] == "max" else v < best):
            best = v
    return best


def run(p, ctx):
    stub.fast_steps()
    from pytimize.programs import IntegerProgram
    n = len(p["c"])
    ip = lpref.build(p, IntegerProgram, integral_variables=None if p["integral"] is None else list(p["integral"]))
    before = snap(ip)
    ctx.state(lpref.key(p), p["integral"])
    st = "bounded" if p.get("box") else lpref.status(p)[0]
    want = None if st == "unbounded" else optimum(p)
    ctx.note("unbounded relaxation" if st == "unbounded" else "no point" if want is None else "optimum")
    for again in range(2):
        x = ip.branch_and_bound()
        ctx.call()
        if want is None:
            check(x is None, "branch and bound returned {} although there is no such point ({})", x, st)
            continue
        check(x is not None, "branch and bound returned None, the optimum is {}", want)
        xs = lpref.clean_list(x)
        check(len(xs) == n and lpref.slack_violation(p, xs) <= 1e-6 * (1 + max(map(abs, xs))), "infeasible point {}", xs)
        check(all(abs(v - round(v)) <= 1e-6 for i, v in enumerate(xs, 1) if p["integral"] is None or i in p["integral"]),
              "{} is not integral in {}", xs, p["integral"])
        check(abs(lpref.value(p, xs) - want) <= 1e-6 + 1e-9 * abs(want), "{} has value {}, the optimum is {}", xs, lpref.value(p, xs), want)
        if n > 2:
            break
    check(snap(ip) == before, "branch and bound changed the program")
