from itertools import product

from .. import stub
from ..core import check
from ..lputil import snap
from .L10 import P, attempt, ops, plain

TITLE = "a formulated program acts as the program it formulates"
BOUNDS = ("Every sequence of 1 and 2 (thorough: 3, the operations marked as core in L10) operations of L10's alphabet, in place or not, succeeding or failing, on nine formulated linear and integer programs "
          "(written with variables() or x[], signs given by where() or by the where-all calls) and on the same program constructed directly: every result, refusal, printed form, "
          "recorded step and accessor is compared after every operation; the formulation is optionally asked everything between the formulating calls.")
ASSUMPTIONS = ["sign conditions are stated before the first operation"]

PROGRAMS = [
    P([(1, 1, 1, 0), (1, -1, 0, 1)], (4, 1), (2, 1, 0, 0), "==", "++++", "max", 3),
    P([(1, 2), (3, -1)], (4, -3), (1, -2), ["<=", ">="], "f-", "min", -2),
    P([(1, 1), (1, 1)], (1, 3), (1, 2), ["<=", "="], "++", "max"),
    P([(2, 3), (-1, 2)], (7, 3), (3, 4), ["<=", "<="], "--", "max", 1),
    P([(1, 0, 2), (0, 1, -1)], (3, 2), (0, 1, 1), ["=", "<="], "+f-", "min", 0.5),
    P([(1, -1), (0, 1)], (1, 2), (1, 1), [">=", ">="], "ff", "min", 0),
    P([(2, 1, 1)], (6,), (1, 0, 2), ["="], "+++", "max", -1),
    P([(2, 1, -1)], (6,), (1, 0, 2), ["<="], "fff", "max", 2),
    P([(1, 1), (2, -1), (0, 1)], (6, 2, 3), (1, -1), ["<=", "=", ">="], "f+", "min", 1),
]


def families(tier):
    t = tier == "thorough"
    names = list(ops())
    core = [n for n in names if ops()[n][3]]

    def seqs(length, names, module="linear"):
        for k in range(len(PROGRAMS)):
            for style in ("v", "x"):
                for seq in product(names, repeat=length):
                    yield {"p": k, "style": style, "read": length == 1 or style == "v", "seq": list(seq), "module": module}

    return [("single operations", lambda: seqs(1, names)), ("single operations, integer", lambda: seqs(1, names, "integer")), ("pairs", lambda: seqs(2, names)),
            ("pairs, integer", lambda: seqs(2, names if t else core, "integer"))] + ([("triples of core operations", lambda: seqs(3, core))] if t else [])


def formulate(p, style, read, module):
    from pytimize.formulations import integer, linear as real
    module = integer if module == "integer" else real
    maximize, minimize, variables, x = module.maximize, module.minimize, module.variables, module.x
    n = len(p["c"])
    vs = variables(n) if style == "v" else [x[j + 1] for j in range(n)]
    named = variables(n)

    def linear(row):
        e = 0 * vs[-1]
        for a, v in zip(row, vs):
            e = e + a * v
        return e

    q = (maximize if p["obj"] == "max" else minimize)(linear(p["c"]) + p["z"])
    rows = []
    for row, rel, b in zip(p["A"], p["rel"], p["b"]):
        e = linear(row)
        rows.append(e <= b if rel == "<=" else e >= b if rel == ">=" else e == b)
    q = q.subject_to(*rows)
    sign = p["sign"]
    if read and set(sign) != {"f"}:
        question(q)
    if set(sign) == {"+"} and style == "v":
        q = q.whereAllPositive()
    elif set(sign) == {"-"} and style == "v":
        q = q.whereAllNegative()
    else:
        conditions = [v >= 0 if s == "+" else v <= 0 for v, s in zip(named, sign) if s != "f"]
        for c in conditions[:1]:
            q = q.where(c)
        if conditions[1:]:
            if read:
                question(q)
            q = q.where(*conditions[1:])
    return q


def question(q):
    """Asks everything that changes nothing; what a formulation answers before its signs are stated must not show later."""
    for make, f, ip, _ in ops().values():
        if not ip:
            attempt(f, q, make(q), False)
    observe(q)


def observe(p):
    return (snap(p), [int(j) for j in p.positive_variables], repr(p), str(p), p.steps_string, len(p.steps))


def run(case, ctx):
    import numpy as np
    from pytimize.programs import IntegerProgram, LinearProgram
    stub.fast_steps()
    p = PROGRAMS[case["p"]]
    cls = IntegerProgram if case["module"] == "integer" else LinearProgram
    one = formulate(p, case["style"], case["read"], case["module"])
    free = [j + 1 for j, s in enumerate(p["sign"]) if s == "f"]
    neg = [j + 1 for j, s in enumerate(p["sign"]) if s == "-"]
    two = cls(np.array(p["A"], dtype=float), np.array(p["b"], dtype=float), np.array(p["c"], dtype=float), p["z"], p["obj"], list(p["rel"]), free, neg)
    made = one.program
    check(snap(made) == snap(two), "formulated {}, constructed {}", snap(made), snap(two))
    two = cls(made.A.copy(), made.b.copy(), made.c.copy(), made.z, p["obj"], list(p["rel"]), free, neg)  # the same signs of zeros, too

    def compare(what):
        a, b = observe(one), observe(two)
        check(a[0][:-1] == b[0][:-1] and a[1:] == b[1:], "after {} the formulated program is {}, the constructed one {}", what, a, b)
        if cls is IntegerProgram:
            check(snap(one.relax()) == snap(two.relax()), "after {} the relaxation is {}", what, snap(one.relax()))
            for point in ([1.5] * len(p["c"]), [1.0] * len(p["c"])):
                if len(two.c) == len(point):
                    check(bool(one.is_feasible(point, show_steps=False)) == bool(two.is_feasible(point, show_steps=False)), "after {} {} is judged differently", what, point)
        check(snap(one.program) == snap(two), "after {} program is {}, the constructed one {}", what, snap(one.program), snap(two))

    compare("formulating")
    for name in case["seq"]:
        make, f, ip, _ = ops()[name]
        kind, result = attempt(f, one, make(one), ip)
        kind2, result2 = attempt(f, two, make(two), ip)
        ctx.call()
        check(kind == kind2, "{}: {} on the formulated program, {} on the constructed one", name, kind, kind2)
        check(same(plain(result), plain(result2)), "{}: {} on the formulated program, {} on the constructed one", name, plain(result), plain(result2))
        compare(name)
    ctx.validated()
    ctx.state(observe(two))


def same(a, b):
    return repr(a) == repr(b)
