import random

from .. import stub
from ..core import check
from ..lputil import snap
from .G04 import Choices

TITLE = "LinearProgram.random()"
BOUNDS = ("Every outcome of the discrete choices (objective, relations, signs) for every shape up to 3x2 and 2x3 (thorough: 3x4 and 4x3), with the continuous draws at their "
          "ends, in the middle and mixed, for eight magnitudes, given by position, by keyword or left out; every program is read back through its accessors.")
ASSUMPTIONS = ["discrete choices are made through the random module's shared generator, continuous ones through numpy.random.uniform or random.random; draws made in another way are "
               "left to fixed seeds", "numbers are rounded to two decimals, so they may exceed a magnitude that is not a multiple of 0.01 by 0.005"]

RELATIONS = ("=", "<=", ">=")
FRACTIONS = ("low", "middle", "high", "mixed")
MAGNITUDES = (None, 1, 100, 7.25, 0, 1e6, 0.5, 3)


def families(tier):
    t = tier == "thorough"
    shapes = [(m, n) for m in range(1, 4) for n in range(1, 4) if m + n <= 5] + ([(3, 3), (4, 3), (3, 4), (1, 6)] if t else [])
    return [
        ("every outcome", lambda: ({"rows": m, "columns": n, "magnitude": mag, "fraction": f} for m, n in shapes for f in FRACTIONS
                                   for mag in (MAGNITUDES if m + n <= 3 else (100,) if m + n > 4 else (1, 7.25)))),
        ("default shape", lambda: ({"rows": None, "columns": None, "magnitude": None, "fraction": f, "limit": 4000 if t else 600} for f in FRACTIONS)),
        ("many", lambda: ({"rows": m, "columns": n, "magnitude": 100, "fraction": f, "limit": 1000 if t else 200} for m, n in ((1, 11), (11, 1), (7, 12)) for f in FRACTIONS)),
    ]


def arguments(case, k):
    given = [(name, case[name]) for name in ("rows", "columns", "magnitude") if case[name] is not None]
    if len(given) < 3 or k % 2:
        return (), dict(given)
    return tuple(v for _, v in given), {}


class Draws:
    """The continuous draws, as fractions of their range."""

    def __init__(self, kind):
        self.kind, self.k = kind, 0

    def one(self):
        self.k += 1
        return {"low": 0.0, "middle": 0.5, "high": 1 - 2 ** -53, "mixed": (0.0, 0.75, 0.126, 1 - 2 ** -53, 0.501)[self.k % 5]}[self.kind]

    def uniform(self, low=0.0, high=1.0, size=None):
        import numpy as np
        if size is None:
            return low + (high - low) * self.one()
        out = np.empty(size)
        flat = out.reshape(-1)
        for i in range(flat.size):
            flat[i] = low + (high - low) * self.one()
        return out


def judge(lp, case, ctx):
    from pytimize.programs import LinearProgram
    m, n = case["rows"] or 4, case["columns"] or 6
    limit = (100 if case["magnitude"] is None else case["magnitude"]) + 0.005 + 1e-9
    check(type(lp) is LinearProgram, "a {} is returned", type(lp).__name__)
    check(lp.A.shape == (m, n) and lp.b.shape == (m,) and lp.c.shape == (n,), "shapes {} {} {} for {} rows and {} columns", lp.A.shape, lp.b.shape, lp.c.shape, m, n)
    numbers = [float(v) for r in lp.A for v in r] + [float(v) for v in lp.b] + [float(v) for v in lp.c] + [float(lp.z)]
    check(all(abs(v) <= limit for v in numbers), "numbers {} with magnitude {}", numbers, case["magnitude"])
    rels = list(lp.inequalities)
    check(len(rels) == m and set(rels) <= set(RELATIONS) and lp.objective in ("max", "min"), "relations {} and sense {}", rels, lp.objective)
    classes = [[int(j) for j in v] for v in (lp.free_variables, lp.negative_variables, lp.positive_variables)]
    check(sorted(sum(classes, [])) == list(range(1, n + 1)), "sign classes {}", classes)
    again = LinearProgram(lp.A.copy(), lp.b.copy(), lp.c.copy(), lp.z, lp.objective, rels, classes[0], classes[1])
    check(snap(again) == snap(lp), "the program is {}, constructed anew it is {}", snap(lp), snap(again))
    sign = ["f" if j in classes[0] else "-" if j in classes[1] else "+" for j in range(1, n + 1)]
    return lp.objective, tuple(rels), tuple(sign), numbers


def run(case, ctx):
    import numpy as np
    from pytimize.programs import LinearProgram
    stub.fast_steps()
    m, n = case["rows"] or 4, case["columns"] or 6
    inst, choices, draws = random.seed.__self__, Choices(), Draws(case["fraction"])
    kept = inst.__dict__.get("_randbelow"), random.random, np.random.uniform
    seen, count = set(), 0
    inst._randbelow, random.random, np.random.uniform = choices.below, draws.one, draws.uniform
    try:
        while True:
            draws.k = count % 5
            args, named = arguments(case, count)
            lp = LinearProgram.random(*args, **named)
            ctx.call()
            seen.add(judge(lp, case, ctx)[:3])
            count += 1
            if count >= case.get("limit", 10 ** 9) or not choices.next():
                break
    finally:
        if kept[0] is None:
            del inst._randbelow
        else:
            inst._randbelow = kept[0]
        random.random, np.random.uniform = kept[1:]
    ctx.note("random outcomes", count)
    for s in seen:
        ctx.state(m, n, s)
    state = random.getstate(), np.random.get_state()
    try:  # witnesses for what can occur; everything is already enumerated unless the choices are drawn in another way
        k, varied = 0, set()
        while k < 30 or k < 400 and not complete(seen, m, n):
            random.seed(k)
            np.random.seed(k)
            args, named = arguments(case, k)
            got = judge(LinearProgram.random(*args, **named), case, ctx)
            seen.add(got[:3])
            varied.add(str(got[3]))
            k += 1
            ctx.call()
    finally:
        random.setstate(state[0])
        np.random.set_state(state[1])
    check(case["magnitude"] == 0 or len(varied) > 1, "the numbers never vary")
    for i in range(m):
        check({s[1][i] for s in seen} == set(RELATIONS), "row {} only has the relations {}", i + 1, {s[1][i] for s in seen})
    for j in range(n):
        check({s[2][j] for s in seen} == set("+-f"), "variable {} is only {}", j + 1, {s[2][j] for s in seen})
    check({s[0] for s in seen} == {"max", "min"}, "the sense is always {}", {s[0] for s in seen})
    for sense in ("max", "min"):
        some = [s for s in seen if s[0] == sense]
        for i in range(m):
            check({s[1][i] for s in some} == set(RELATIONS), "row {} of {} programs only has the relations {}", i + 1, sense, {s[1][i] for s in some})
        for j in range(n):
            check({s[2][j] for s in some} == set("+-f"), "variable {} of {} programs is only {}", j + 1, sense, {s[2][j] for s in some})


def complete(seen, m, n):
    return all(all({s[1][i] for s in seen if s[0] == sense} == set(RELATIONS) for i in range(m))
               and all({s[2][j] for s in seen if s[0] == sense} == set("+-f") for j in range(n)) for sense in ("max", "min"))
