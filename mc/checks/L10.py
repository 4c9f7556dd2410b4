from itertools import product

from .. import gen, stub
from .. import lpref
from ..core import check
from .. import lputil

TITLE = "operation sequences: nothing changes but what was asked to change"
BOUNDS = ("All sequences of 2 operations (thorough: also 3, over the operations marked as core) applied to any object alive at "
          "that point (the root program, or anything derived from it), for seven programs (with and without standard form, "
          "infeasible, unbounded, integer), built from float arrays, int arrays and lists. After every operation - succeeding or "
          "failing, in place or not - all live programs and all caller data are compared with their snapshots; at the end every "
          "array handed in or out is scribbled over and the remaining programs compared again. Programs of 11 variables or rows; one operation on programs of 24 to 30.")
ASSUMPTIONS = ["the recorded steps are judged by L14, not here"]


def P(A, b, c, rel, sign, obj, z=0, integer=False, integral=None):
    p = gen.program(A, b, c, rel, sign, obj, z)
    p["integer"] = integer
    p["integral"] = integral
    return p


PROGRAMS = [
    P([(1, 1, 1, 0), (1, -1, 0, 1)], (4, 1), (2, 1, 0, 0), "==", "++++", "max", 3),
    P([(1, 2), (3, -1)], (4, -3), (1, -2), ["<=", ">="], "f-", "min", -2),
    P([(1, 0, -1), (-1, -2, 1)], (-1, -2), (1, 1, -1), "==", "+++", "max"),
    P([(1, 1), (1, 1)], (1, 3), (1, 2), ["<=", "="], "++", "max"),
    P([(2, 3), (-1, 2)], (7, 3), (3, 4), ["<=", "<="], "++", "max", 1, True),
    P([(2, 1, 1), (1, 3, 0)], (-5, 4), (1, 1, 1), "==", "+++", "max", 0, True, [2]),
    P([(2, 3, 1)], (7,), (-1, 1, 2), ["<="], "+-f", "min", 2, True, [1, 3]),
]
WIDE = [
    P([tuple(range(1, 12)), (1, 0, 2, -1, 1, 0, 1, 1, -2, 1, 1)], (9, 4), (1, -1, 1, 2, -1, 1, 1, 0, 1, -1, 3), "==", "+" * 11, "max", 2),
    P([(1, 2, -1, 1, 1, 2, 1, 0, 1, 1, 3), (1, 1, 2, 0, 1, -1, 1, 1, 0, 2, 1)], (6, -4), (1, 2, -1, 3, 1, 1, 2, -1, 1, 1, 4), ["<=", ">="], "++f-+++-+f+", "min"),
    P([(1, i % 4 - 1) for i in range(11)], tuple(range(4, 15)), (1, 2), ["<="] * 11, "++", "max", 1),
]
VAST = [
    P([tuple((5 * i + 7 * j + i * j) % 9 - 2 for j in range(24)) for i in range(3)], (9, 14, 11), tuple((3 * j) % 7 - 3 for j in range(24)), "===", "+" * 24, "max", 2),
    P([tuple((5 * i + 7 * j + i * j) % 9 - 2 for j in range(26)) for i in range(2)], (9, -4), tuple((3 * j) % 7 - 3 for j in range(26)), ["<=", ">="], ("+-f+" * 7)[:26], "min"),
    P([(1 + i % 3, i % 7 - 2) for i in range(25)], tuple(range(30, 55)), (1, 2), ["<="] * 25, "++", "max", 1),
    P([tuple((j * j) % 5 for j in range(30))], (7,), tuple(1 + j % 4 for j in range(30)), ["<="], "+" * 30, "max", 1, True, [2, 13, 28]),
]


def low(lp):
    return list(range(1, len(lp.b) + 1))


def high(lp):
    n = len(lp.c)
    return list(range(n - len(lp.b) + 1, n + 1))


def vec(lp, v, extra=0):
    return [float(v)] * (len(lp.c) + extra)


def snap(lp):
    """Everything a program is, the printed integrality included."""
    content = lputil.snap(lp)
    return content + tuple(line for line in repr(lp).split("\n") if "∈" in line) if content[-1] == "IntegerProgram" else content


# name -> (arguments, call(lp, args, in_place))
def _ops():
    import numpy as np
    ops = {}

    def add(name, args, f, inplace=False, core=False):
        ops[name] = (args, f, False, core)
        if inplace:
            ops[name + "!"] = (args, f, True, core)

    add("copy", lambda lp: (), lambda lp, a, ip: lp.copy(), core=True)
    add("dual", lambda lp: (), lambda lp, a, ip: lp.dual(False), core=True)
    def kw(ip):
        """Not in place is the default."""
        return {"in_place": True} if ip else {}

    add("to_sef", lambda lp: (), lambda lp, a, ip: lp.to_sef(False, **kw(ip)), True, True)
    add("to_sef shown", lambda lp: (), lambda lp, a, ip: lp.to_sef(in_place=ip), True)
    add("auxiliary", lambda lp: (), lambda lp, a, ip: lp.auxiliary(False), core=True)
    add("relax", lambda lp: (), lambda lp, a, ip: lp.relax(), core=True)
    for rel in ("<=", "="):
        add("row " + rel, lambda lp: ([float(j + 1) for j in range(len(lp.c))],),
            lambda lp, a, ip, rel=rel: lp.add_constraint(a[0], rel, 2.0, **kw(ip)), True, rel == "<=")
    add("row array", lambda lp: (np.array([float(2 - j) for j in range(len(lp.c))]),),
        lambda lp, a, ip: lp.add_constraint(a[0], ">=", -1, in_place=ip), True)
    add("row too long", lambda lp: (vec(lp, 1, 1),), lambda lp, a, ip: lp.add_constraint(a[0], "<=", 2, ip), True)
    add("row bad relation", lambda lp: (vec(lp, 1),), lambda lp, a, ip: lp.add_constraint(a[0], "<", 2, ip), True, True)
    for bad in ("text", None, "3", 1j, [1.0, 2.0]):
        add(f"row bad value {bad!r}", lambda lp: (vec(lp, 1),), lambda lp, a, ip, bad=bad: lp.add_constraint(a[0], "<=", bad, ip), True)
        add(f"var bad coefficient {bad!r}", lambda lp: ([1.0] * len(lp.b),), lambda lp, a, ip, bad=bad: lp.add_variable(bad, a[0], True, False, ip), True)
    add("var", lambda lp: ([float(i - 1) for i in range(len(lp.b))],), lambda lp, a, ip: lp.add_variable(2, a[0], **kw(ip)), True)
    add("var free", lambda lp: (np.array([float(i + 1) for i in range(len(lp.b))]),),
        lambda lp, a, ip: lp.add_variable(-1, a[0], True, False, ip), True, True)
    add("var negative", lambda lp: (), lambda lp, a, ip: lp.add_variable(negative=True, **kw(ip)), True)
    add("var free+negative", lambda lp: (), lambda lp, a, ip: lp.add_variable(1, None, True, True, ip), True)
    add("var too long", lambda lp: ([1.0] * (len(lp.b) + 1),), lambda lp, a, ip: lp.add_variable(1, a[0], True, False, ip), True, True)
    for name, basis in (("low", low), ("high", high)):
        add("canonical " + name, lambda lp, basis=basis: (basis(lp),), lambda lp, a, ip: lp.to_canonical_form(a[0], False, **kw(ip)), True, name == "low")
        add("iteration " + name, lambda lp, basis=basis: (basis(lp),), lambda lp, a, ip: lp.simplex_iteration(a[0], False, **kw(ip)), True, name == "low")
        add("simplex " + name, lambda lp, basis=basis: (basis(lp),), lambda lp, a, ip: lp.simplex(a[0], False), core=name == "low")
        add("basis queries " + name, lambda lp, basis=basis: (basis(lp), vec(lp, 1)),
            lambda lp, a, ip: (lp.is_basis(a[0]), lp.is_canonical_form_for(a[0]), lp.is_basis_feasible(a[0]), lp.compute_basic_solution(a[0]),
                               lp.is_feasible_basic_solution(a[1], a[0]), lp.is_basic_solution(a[1], a[0])) and None)
    add("canonical non-basis", lambda lp: ([1] * len(lp.b) + [1],), lambda lp, a, ip: lp.to_canonical_form(a[0], True, ip), True)
    add("iteration non-basis", lambda lp: ([1] * len(lp.b) + [1],), lambda lp, a, ip: lp.simplex_iteration(a[0], True, ip), True)
    add("simplex non-basis", lambda lp: ([1] * len(lp.b) + [1],), lambda lp, a, ip: lp.simplex(a[0]))
    add("two phase", lambda lp: (), lambda lp, a, ip: lp.two_phase_simplex(False), core=True)
    add("solve", lambda lp: (), lambda lp, a, ip: lp.solve(), core=True)
    add("optimal value", lambda lp: (), lambda lp, a, ip: lp.optimal_value() and None)
    add("branch and bound", lambda lp: (), lambda lp, a, ip: lp.branch_and_bound())
    add("points", lambda lp: (vec(lp, 0), np.array(vec(lp, 1))),
        lambda lp, a, ip: (lp.is_feasible(a[0]), lp.is_feasible(a[1]), lp.evaluate(a[0]), lp.value_of(a[1])) and None)
    add("point too long", lambda lp: (vec(lp, 0, 1),), lambda lp, a, ip: lp.is_feasible(a[0]))
    add("verifiers", lambda lp: ([1.0] * len(lp.b), vec(lp, 1), np.array(vec(lp, 0))),
        lambda lp, a, ip: (lp.verify_infeasibility(a[0]), lp.verify_optimality(a[0]), lp.verify_unboundedness(a[1], a[2])) and None)
    add("text", lambda lp: (), lambda lp, a, ip: (repr(lp), lp.cs_conditions(), lp.steps_string, lp.steps, lp == lp.copy()) and None)
    add("accessors", lambda lp: (), lambda lp, a, ip: [lp.inequalities, lp.free_variables, lp.negative_variables, lp.positive_variables])
    add("clear steps", lambda lp: (), lambda lp, a, ip: lp.clear_steps(**kw(ip)), True, True)
    add("graph", lambda lp: (), lambda lp, a, ip: lp.graph_polyhedron(10))
    add("rref", lambda lp: (lp.A,), lambda lp, a, ip: lp.to_rref(a[0]))
    return ops


_cache = {}


def ops():
    if not _cache:
        _cache.update(_ops())
    return _cache


def families(tier):
    t = tier == "thorough"
    names = list(ops())
    core = [n for n in names if ops()[n][3]]

    def seqs(length, names, programs, modes):
        for p in programs:
            for mode in modes:
                for seq in product(names, repeat=length):
                    for targets in product(*[range(k + 1) for k in range(length)]):
                        yield {"p": p, "mode": mode, "seq": [[k, n] for k, n in zip(targets, seq)]}

    out = [
        ("single operations", lambda: seqs(1, names, PROGRAMS, ("float", "int", "list"))),
        ("many variables or rows", lambda: seqs(1, names, WIDE, ("float", "int", "list"))),
        ("25 and more variables or rows", lambda: seqs(1, names, VAST, ("float", "int", "list"))),
        ("25 and more variables or rows, pairs", lambda: seqs(2, core, VAST[:3], ("float",)) if t else iter(())),
        ("many variables or rows, pairs", lambda: seqs(2, names if t else core, WIDE, ("float",))),
        ("pairs", lambda: seqs(2, names, PROGRAMS, ("float", "list") if t else ("float",))),
    ]
    if t:
        out.append(("triples of core operations", lambda: seqs(3, core, PROGRAMS[:6], ("float",))))
    return out


def create(p, mode):
    import numpy as np
    from pytimize.programs import IntegerProgram, LinearProgram
    A, b, c = [list(r) for r in p["A"]], list(p["b"]), list(p["c"])
    if mode != "list":
        dtype = float if mode == "float" else int
        A, b, c = np.array(A, dtype=dtype), np.array(b, dtype=dtype), np.array(c, dtype=dtype)
    free = [j + 1 for j, s in enumerate(p["sign"]) if s == "f"]
    neg = [j + 1 for j, s in enumerate(p["sign"]) if s == "-"]
    rel = list(p["rel"])
    args = [A, b, c, rel, free, neg]
    if p["integer"]:
        integral = list(p["integral"]) if p["integral"] is not None else None
        args.append(integral)
        return IntegerProgram(A, b, c, p["z"], p["obj"], rel, free, neg, integral), args
    return LinearProgram(A, b, c, p["z"], p["obj"], rel, free, neg), args


def plain(v):
    """A caller's argument or a result as comparable data."""
    import numpy as np
    if isinstance(v, np.ndarray):
        return ("array", str(v.dtype), v.tolist())
    if isinstance(v, (list, tuple)):
        return [plain(w) for w in v]
    if hasattr(v, "inequalities"):
        return snap(v)
    if isinstance(v, (np.bool_, np.floating, np.integer)):
        return v.item()
    return v


def flatten(v, kind):
    if isinstance(v, kind):
        yield v
    if isinstance(v, (list, tuple)):
        for w in v:
            yield from flatten(w, kind)


def scribble(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        try:
            v += 13
        except ValueError:
            pass
    elif isinstance(v, list):
        for w in v:
            scribble(w)
        if not v or isinstance(v[0], (int, float)):
            v.append(1)
        elif isinstance(v[0], str):
            v[:] = [">="] * len(v)
    elif isinstance(v, tuple):
        for w in v:
            scribble(w)


def attempt(f, lp, args, ip):
    try:
        return "ok", f(lp, args, ip)
    except Exception as e:  # noqa: B902
        return type(e).__name__, None
    except SystemExit:
        return "exit", None


def rebuild(lp):
    """A fresh program with the content of lp, built from its public accessors."""
    q = type(lp)(lp.A.copy(), lp.b.copy(), lp.c.copy(), lp.z, lp.objective, list(lp.inequalities), list(lp.free_variables), list(lp.negative_variables),
                 *([lp._integral_variables] if hasattr(lp, "_integral_variables") else []))
    return q


UNSTABLE = ("text",)  # answers that are about the history (recorded steps)


def run(case, ctx):
    from pytimize.programs import LinearProgram
    stub.fast_steps()
    root, given = create(case["p"], case["mode"])
    want_given = plain(given)
    live, handed = [root], []
    snaps = [snap(root)]

    def verify(what, changed=()):
        for i, lp in enumerate(live):
            if i not in changed:
                check(snap(lp) == snaps[i], "{} changed program {}: {} became {}", what, i, snaps[i], snap(lp))
        if given is not None:
            check(plain(given) == want_given, "{} changed the data the program was built from: {}", what, given)

    for target, name in case["seq"]:
        if target >= len(live):
            return  # the earlier operations derived no such object: this sequence is covered by a shorter one
        lp = live[target]
        make, f, ip, _ = ops()[name]
        args = make(lp)
        before_args = plain(args)
        what = f"operation {name} on program {target}"
        if ip:
            # what the not-in-place version gives, and that it leaves everything alone
            q = rebuild(lp)
            if snap(q) == snaps[target]:
                kind0, r0 = attempt(f, q, make(q), False)
                check(snap(q) == snaps[target], "{}, not in place, changed its program: {} became {}", what, snaps[target], snap(q))
            else:
                kind0, r0 = None, None
        elif target < len(live) and name not in UNSTABLE:
            # the same question to a fresh program of the same content
            q = rebuild(lp)
            kind0, r0 = attempt(f, q, make(q), False) if snap(q) == snaps[target] else (None, None)
        kind, result = attempt(f, lp, args, ip)
        ctx.call()
        check(plain(args) == before_args, "{} changed its argument {} to {}", what, before_args, args)
        results = list(flatten(result, LinearProgram))
        if not ip:
            verify(what)
            if name not in UNSTABLE and kind0 is not None:
                check(kind == kind0 and (kind != "ok" or repr(plain(result)) == repr(plain(r0))), "{}: gives {} {}, a fresh program of the same content {} {}", what, kind, plain(result), kind0, plain(r0))
            for r in results:
                check(all(r is not o for o in live), "{} returned a live program instead of a new one", what)
        else:
            verify(what, () if kind != "ok" else (target,))
            if kind0 is not None:
                check(kind == kind0, "{}: {} in place, {} otherwise", what, kind, kind0)
            if kind == "ok":
                check(len(results) == 1 and results[0] is lp, "{} in place did not return the same object", what)
                if kind0 is not None:
                    check(plain(result) == plain(r0), "{}: in place gives {}, otherwise {}", what, plain(result), plain(r0))
                snaps[target] = snap(lp)
        for r in results:
            if all(r is not o for o in live):
                live.append(r)
                snaps.append(snap(r))
        # whatever was handed in or out, other than programs, is not part of any program
        handed.append(args)
        if result is not None and not isinstance(result, LinearProgram):
            loose = [v for v in flatten(list(result) if isinstance(result, tuple) else result, object) if not isinstance(v, LinearProgram)]
            for v in loose:
                scribble(v)
            verify(f"writing into the result of {name}")
        if name != "rref":
            scribble(args)
            verify(f"writing into the arguments of {name}")
        for v in (lp.inequalities, lp.free_variables, lp.negative_variables, lp.positive_variables, lp.steps):
            scribble(v)
        verify("writing into the lists reported by a program")
    ctx.state(tuple(map(str, snaps)))
    # the data handed to the constructor and the arrays of every program are private to it
    scribble(given)
    given, want_given = None, None
    verify("writing into the data the root program was built from")
    for i, lp in enumerate(live):
        for a in (lp.A, lp.b, lp.c):
            scribble(a)
        verify(f"writing into the arrays of program {i}", (i,))
        snaps[i] = snap(lp)
