from itertools import product

from ..core import check
from ..graphs import DIRECTED_DETOURS, DIRECTED_NAMES, arcs, directed, named, renamed, warmed
from ..lputil import raises

TITLE = "create_residual()"
BOUNDS = ("Every digraph with 2 and 3 nodes and every capacity in {absent, 0, 1, 3} per arc (quick: {absent, 0, 2}) with every flow that puts 0, a part or all of the "
          "capacity on every arc (or leaves the arc out), conserved or not; 4-node digraphs with patterned capacities and flows; every flow with one value above the capacity, "
          "one negative value or one unknown arc; residuals of residuals; capacities from 0.75 to 1e30 of which a flow leaves 1, 1/8 or 2^-20, or uses as little; negative capacities. Small graphs also with names of up to nine alphabets (blanks, for digraphs the empty name, names that run together, punctuation, digits, upper case, long names, last characters), and by eleven detours (something missing, surplus, different or of other weight, then corrected; another graph first) with every query asked before the change.")
ASSUMPTIONS = ["the weight of a residual arc is the largest flow that the residual of the residual accepts on it"]


def families(tier):
    t, deep = True, tier == "thorough"

    def capacities(n, values, scale=1, kind="words", flows="all"):
        for caps in product((None,) + tuple(values), repeat=n * (n - 1)):
            yield {"n": n, "caps": [[list(a), c] for a, c in zip(arcs(n), caps) if c is not None], "scale": scale, "names": kind, "flows": flows}

    def four():
        every = arcs(4)
        for mask in range(0, 1 << 12, 1 if t else 7):
            yield {"n": 4, "caps": [[list(a), 1 + k % 4] for k, a in enumerate(every) if mask >> k & 1], "scale": 1, "names": "other", "flows": "patterns"}

    fams = [("2 nodes", lambda: capacities(2, (0, 1, 3, 4.5))), ("3 nodes", lambda: capacities(3, (0, 1, 3) if t else (0, 2))), ("3 nodes, tenths", lambda: capacities(3, (3,), 10, "other")),
            ("4 nodes", four)]
    fams += [("names", lambda: renamed((c for n in (2, 3) for c in capacities(n, (0, 2))), DIRECTED_NAMES))]
    fams += [("2 and 3 nodes, after other questions", lambda: warmed((c for n in (2, 3) for c in capacities(n, (0, 2))), DIRECTED_DETOURS))]
    def exact():
        """Whole and floating capacities of any magnitude with flows that leave very little, or very much."""
        for big in (10 ** 15, 10 ** 17, 10 ** 30, 2.0 ** 50, 1e6, 0.75):
            for rest in (1, 2.0 ** -3, 2.0 ** -20):
                for shape in ([(0, 1)], [(0, 1), (1, 0)], [(0, 1), (1, 2), (2, 0), (0, 2)], [(i, (i + 1) % 12) for i in range(12)], arcs(4)):
                    n = 1 + max(max(a) for a in shape)
                    for k in range(2):
                        flow = []
                        for i, a in enumerate(shape):
                            f = big - rest if (i + k) % 3 == 0 else rest if (i + k) % 3 == 1 else big
                            flow.append([list(a), f])
                        if 0 < rest < big and big - rest < big and big - (big - rest) == rest:
                            yield {"n": n, "caps": [[list(a), big] for a in shape], "flow": flow}

    fams += [("little rest", exact)]
    if deep:
        fams += [("3 nodes, more capacities", lambda: capacities(3, (0, 1, 2, 4)))]
    return fams


def flows_of(capacity, how):
    """Every flow of the case: a value or None (left out) per arc."""
    if how == "patterns":
        for k in range(5):
            yield {a: (c, 0, c / 2, 1, None)[(i * (k + 1) + k) % 5] for i, (a, c) in enumerate(capacity.items())}
        return
    choices = [[None, 0] + sorted({v for v in (1, c - 1, c) if 0 < v <= c}) for c in capacity.values()]
    if len(capacity) > 4:
        choices = [[v for v in ch if v is not None] for ch in choices]
    for values in product(*choices):
        yield dict(zip(capacity, values))


def exact(case, ctx):
    """The residual, read through its own residual: the flow that fills an arc leaves none of it, a little less leaves a little."""
    n, capacity, flow = case["n"], {tuple(a): c for a, c in case["caps"]}, {tuple(a): f for a, f in case["flow"]}
    names = named(n)
    name = lambda a: (names[a[0]], names[a[1]])  # noqa: E731
    g = directed(names, list(capacity.items()))
    r = g.create_residual({name(a): f for a, f in flow.items()})
    ctx.call()
    ctx.state(n, sorted(capacity.items()), sorted(flow.items()))
    wanted = {}
    for a, c in capacity.items():
        if c > flow[a]:
            wanted[a] = wanted.get(a, 0) + (c - flow[a])
        if flow[a] > 0:
            wanted[a[::-1]] = wanted.get(a[::-1], 0) + flow[a]
    check(set(r.arcs) == {name(a) for a in wanted}, "residual arcs {} of capacities {} with the flow {}", r.arcs, capacity, flow)
    for a, w in wanted.items():
        over = w + 1 if isinstance(w, int) else w * (1 + 1e-12)
        check(not raises(ArithmeticError, r.create_residual, {name(a): w if isinstance(w, int) else w * (1 - 1e-12)}), "residual {} of the arc {} is less than {}", r, name(a), w)
        check(raises(ArithmeticError, r.create_residual, {name(a): over}), "residual of the arc {} is more than {}", name(a), w)
        ctx.call(2)
    for a, c in capacity.items():
        over = c + 1 if isinstance(c, int) else c * (1 + 1e-12)
        check(raises(ArithmeticError, g.create_residual, {name(a): over}), "a flow of {} on the arc {} of capacity {} was accepted", over, name(a), c)
        ctx.call()


def run(case, ctx):
    if "flow" in case:
        return exact(case, ctx)
    n, scale = case["n"], case["scale"]
    names = named(n, case["names"])
    name = lambda a: (names[a[0]], names[a[1]])  # noqa: E731
    capacity = {tuple(a): c for a, c in case["caps"]}
    real = (lambda v: v) if scale == 1 else (lambda v: v / scale)
    g = directed(names, [(a, real(c)) for a, c in capacity.items()])
    before = (g.nodes, g.arcs, repr(getattr(g, "_arcs", None)))
    eps = 1e-9
    for flow in flows_of(capacity, case["flows"]):
        given = {name(a): real(v) for a, v in flow.items() if v is not None}
        kept = dict(given)
        r = g.create_residual(given)
        ctx.call()
        check(given == kept, "the flow was changed")
        wanted = {}
        for (u, v), c in capacity.items():
            f = flow[u, v] or 0
            if c > f:
                wanted[u, v] = wanted.get((u, v), 0) + c - f
            if f > 0:
                wanted[v, u] = wanted.get((v, u), 0) + f
        got = list(r.arcs)
        check(len(got) == len(set(got)) and set(got) == {name(a) for a in wanted}, "residual arcs {} for the flow {}, expected {}", got, given, {name(a) for a in wanted})
        for a, w in wanted.items():
            check(not raises(ArithmeticError, r.create_residual, {name(a): max(0, real(w) - eps)}), "residual {} of the arc {} is less than {}", r, name(a), real(w))
            check(raises(ArithmeticError, r.create_residual, {name(a): real(w) + eps}), "residual of the arc {} is more than {}", name(a), real(w))
        ctx.state(n, sorted(capacity.items()), sorted(given.items()))
        # the residual is a digraph of its own
        for a in wanted:
            r.set_arc_weight(name(a), 77)
    for a, c in capacity.items():
        for others in ({}, {name(o): 0 for o in capacity if o != a}, {name(o): real(k) for o, k in capacity.items() if o != a}):
            for over in (real(c) + 1, real(c) + 1e-6):
                check(raises(ArithmeticError, g.create_residual, {**others, name(a): over}), "a flow of {} on the arc {} of capacity {} was accepted", over, name(a), c)
                check(raises(ArithmeticError, g.create_residual, {name(a): over, **others}), "a flow of {} on the arc {} of capacity {} was accepted", over, name(a), c)
            check(raises(ValueError, g.create_residual, {**others, name(a): -1}), "a negative flow was accepted")
            check(raises(ValueError, g.create_residual, {name(a): -0.25, **others}), "a negative flow was accepted")
            ctx.call(6)
    full = {name(a): real(c) for a, c in capacity.items()}
    for a in [a for a in arcs(n) if a not in capacity]:
        for v in (0, 1):
            check(raises(ValueError, g.create_residual, {name(a): v}) and raises(ValueError, g.create_residual, {**full, name(a): v}), "a flow on the missing arc {} was accepted", name(a))
            ctx.call(2)
    check(raises(ValueError, g.create_residual, {("zz", names[0]): 0}), "a flow on an arc of an unknown node was accepted")
    check((g.nodes, g.arcs, repr(getattr(g, "_arcs", None))) == before, "the digraph was changed")
    for a, c in list(capacity.items())[:3]:
        g.set_arc_weight(name(a), -1)
        check(raises(ValueError, g.create_residual, {}) and raises(ValueError, g.create_residual, {name(o): 0 for o in capacity}), "a negative capacity was accepted")
        g.set_arc_weight(name(a), real(c))
        ctx.call(2)
