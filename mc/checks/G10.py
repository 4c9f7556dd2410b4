from fractions import Fraction
from itertools import permutations, product

from ..core import check
from ..graphs import DIRECTED_DETOURS, DIRECTED_NAMES, arcs, directed, min_cut, named, renamed, warmed
from ..lputil import raises

TITLE = "ford_fulkerson() and preflow_push()"
BOUNDS = ("Every digraph with 2 and 3 nodes and every capacity in {absent, 0, 1, 3} per arc (thorough: {absent, 0, 1, 2, 5}), every source and sink, several node, arc "
          "and set orders; 4 nodes: every set of arcs with several capacity patterns (thorough: every arc absent or of capacity 1/2), every source and sink (quick: "
          "one pair, every labelling); 5 nodes: every set of arcs among 3 inner nodes with source and sink arcs; layered and zigzag networks up to 8 nodes; chains, rings and layered networks up to 90 nodes (thorough: 130); tenths; capacities from 1e-12 to 1e17 side by side. Small graphs also with names of up to nine alphabets (blanks, for digraphs the empty name, names that run together, punctuation, digits, upper case, long names, last characters), and by eleven detours (something missing, surplus, different or of other weight, then corrected; another graph first) with every query asked before the change.")
ASSUMPTIONS = ["comparison tolerance 1e-9 for capacities in tenths (1e-12 relative for capacities of very different magnitudes), exact comparison for integers", "capacities are finite"]

PATTERNS4 = ([1] * 12, [3, 1, 2, 5, 1, 4, 2, 2, 7, 1, 3, 6], [9, 9, 1, 2, 9, 3, 9, 1, 9, 9, 2, 9], [0, 2, 1, 2, 0, 3, 1, 0, 1, 2, 4, 1])


def families(tier):
    t, deep = True, tier == "thorough"

    def all_caps(n, values, orders, ends=None, scale=1, kind="words", slots=(None,)):
        for caps in product((None,) + tuple(values), repeat=n * (n - 1)):
            for order in orders:
                for slot in slots:
                    yield {"n": n, "caps": [[list(a), c] for a, c in zip(arcs(n), caps) if c is not None], "order": order, "ends": ends, "scale": scale, "names": kind,
                           "slots": slot and list(slot)}

    def arc_sets(n, patterns, orders, ends, scale=1, kind="words", step=1, slots=None):
        every = arcs(n)
        for mask in range(0, 1 << len(every), step):
            for pattern in patterns:
                for order in orders:
                    yield {"n": n, "caps": [[list(a), pattern[k % len(pattern)]] for k, a in enumerate(every) if mask >> k & 1], "order": order, "ends": ends, "scale": scale,
                           "names": kind, "slots": slots}

    def five(patterns, orders):
        """Source 0, sink 4, every set of arcs among 1, 2, 3 and of the seven arcs at the ends."""
        every = [(0, 1), (0, 2), (0, 3), (1, 4), (2, 4), (3, 4), (0, 4)] + [(u, v) for u, v in arcs(5) if u in (1, 2, 3) and v in (1, 2, 3)]
        for mask in range(1 << len(every)):
            for pattern in patterns:
                for order in orders:
                    yield {"n": 5, "caps": [[list(a), pattern[k % len(pattern)]] for k, a in enumerate(every) if mask >> k & 1], "order": order, "ends": [0, 4], "scale": 1, "names": "words",
                           "slots": None}

    def zigzag():
        """Networks on which flow must be taken back: source, two layers, sink, all bipartite middles, both directions."""
        for size in (2, 3):
            n = 2 * size + 2
            left, right = range(1, size + 1), range(size + 1, 2 * size + 1)
            middle = [(u, v) for u in left for v in right]
            for mask in range(1 << len(middle)):
                for a, b, c in ((1, 1, 1), (2, 1, 3), (3, 2, 2)) if t or size == 2 else ((1, 1, 1),):
                    caps = [[[0, u], a + u % 2] for u in left] + [[list(e), b + k % 3] for k, e in enumerate(middle) if mask >> k & 1] + [[[v, n - 1], c] for v in right]
                    caps += [[[v, u], 1] for k, (u, v) in enumerate(middle) if mask >> k & 1 and k % 2]
                    for order in ("listed", "reversed", "rotated"):
                        yield {"n": n, "caps": caps, "order": order, "ends": [0, n - 1], "scale": 1, "names": "words", "slots": None}

    def chains():
        for n in (6, 8) if not t else range(5, 13):
            forward = [[[i, i + 1], 5 - i % 3] for i in range(n - 1)]
            back = [[[i + 1, i], 2] for i in range(n - 1)]
            skip = [[[i, i + 2], 1 + i % 2] for i in range(n - 2)]
            for extra in ([], back, skip, back + skip, [[[n - 1, 0], 4]], skip + [[[n - 1, 0], 4]], skip[1:] + back[1:-1]):
                for order in ("listed", "reversed", "rotated"):
                    for ends in ([0, n - 1], [n - 1, 0], [1, n - 2]):
                        yield {"n": n, "caps": forward + extra, "order": order, "ends": ends, "scale": 1, "names": "words", "slots": None}

    def long():
        """Long networks: what cannot pass has to come back all the way; the value is certified by a cut."""
        for n in (20, 50, 90) if not deep else (16, 25, 40, 60, 90, 130):
            forward = [[[i, i + 1], 5 - i % 3] for i in range(n - 1)]
            narrow = [[[i, i + 1], 9 if i < n - 2 else 2] for i in range(n - 1)]
            back = [[[i + 1, i], 2] for i in range(n - 1)]
            skip = [[[i, i + 2], 1 + i % 2] for i in range(n - 2)]
            ring = [[[n - 1, 0], 4]]
            spread = [[[0, i], 1 + i % 4] for i in range(1, n - 1)] + [[[i, n - 1], 1 + i % 3] for i in range(1, n - 1)]
            halves = [[[0, i], 3] for i in range(1, n // 2)] + [[[i, i + n // 2 - 1], 2 + i % 2] for i in range(1, n // 2)] + [[[i + n // 2 - 1, n - 1], 1 + i % 4] for i in range(1, n // 2)]
            for caps in (forward, narrow, narrow + back, forward + back, forward + skip, forward + skip + ring, spread, spread + forward[1:-1], halves, narrow[:-1]):
                for order in ("listed", "rotated") if not deep else ("listed", "reversed", "rotated"):
                    yield {"n": n, "caps": caps, "order": order, "ends": [0, n - 1], "scale": 1, "names": "words", "slots": None}

    e3 = list(permutations(range(3)))
    orders = ("listed", "reversed", "rotated")
    fams = [("2 nodes", lambda: all_caps(2, (0, 1, 2.5), orders)), ("3 nodes", lambda: all_caps(3, (0, 1, 2, 5) if t else (0, 1, 3), ("listed", "reversed") if not t else orders)),
            ("3 nodes, set orders", lambda: all_caps(3, (1, 2), orders, None, 1, "words", e3)), ("3 nodes, tenths", lambda: all_caps(3, (1, 2, 3), ("rotated",), None, 10, "other")),
            ("4 nodes", lambda: arc_sets(4, PATTERNS4, orders if t else ("rotated",), None if t else [0, 3])), ("4 nodes, tenths", lambda: arc_sets(4, ([3, 1, 2, 6, 1, 4, 7],), ("listed",), [2, 0], 10, "other", 1 if t else 3)),
            ("5 nodes", lambda: five(([3, 2, 4, 1, 3, 2, 1, 2, 1, 3, 1, 2, 2],) if not t else ([3, 2, 4, 1, 3, 2, 1, 2, 1, 3, 1, 2, 2], [1], [2, 0, 1, 3]), ("listed",) if not t else orders)),
            ("zigzag", zigzag), ("chains", chains), ("long", long)]
    wild = ([1e9 / 7, 0.3, 1e6 + 0.3, 1 / 3, 2.2], [0.1, 1e8 / 3, 12345.678, 0.7, 1e9 / 7, 3, 0.3], [2.0 ** 40, 2.0 ** -20, 1, 2.0 ** 40 + 2.0 ** -10, 1e-12], [10 ** 17 + 1, 3, 10 ** 16 + 7, 10 ** 17, 1])
    fams += [("3 nodes, wild capacities", lambda: all_caps(3, (0.3, 1e9 / 7, 1e6 + 0.3), ("rotated",), None, 0)),
             ("4 nodes, wild capacities", lambda: arc_sets(4, wild, ("listed",) if not deep else orders, [0, 3], 0, step=3 if not deep else 1))]
    fams += [("names", lambda: renamed((c for n in (2, 3) for c in all_caps(n, (1, 3), ("listed",))), DIRECTED_NAMES)), ("names, 4 nodes", lambda: renamed(arc_sets(4, PATTERNS4[:1], ("listed",), [0, 3], step=2 if deep else 11), DIRECTED_NAMES))]
    fams += [("2 and 3 nodes, after other questions", lambda: warmed((c for n in (2, 3) for c in all_caps(n, (1, 3), ("listed",))), DIRECTED_DETOURS)),
             ("4 nodes, after other questions", lambda: warmed(arc_sets(4, PATTERNS4[:1], ("rotated",), [0, 3], step=5 if t else 41), DIRECTED_DETOURS))]
    if deep:
        fams += [("4 nodes, more capacities", lambda: all_caps(4, (1, 3), ("rotated",), [2, 1])), ("4 nodes, every end", lambda: arc_sets(4, PATTERNS4, orders, None, kind="other", slots=[2, 0, 3, 1]))]
    if t:
        fams += [("4 nodes, every capacity 1 or 2", lambda: all_caps(4, (1, 2), ("listed",), [0, 3]))]
    return fams


def ordered(items, how):
    items = list(items)
    if how == "reversed":
        return items[::-1]
    if how == "rotated":
        k = len(items) // 2
        return items[k:] + items[:k][::-1]
    return items


def run(case, ctx):
    n, scale = case["n"], case["scale"]
    capacity = {tuple(a): c for a, c in case["caps"]}
    names = named(n, case["names"], case["slots"])
    g = directed(names, ordered([(a, c if scale in (0, 1) else c / scale) for a, c in capacity.items()], case["order"]), ordered(range(n), case["order"]))
    before = (g.nodes, g.arcs, repr(getattr(g, "_arcs", None)))
    eps = 0 if scale == 1 else 1e-9
    if scale == 0:  # floating-point capacities of any magnitude, exactly as they are
        scale = 1
        capacity = {a: Fraction(c) for a, c in capacity.items()}
        eps = Fraction(max(capacity.values(), default=0)) / 10 ** 12
    slack = {a: c / 10 ** 12 if case["scale"] == 0 else eps for a, c in capacity.items()}
    for s, e in [case["ends"]] if case["ends"] else arcs(n):
        best = min_cut(n, capacity, s, e) / scale if n <= 13 else None
        for method in ("ford_fulkerson", "preflow_push"):
            value, flow = getattr(g, method)(names[s], names[e])
            ctx.call()
            if case["scale"] == 0:
                value = Fraction(value)
            check(set(flow) <= {(names[u], names[v]) for u, v in capacity}, "{} uses unknown arcs: {}", method, flow)
            net = [0] * n
            for (u, v), c in capacity.items():
                f = flow.get((names[u], names[v]), 0)
                f = Fraction(f) if case["scale"] == 0 else f
                check(-slack[u, v] <= f <= c / scale + slack[u, v], "{}: flow {} on the arc {} of capacity {}", method, f, (names[u], names[v]), c / scale)
                net[u] -= f
                net[v] += f
            for v in range(n):
                if v not in (s, e):
                    check(abs(net[v]) <= eps, "{}: {} is left at {} by {}", method, net[v], names[v], flow)
            check(abs(net[e] - value) <= eps and abs(net[s] + value) <= eps, "{}: stated value {}, the flow {} has value {}", method, value, flow, net[e])
            if best is None:  # certified: what can be reached in the residual is a cut of this capacity
                flows = {(u, v): flow.get((names[u], names[v]), 0) for u, v in capacity}
                side, stack = set(), [s]
                while stack:
                    i = stack.pop()
                    if i not in side:
                        side.add(i)
                        stack.extend(v for (u, v), f in flows.items() if u == i and f < capacity[u, v])
                        stack.extend(u for (u, v), f in flows.items() if v == i and f > 0)
                check(e not in side, "{} from {} to {}: the flow of value {} can be increased", method, names[s], names[e], value)
            else:
                check(abs(value - best) <= eps, "{} from {} to {}: value {}, the minimum cut is {}", method, names[s], names[e], value, best)
            ctx.state(n, sorted(capacity.items()), s, e, method, case["order"])
    check((g.nodes, g.arcs, repr(getattr(g, "_arcs", None))) == before, "the digraph was changed")
    if n <= 3:
        for method in (g.ford_fulkerson, g.preflow_push):
            for a, b in ((names[0], "zz"), ("zz", names[0]), (names[0], names[0])):
                check(raises(ValueError, method, a, b), "source {} and sink {} were accepted", a, b)
                ctx.call()
