from itertools import permutations, product
from math import inf

from ..core import check
from ..graphs import distances, named, pairs, renamed, shape, structured, undirected, warmed
from ..lputil import raises

TITLE = "shortest_path()"
BOUNDS = ("Every graph with up to 4 vertices and every edge absent or of weight 0/1/2 (thorough: 0/1/2/5), every ordered pair of vertices, every set iteration "
          "order (quick: six of them with 4 vertices); 5 vertices with every edge absent or of weight 1/3 (quick: a fixed sub-lattice), 5 and 6 "
          "vertex structured graphs with every weight assignment from a list; structured graphs with up to 130 vertices (beyond 30: from three vertices); tenths, hundredths, hundred thousandths, mixed magnitudes, weights down to 1e-200. Small graphs also with names of up to nine alphabets (blanks, for digraphs the empty name, names that run together, punctuation, digits, upper case, long names, last characters), and by eleven detours (something missing, surplus, different or of other weight, then corrected; another graph first) with every query asked before the change.")
ASSUMPTIONS = ["the iteration order of a set of names is permuted through the hashes of the names"]


def families(tier):
    t, deep = True, tier == "thorough"

    def graphs(n, values, slot_orders, scale=1, kind="words"):
        for weights in product((None,) + tuple(values), repeat=n * (n - 1) // 2):
            for slots in slot_orders:
                yield {"n": n, "w": list(weights), "slots": slots and list(slots), "scale": scale, "names": kind}

    def ladder():
        for name in ("cycle", "grid", "tail", "complete"):
            for n in (5, 6) if not t else (5, 6, 7):
                edges = shape(name, n)
                if len(edges) > 10:
                    continue
                for values in product((0, 1, 4), repeat=len(edges)) if len(edges) < (7 if not t else 9) else product((1, 3), repeat=len(edges)):
                    yield {"n": n, "edges": [[list(e), w] for e, w in zip(edges, values)], "slots": None, "scale": 1, "names": "other" if n < 7 else "words"}

    def sparse5():
        edges = pairs(5)
        for mask in range(1 << 10):
            for pattern in ([1, 3, 2, 7, 4, 1, 1, 5, 0, 2], [2, 2, 2, 2, 2, 2, 2, 2, 2, 2], [9, 1, 5, 1, 1, 8, 4, 1, 7, 1], [0, 6, 0, 3, 1, 0, 2, 5, 1, 0]):
                yield {"n": 5, "w": [pattern[k] if mask >> k & 1 else None for k in range(10)], "slots": None, "scale": 1, "names": "words"}

    def long():
        for name, n in structured((7, 8, 9, 11, 12, 15, 16, 20) if not deep else range(7, 31), (("path", 30), ("cycle", 25))):
            for pattern in ([3, 1, 4, 1, 5, 9, 2, 6], [1], [2, 7, 0, 5, 0, 1, 8], [11, 12, 13]):
                yield {"n": n, "edges": [[list(e), pattern[k % len(pattern)]] for k, e in enumerate(shape(name, n))], "slots": [(5 * i + 3) % 64 for i in range(n)], "scale": 1, "names": "words"}

    def longer():
        """Graphs beyond every small number; the distances from three vertices."""
        for name, n in structured((40,) if not deep else (40, 64, 100), (("path", 130), ("tree", 130), ("cycle", 101), ("grid", 70))):
            if name not in ("complete", "empty", "matching"):
                for pattern, scale in (([3, 1, 4, 1, 5, 9, 2, 6], 1), ([1, 10, 2, 7, 0, 5], 10), ([7, 3, 1, 8], 10 ** 12)):
                    yield {"n": n, "edges": [[list(e), pattern[k % len(pattern)]] for k, e in enumerate(shape(name, n))], "slots": None, "scale": scale, "names": "words", "starts": [0, n // 2, n - 1]}

    e3, e4 = list(permutations(range(3))), list(permutations(range(4)))
    fams = [("1 and 2 vertices", lambda: (c for n in (1, 2) for c in graphs(n, (0, 1, 2.5), [None]))), ("3 vertices", lambda: graphs(3, (0, 1, 2, 3), e3)),
            ("3 vertices, tenths", lambda: graphs(3, (1, 2, 3, 7), e3[::2], 10, "other")), ("3 vertices, magnitudes", lambda: graphs(3, (1, 10 ** 6, 10 ** 6 + 1), e3[::2])),
            ("4 vertices", lambda: graphs(4, (0, 1, 2), e4 if t else e4[::8])), ("4 vertices, tenths", lambda: graphs(4, (1, 2, 3), e4[::4] if t else [e4[9]], 10, "other")),
            ("4 vertices, hundredths", lambda: graphs(4, (4, 16, 25, 36) if t else (4, 16, 25), [e4[13]], 100)),
            ("4 vertices, hundred thousandths", lambda: graphs(4, (1, 3, 100000), [e4[5]], 100000)), ("5 vertices, patterns", sparse5), ("structured", ladder)]
    fams += [("names", lambda: renamed((c for n in (1, 2, 3) for c in graphs(n, (0, 1, 3), [None])))), ("names, 4 vertices", lambda: renamed(graphs(4, (1, 3), [None]), step=1 if deep else 3)),
             ("names, 5 vertices", lambda: renamed(sparse5(), step=7 if deep else 29))]
    fams += [("up to 3 vertices, after other questions", lambda: warmed((c for n in (1, 2, 3) for c in graphs(n, (0, 1, 3), [None])))),
             ("4 vertices, after other questions", lambda: warmed(graphs(4, (1, 3), [None]), step=1 if t else 4))]
    fams += [("3 vertices, long", lambda: graphs(3, (1, 10 ** 10, 10 ** 10 + 1, 10 ** 15), [None, (2, 0, 1)])), ("4 vertices, long", lambda: graphs(4, (2 * 10 ** 9, 5 * 10 ** 9), [e4[13]])),
             ("7 to 30 vertices", long)]
    fams += [("3 vertices, tiny", lambda: (c for scale in (10 ** 8, 10 ** 12, 10 ** 20, 10 ** 200) for c in graphs(3, (1, 3, 7, 10), [None], scale))),
             ("4 vertices, tiny", lambda: graphs(4, (1, 3, 7), [e4[13]], 10 ** 12)), ("40 to 130 vertices", longer)]
    if deep:
        fams += [("5 vertices, three weights", lambda: graphs(5, (0, 1, 3), [None])), ("5 vertices, ties", lambda: graphs(5, (1, 2), [(4, 0, 3, 1, 2)]))]
    if t:
        fams += [("4 vertices, four weights", lambda: graphs(4, (0, 1, 2, 5), e4[::6])), ("5 vertices", lambda: graphs(5, (1, 3), [None])),
                 ("5 vertices, zero and one", lambda: graphs(5, (0, 1), [(3, 1, 4, 0, 2)]))]
    return fams


def run(case, ctx):
    n, scale = case["n"], case["scale"]
    if "edges" in case:
        weights = {tuple(e): w for e, w in case["edges"]}
    else:
        weights = {e: w for e, w in zip(pairs(n), case["w"]) if w is not None}
    real = {e: w if scale == 1 else w / scale for e, w in weights.items()}
    names = named(n, case["names"], case["slots"])
    g = undirected(names, list(real.items()), flip=True)
    before = (g.vertices, g.edges, g.graph)
    for s in case.get("starts") or range(n):
        d = distances(n, weights, s)
        for e in range(n):
            ctx.call()
            if d[e] == inf:
                check(raises(ValueError, g.shortest_path, names[s], names[e]), "a path from {} to the unreachable {}", names[s], names[e])
                continue
            path = list(g.shortest_path(names[s], names[e]))
            ctx.state(sorted(weights.items()), s, e)
            if s == e:
                check(path == [], "the path from {} to itself is {}", names[s], path)
                continue
            current, total = s, 0
            for edge in path:
                check(len(edge) == 2 and set(edge) <= set(names), "unknown edge {}", edge)
                u, v = names.index(edge[0]), names.index(edge[1])
                if v == current:
                    u, v = v, u
                check(u == current, "the path {} from {} is not connected", path, names[s])
                w = weights.get((min(u, v), max(u, v)))
                check(w is not None, "the path {} uses the missing edge {}", path, edge)
                total += w
                current = v
            check(current == e, "the path {} does not end in {}", path, names[e])
            check(total == d[e], "the path {} has length {}, the distance is {}", path, total, d[e])
    for a, b in ((names[0], "zz"), ("zz", names[0]), ("zz", "zz")):
        check(raises(ValueError, g.shortest_path, a, b), "unknown vertices were accepted")
        ctx.call()
    check((g.vertices, g.edges, g.graph) == before, "the graph was changed")
