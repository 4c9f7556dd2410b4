from fractions import Fraction as F
from itertools import permutations, product

from .. import lpref, stub
from ..core import check
from ..graphs import distances, named, pairs, renamed, shape, structured, undirected, warmed
from ..lputil import from_lp

TITLE = "formulate_shortest_path()"
BOUNDS = ("Every labelled graph with an edge and 2 to 4 vertices (thorough: 5), every ordered pair of distinct vertices, weight assignments from lists (zeros, "
          "ties, tenths, distinct), vertex insertion orders and set iteration orders; rows and columns are compared with all separating vertex "
          "sets and the exact optimum of the formulated program with the shortest distance (infeasible when no path joins the two). Small graphs also with names of up to nine alphabets (blanks, for digraphs the empty name, names that run together, punctuation, digits, upper case, long names, last characters), and by eleven detours (something missing, surplus, different or of other weight, then corrected; another graph first) with every query asked before the change.")
ASSUMPTIONS = ["on 5 and 6 vertices the optimum is implied by the rows, columns and costs being those of the cut covering program, which is checked; it is "
               "computed exactly up to 4 vertices"]


def families(tier):
    t, deep = True, tier == "thorough"

    def graphs(n, patterns, orders, scale=1, kind="words", solve=True, slots=(None,), step=1):
        ps = pairs(n)
        for mask in range(0, 1 << len(ps), step):
            chosen = [k for k in range(len(ps)) if mask >> k & 1]
            if not chosen:
                continue  # no edges, no variables: there is no such linear program
            for pattern in patterns:
                for order in orders:
                    for slot in slots:
                        yield {"n": n, "edges": [[list(ps[k]), pattern[k % len(pattern)]] for k in chosen], "order": list(order), "slots": slot and list(slot),
                               "scale": scale, "names": kind, "solve": solve}

    def assignments(n, values):
        for weights in product(values, repeat=len(pairs(n))):
            yield from graphs(n, [weights], [tuple(range(n))])

    def long(sizes=(6, 7, 8)):
        for name, n in structured(sizes):
            edges = shape(name, n)
            if edges:
                for order in (list(range(n)), list(range(n))[::-1]):
                    yield {"n": n, "edges": [[list(e), 3 + 2 * k] for k, e in enumerate(edges)], "order": order, "slots": None, "scale": 1, "names": "words", "solve": False}

    e3, e4, e5 = list(permutations(range(3))), list(permutations(range(4))), list(permutations(range(5)))
    fams = [("2 vertices", lambda: graphs(2, [[0], [1], [2.5]], [(0, 1), (1, 0)])), ("3 vertices", lambda: assignments(3, (0, 1, 3))),
            ("3 vertices, orders", lambda: graphs(3, [[2, 3, 7]], e3, slots=e3)),
            ("4 vertices", lambda: graphs(4, [[5, 3, 11, 7, 13, 2], [1], [0, 2, 5, 1, 0, 3], [1, 6, 2, 1, 9, 3]], e4[::4] if t else e4[::11], slots=e4[::8])),
            ("4 vertices, tenths", lambda: graphs(4, [[1, 2, 3, 7, 4, 6], [3, 3, 1, 2, 1, 6]], [(2, 0, 3, 1)], 10, "other")),
            ("5 vertices, structure", lambda: graphs(5, [[5, 3, 11, 7, 13, 2, 17, 19, 1, 23]], e5[::37] if t else [e5[77]], solve=False, step=1 if t else 3))]
    fams += [("names", lambda: renamed(assignments(3, (1, 3)))), ("names, 4 vertices", lambda: renamed(graphs(4, [[5, 3, 11, 7, 13, 2]], [(2, 0, 3, 1)])))]
    fams += [("3 vertices, after other questions", lambda: warmed(assignments(3, (0, 1, 3)))),
             ("4 vertices, after other questions", lambda: warmed(graphs(4, [[5, 3, 11, 7, 13, 2]], [(0, 1, 2, 3), (2, 3, 1, 0)])))]
    fams += [("4 vertices, small fractions", lambda: (c for scale in (1000, 100000) for c in graphs(4, [[1, 20, 301, 1234, 2345, 999], [100001, 7, 30000, 12, 5, 1]], [(2, 0, 3, 1)], scale, "other"))),
             ("4 vertices, large", lambda: graphs(4, [[10 ** 6, 3, 2 * 10 ** 6 + 1, 10 ** 5, 70000, 12]], [(2, 0, 3, 1)])),
             ("7 and 8 vertices, structure", long)]
    if deep:
        fams += [("6 vertices, more structure", lambda: graphs(6, [[5, 3, 11, 7, 13, 2, 17, 19, 1, 23, 29, 31, 37, 41, 43]], [(0, 2, 1, 5, 4, 3)], solve=False, step=7)),
                 ("9 and 10 vertices, structure", lambda: long((9, 10)))]
    if t:
        fams += [("4 vertices, all weights", lambda: assignments(4, (0, 1, 3))),
                 ("6 vertices, structure", lambda: graphs(6, [[5, 3, 11, 7, 13, 2, 17, 19, 1, 23, 29, 31, 37, 41, 43]], [(3, 5, 0, 4, 1, 2)], solve=False, step=61))]
    return fams


def run(case, ctx):
    stub.fast_steps()
    n, scale = case["n"], case["scale"]
    weights = {tuple(e): w for e, w in case["edges"]}
    names = named(n, case["names"], case["slots"])
    g = undirected(names, [(e, w if scale == 1 else w / scale) for e, w in weights.items()], None, case["order"], flip=True)
    before = (g.vertices, g.edges, g.graph)
    distinct = len(set(weights.values())) == len(weights)
    for s in range(n):
        d = distances(n, weights, s)
        for e in range(n):
            if e == s:
                continue
            lp = g.formulate_shortest_path(names[s], names[e])
            ctx.call()
            p = from_lp(lp)
            D = p["D"]
            check(p["obj"] == "min" and p["z"] == 0, "objective {} with constant {}", p["obj"], p["z"])
            check(set(p["rel"]) == {">="} and set(p["sign"]) == {"+"}, "rows {} and signs {}", p["rel"], p["sign"])
            check(set(p["b"]) == {D}, "right sides {}", lp.b)
            costs = [F(v, D) for v in p["c"]]
            check(sorted(costs) == sorted(F(str(w)) / scale for w in weights.values()), "costs {}", lp.c)
            rows = [frozenset(j for j, v in enumerate(r) if v) for r in p["A"]]
            check(all(v in (0, D) for r in p["A"] for v in r), "coefficients {}", lp.A)
            rest = [v for v in range(n) if v not in (s, e)]
            sides = [{s} | {v for k, v in enumerate(rest) if m >> k & 1} for m in range(1 << len(rest))]
            check(len(rows) == len(sides), "{} rows for {} separating sets", len(rows), len(sides))
            ctx.state(n, sorted(weights.items()), s, e)
            if distinct:
                column = {edge: costs.index(F(str(w)) / scale) for edge, w in weights.items()}
                wanted = sorted(sorted(column[u, v] for u, v in weights if (u in side) != (v in side)) for side in sides)
                check(sorted(map(sorted, rows)) == wanted, "rows {} instead of {}", sorted(map(sorted, rows)), wanted)
            if case["solve"]:
                verdict, value = lpref.status(p)
                ctx.note("optima")
                if d[e] is None or d[e] == float("inf"):
                    check(verdict == "infeasible", "no path, but the program is {} {}", verdict, value)
                else:
                    check(verdict == "optimal" and value == F(str(d[e])) / scale, "the optimum is {} {}, the distance is {}", verdict, value, d[e])
    check((g.vertices, g.edges, g.graph) == before, "the graph was changed")
