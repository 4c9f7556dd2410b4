from itertools import permutations

from ..core import check
from ..graphs import PRINTABLE, case_graph, named, pairs, renamed, structured, undirected, warmed
from ..lputil import raises

TITLE = "the printed undirected graph"
BOUNDS = ("Every labelled graph with 0 to 4 vertices (thorough: 5), every vertex insertion order and set iteration order up to 3 vertices (lists beyond), edges "
          "given in both directions, structured graphs with up to 70 vertices (a vertex with 69 neighbours among them); printed after building, after every single change (edge added, removed, reweighted, "
          "vertex added, refused operation) and again; the text is read back and compared with the abstract graph. Small graphs also with names of five alphabets (names that run together, digits, upper case, long names), and by eleven detours (something missing, surplus, different or of other weight, then corrected; another graph first) with every query asked before the change.")
ASSUMPTIONS = ["names without dashes, colons and line ends", "weights need not be printed"]


def families(tier):
    t, deep = True, tier == "thorough"

    def graphs(n, orders, slots, kind="words"):
        for mask in range(1 << len(pairs(n))):
            for order in orders:
                for slot in slots:
                    yield {"n": n, "mask": mask, "order": list(order), "slots": slot and list(slot), "names": kind}

    e3, e4, e5 = (list(permutations(range(k))) for k in (3, 4, 5))
    fams = [(f"{n} vertices", lambda n=n: graphs(n, list(permutations(range(n))), list(permutations(range(n))), "other" if n == 2 else "words")) for n in (0, 1, 2, 3)]
    fams += [("4 vertices", lambda: graphs(4, e4 if t else e4[::5], e4 if t else e4[::7] + [None], "words")), ("4 vertices, names", lambda: graphs(4, e4[::9], [None], "other")),
             ("5 vertices", lambda: graphs(5, e5[::31] if t else [e5[77]], e5[::31] if t else [e5[50]])),
             ("structured", lambda: ({"n": n, "shape": s, "order": list(range(n))[::step], "slots": None, "names": "words"} for s, n in structured((*range(6, 15), 20, 31, 45, 70) if not deep else range(6, 80)) for step in (1, -1)))]
    fams += [("names", lambda: renamed((c for n in (1, 2, 3, 4) for c in graphs(n, [tuple(range(n))], [None])), PRINTABLE))]
    fams += [("up to 3 vertices, after other questions", lambda: warmed((c for n in (1, 2, 3) for c in graphs(n, list(permutations(range(n)))[:3], [None])))),
             ("4 vertices, after other questions", lambda: warmed(graphs(4, [(2, 0, 3, 1)], [None, (2, 0, 3, 1)])))]
    if deep:
        fams += [("5 vertices, more orders", lambda: graphs(5, e5[::11], e5[::13])), ("6 vertices", lambda: graphs(6, [(3, 5, 0, 4, 1, 2)], [None]))]
    return fams


def judge(g, names, vertices, edges, ctx, what):
    """The printed lines are exactly the vertices with their neighbours."""
    text = str(g)
    ctx.call()
    check(text == repr(g), "{}: str and repr differ", what)
    lines = text.split("\n") if text else []
    got = {}
    for line in lines:
        check(line.count(":") == 1, "{}: line {!r}", what, line)
        name, rest = line.split(":")
        check(name.strip() not in got, "{}: two lines for {}", what, name)
        got[name.strip()] = rest.strip().split("-") if rest.strip() else []
    want = {names[v]: sorted(str(names[u]) for e in edges if v in e for u in e if u != v) for v in vertices}
    check({k: sorted(v) for k, v in got.items()} == {str(k): v for k, v in want.items()}, "{}: printed as {!r}, the graph is {}", what, text, want)


def run(case, ctx):
    n, edges = case_graph(case)
    edges = [tuple(e) for e in edges]
    names = named(n, case["names"], case["slots"])
    build = lambda: undirected(names, [(e, k % 3) for k, e in enumerate(edges)], [k % 2 for k in range(n)], case["order"], flip=True)
    g = build()
    ctx.state(n, edges, case["order"], case["slots"])
    table = {v: set(c) for v, c in g.graph.items()}
    judge(g, names, range(n), edges, ctx, "built")
    judge(g, names, range(n), edges, ctx, "printed again")
    judge(g.copy(), names, range(n), edges, ctx, "copied")
    check({v: set(c) for v, c in g.graph.items()} == table, "printing changed the graph")
    other = undirected(named(n, case["names"]), [(e, 1) for e in edges[::-1]], None, None)
    check(str(other) == str(g), "the same graph, built in another order, is printed as {!r} instead of {!r}", str(other), str(g))
    all_pairs = pairs(n) if n <= 5 else edges[:3] + [(0, n - 1), (1, n - 1)]
    for e in all_pairs:
        u, v = (names[e[0]], names[e[1]]) if (e[0] + e[1]) % 2 else (names[e[1]], names[e[0]])
        h = build()
        if e in edges:
            check(raises(ValueError, h.add_edge, (u, v), 1), "an edge was added twice")
            judge(h, names, range(n), edges, ctx, "after a refused edge")
            h.set_edge_weight((u, v), 7)
            judge(h, names, range(n), edges, ctx, "after setting a weight")
            h.remove_edge((u, v))
            judge(h, names, range(n), [f for f in edges if f != e], ctx, f"after removing {u, v}")
            h.add_edge((v, u), 1)
            judge(h, names, range(n), edges, ctx, f"after adding {v, u} again")
        else:
            h.add_edge((u, v), 2)
            judge(h, names, range(n), edges + [e], ctx, f"after adding {u, v}")
            h.remove_edge((v, u))
            judge(h, names, range(n), edges, ctx, f"after removing {v, u} again")
    g.add_vertex("zz", 3)
    judge(g, list(names) + ["zz"], range(n + 1), edges, ctx, "after adding a vertex")
    if n:
        g.add_edge(("zz", names[0]))
        judge(g, list(names) + ["zz"], range(n + 1), edges + [(0, n)], ctx, "after connecting it")
