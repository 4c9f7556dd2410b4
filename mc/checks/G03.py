from itertools import permutations, product

from ..core import check
from ..graphs import case_graph, components, named, pairs, renamed, structured, undirected, warmed

TITLE = "is_connected(), is_cyclic(), is_tree(), has_spanning_tree(), partition()"
BOUNDS = ("Every labelled graph with up to 4 vertices under every iteration order of sets of vertices (every assignment of hash slots) and every vertex "
          "insertion order, in both edge orders; every labelled graph with 5 (thorough: 6) vertices under a fixed list of orders; all built through the "
          "public operations, after detours (edges added and removed again) as well; eleven structured families up to 24 vertices and with 1500 vertices. Small graphs also with names of up to nine alphabets (blanks, for digraphs the empty name, names that run together, punctuation, digits, upper case, long names, last characters), and by eleven detours (something missing, surplus, different or of other weight, then corrected; another graph first) with every query asked before the change.")
ASSUMPTIONS = ["the iteration order of a set of names is permuted through the hashes of the names"]


def families(tier):
    t, deep = True, tier == "thorough"

    def graphs(n, orders, slot_orders, variants):
        ps = pairs(n)
        for mask in range(1 << len(ps)):
            for order in orders:
                for slots in slot_orders:
                    for variant in variants:
                        yield {"n": n, "mask": mask, "order": list(order), "slots": slots and list(slots), "variant": variant}

    fams = []
    for n in range(0, 5):
        every = list(permutations(range(n)))
        few = every if n < 4 or t else every[::5]
        fams.append((f"{n} vertices", lambda n=n, every=every, few=few: graphs(n, every, few, (0, 1))))
    e5 = list(permutations(range(5)))
    fams.append(("5 vertices", lambda: graphs(5, e5[::17 if t else 60], e5[::23 if t else 50], (0, 1) if t else (0,))))
    fams.append(("string names, 5 vertices", lambda: graphs(5, [(3, 1, 4, 0, 2)], [None], (2, 3))))
    def shaped():
        for name, n in structured((6, 7, 9, 12) if not t else range(6, 25), (("path", 1500), ("cycle", 1500), ("tail", 1500), ("star", 1200), ("tree", 1500))):
            for order in (list(range(n)), list(reversed(range(n))), [(7 * i) % n for i in range(n)]):
                if len(set(order)) == n:
                    for slots in (None, [(5 * i + 3) % 64 for i in range(n)]) if n < 50 else (None,):
                        for variant in (0, 1):
                            yield {"n": n, "shape": name, "order": order, "slots": slots, "variant": variant}

    fams.append(("structured", shaped))
    fams += [("names", lambda: renamed((c for n in (1, 2, 3, 4) for c in graphs(n, [tuple(range(n))], [None], (0, 3))))),
             ("names, 5 vertices", lambda: renamed(graphs(5, [(3, 1, 4, 0, 2)], [None], (2,)), step=1 if deep else 7))]
    fams += [("up to 3 vertices, after other questions", lambda: warmed((c for n in (1, 2, 3) for c in graphs(n, list(permutations(range(n))), [None], (0,))))),
             ("4 vertices, after other questions", lambda: warmed(graphs(4, [(0, 1, 2, 3), (2, 3, 1, 0)], [None, (2, 0, 3, 1)], (0, 1) if t else (0,)))),
             ("5 vertices, after other questions", lambda: warmed(graphs(5, [(3, 1, 4, 0, 2)], [None], (0,)), step=1 if t else 5))]
    if deep:
        fams.append(("5 vertices, every order", lambda: graphs(5, e5[::4], e5[::13], (0, 1))))
        fams.append(("6 vertices, detours", lambda: graphs(6, [(5, 1, 3, 0, 2, 4)], [None, (0, 3, 1, 4, 2, 5)], (1, 3))))
    if t:
        fams.append(("6 vertices", lambda: graphs(6, [(0, 1, 2, 3, 4, 5), (4, 2, 0, 5, 3, 1)], [(5, 3, 4, 1, 0, 2)], (0,))))
    return fams


def run(case, ctx):
    n, plain = case_graph(case)
    edges = [(e, 3 + (u * u + 5 * v)) for e in plain for u, v in [e]]
    if case["variant"] & 1:
        edges.reverse()
    names = named(n, slots=case["slots"])
    weights = [7 * i % 5 for i in range(n)]
    g = undirected(names, edges, weights, case["order"], flip=case["variant"] > 0)
    if case["variant"] == 3:  # a detour: every missing edge added and removed again
        for u, v in pairs(n):
            if (u, v) not in plain:
                g.add_edge((names[v], names[u]), 1)
                g.remove_edge((names[u], names[v]))
    parts = components(n, [e for e, _ in edges])
    connected = len(parts) == 1
    cyclic = len(edges) > n - len(parts)
    ctx.state(n, plain)
    for _ in (0, 1):
        check(bool(g.is_connected()) == connected, "is_connected is {}", g.is_connected())
        check(bool(g.has_spanning_tree()) == connected, "has_spanning_tree is {}", g.has_spanning_tree())
        check(bool(g.is_cyclic()) == cyclic, "is_cyclic is {}", g.is_cyclic())
        check(bool(g.is_tree()) == (connected and not cyclic), "is_tree is {}", g.is_tree())
        ctx.call(4)
    subgraphs = g.partition()
    ctx.call()
    index = {name: i for i, name in enumerate(names)}
    got = []
    for s in subgraphs:
        members = frozenset(index[v] for v in s.vertices)
        got.append(members)
        check(dict(s.vertices) == {names[i]: weights[i] for i in members}, "a part has the vertices {}", s.vertices)
        mine = {frozenset((names[u], names[v])): w for (u, v), w in edges if u in members}
        check({frozenset(e): w for e, w in s.edges.items()} == mine and len(s.edges) == len(mine), "a part has the edges {}", s.edges)
        check({v: set(c) for v, c in s.graph.items()} == {names[i]: {u for e in mine if names[i] in e for u in e if u != names[i]} for i in members},
              "a part has the adjacency {}", s.graph)
        for e, w in mine.items():
            u, v = tuple(e)
            check(s.has_edge((u, v)) and s.has_edge((v, u)) and s.get_edge_weight((v, u)) == w, "the edge {} of a part is unusable", (u, v))
        check(s.is_connected(), "a part is not connected")
    check(set(got) == parts and len(got) == len(parts), "parts {} instead of {}", [sorted(p) for p in got], [sorted(p) for p in parts])
    # the parts are self-contained: changing one changes nothing else
    before = (g.vertices, g.edges, g.graph)
    for k, s in enumerate(subgraphs):
        if k > 8:
            break
        others = [(o.vertices, o.edges, o.graph) for j, o in enumerate(subgraphs) if j != k]
        first = next(iter(s.vertices))
        s.add_edge((first, "extra"), 1)
        s.set_vertex_weight(first, 99)
        check((g.vertices, g.edges, g.graph) == before, "changing a part changed the graph")
        check([(o.vertices, o.edges, o.graph) for j, o in enumerate(subgraphs) if j != k] == others, "changing a part changed another part")
        check(s.has_edge(("extra", first)), "a part cannot be extended")
