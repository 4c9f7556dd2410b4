from itertools import combinations, permutations, product

from .. import stub
from ..core import check
from ..graphs import case_graph, named, pairs, renamed, structured, undirected, warmed

TITLE = "formulate_max_stable_set()"
BOUNDS = ("Every labelled graph with 1 to 4 vertices (thorough: 5), vertex weights from lists (all assignments of 0/1/3 up to 3 vertices), insertion and set "
          "iteration orders; structured graphs with up to 33 vertices (every set of up to two vertices, stable sets that grow from every vertex and their extensions by one; branch and bound up to 25 vertices); for the others every point over {0, 1, 2} is evaluated against the rows, and the program is solved by branch and bound and compared with "
          "the enumerated maximum. Small graphs also with names of up to nine alphabets (blanks, for digraphs the empty name, names that run together, punctuation, digits, upper case, long names, last characters), and by eleven detours (something missing, surplus, different or of other weight, then corrected; another graph first) with every query asked before the change.")
ASSUMPTIONS = ["comparison tolerance 1e-6"]


def families(tier):
    t, deep = True, tier == "thorough"

    def graphs(n, weights, orders, slots=(None,), kind="words", step=1):
        for mask in range(0, 1 << len(pairs(n)), step):
            for w in weights:
                for order in orders:
                    for slot in slots:
                        yield {"n": n, "mask": mask, "w": list(w), "order": list(order), "slots": slot and list(slot), "names": kind}

    e3, e4 = list(permutations(range(3))), list(permutations(range(4)))
    fams = [(f"{n} vertices", lambda n=n: graphs(n, list(product((0, 1, 3), repeat=n)), list(permutations(range(n)))[:4], [None])) for n in (1, 2, 3)]
    fams += [("3 vertices, set orders", lambda: graphs(3, [(2, 3, 4)], e3, e3)),
             ("4 vertices", lambda: graphs(4, [(1, 1, 1, 1), (2, 3, 4, 5), (0, 7, 1, 1), (0.5, 0.3, 0.7, 0.4)], e4 if t else [e4[13]], [None], "other")),
             ("5 vertices", lambda: graphs(5, [(1, 1, 1, 1, 1), (4, 2, 3, 1, 2)] if t else [(4, 2, 3, 1, 2)], [(2, 4, 0, 3, 1)], [None], step=1 if t else 3))]
    fams += [("names", lambda: renamed((c for n in (1, 2, 3) for c in graphs(n, [(1, 3, 2)[:n]], [tuple(range(n))], [None])))),
             ("names, 4 vertices", lambda: renamed(graphs(4, [(2, 3, 4, 5)], [(2, 0, 3, 1)], [None])))]
    fams += [("up to 3 vertices, after other questions", lambda: warmed((c for n in (1, 2, 3) for c in graphs(n, [(1, 3, 2)[:n], (2, 2, 2)[:n]], [tuple(range(n))[::-1]], [None])))),
             ("4 vertices, after other questions", lambda: warmed(graphs(4, [(2, 3, 4, 5)], e4[::11], [None])))]
    if deep:
        fams += [("5 vertices, more weights", lambda: graphs(5, [(0, 1, 2, 1, 3), (5, 1, 1, 1, 1), (0.5, 0.3, 0.7, 0.4, 0.2)], [(0, 1, 2, 3, 4), (4, 1, 3, 0, 2)], [None])),
                 ("6 vertices", lambda: graphs(6, [(1, 1, 1, 1, 1, 1), (4, 2, 3, 1, 2, 3)], [(2, 4, 0, 5, 3, 1)], [None], step=3))]
    def many():
        for name, n in structured((10, 12, 13, 16, 20, 25, 33) if not deep else range(7, 41)):
            for pattern in ([1], [2, 3, 1, 5], [4, 0.5, 3, 3, 0, 7, 1]):
                yield {"n": n, "shape": name, "w": [pattern[k % len(pattern)] for k in range(n)], "order": list(range(n))[::-1 if len(pattern) == 4 else 1], "slots": None, "names": "words", "many": True}

    fams += [("many vertices", many)]
    if t:
        fams += [("4 vertices, all weights", lambda: graphs(4, list(product((0, 1, 3), repeat=4)), [(2, 0, 3, 1)]))]
    return fams


def best_stable(n, edges, w):
    """The largest weight of a stable set, by branching on a vertex of largest degree."""
    near = [set() for _ in range(n)]
    for u, v in edges:
        near[u].add(v)
        near[v].add(u)

    def best(rest):
        if not rest:
            return 0
        v = max(rest, key=lambda i: (len(near[i] & rest), -i))
        if not near[v] & rest:
            return sum(w[i] for i in rest)
        if len(near[v] & rest) <= 2:  # paths and cycles: solve one component after the other
            part, stack = set(), [v]
            while stack:
                i = stack.pop()
                if i not in part:
                    part.add(i)
                    stack.extend(near[i] & rest)
            if len(part) < len(rest):
                return best(frozenset(part)) + best(rest - part)
        if rest not in known:
            known[rest] = max(w[v] + best(rest - near[v] - {v}), best(rest - {v}))
        return known[rest]

    known = {}
    return best(frozenset(range(n)))


def many_vertices(n, edges, w, place, holds_at, c, z, ip, ctx):
    """Every set of up to two vertices, every stable set that grows from a vertex, each of them with one vertex more."""
    adjacent = {frozenset(e) for e in edges}

    def point_of(chosen, value=1):
        point = [0] * n
        for i in chosen:
            point[place[i]] = value
        return point

    def judge(chosen):
        stable = not any(frozenset(p) in adjacent for p in combinations(chosen, 2))
        point = point_of(chosen)
        check(holds_at(point) == stable, "the set {} is {}feasible", sorted(chosen), "not " if stable else "")
        check(abs(sum(p * v for p, v in zip(point, c)) + z - sum(w[i] for i in chosen)) < 1e-9, "the set {} has the wrong value", sorted(chosen))
        ctx.call()
        return stable

    ctx.state(n, edges, w)
    for size in (0, 1, 2):
        for chosen in combinations(range(n), size):
            judge(chosen)
    for i in range(n):
        check(not holds_at(point_of([i], 2)), "a vertex may be chosen twice")
    for start in range(n):
        for step in (1, -1):
            chosen = [start]
            for v in range(n)[::step]:
                if v not in chosen and not any(frozenset((v, u)) in adjacent for u in chosen):
                    chosen.append(v)
            judge(chosen)
            for v in range(n)[::5]:
                if v not in chosen:
                    judge(chosen + [v])
    if n > 25 or len(edges) > 80:
        return
    x = ip.branch_and_bound()
    ctx.call()
    check(x is not None and len(x) == n, "branch and bound returned {}", x)
    check(all(min(abs(float(v)), abs(float(v) - 1)) < 1e-6 for v in x), "branch and bound returned {}, not a set", x)
    chosen = [i for i in range(n) if float(x[place[i]]) > 0.5]
    check(judge(chosen), "branch and bound returned {}, not a stable set", chosen)
    best = best_stable(n, edges, w)
    check(abs(sum(w[i] for i in chosen) - best) < 1e-6, "branch and bound returned {}, a better set has weight {}", chosen, best)


def run(case, ctx):
    stub.fast_steps()
    n, edges = case_graph(case)
    names = named(n, case["names"], case["slots"])
    w = case["w"]
    g = undirected(names, [(e, 2) for e in edges], w, case["order"], flip=True)
    before = (g.vertices, g.edges, g.graph)
    ip, mapping = g.formulate_max_stable_set()
    ctx.call()
    check((g.vertices, g.edges, g.graph) == before, "the graph was changed")
    check(set(mapping) == set(names) and sorted(mapping.values()) == list(range(n)), "mapping {}", mapping)
    A, b, c, z = [[float(v) for v in r] for r in ip.A], [float(v) for v in ip.b], [float(v) for v in ip.c], float(ip.z)
    check(ip.objective == "max" and len(c) == n and not ip.free_variables and not ip.negative_variables, "objective {}, {} variables", ip.objective, len(c))
    best = 0
    holds_at = lambda point: all({"<=": lambda s, v: s <= v, ">=": lambda s, v: s >= v, "=": lambda s, v: s == v}[rel](sum(p * a for p, a in zip(point, r)), v)
                                 for r, rel, v in zip(A, ip.inequalities, b))
    if "many" in case:
        return many_vertices(n, edges, w, [mapping[v] for v in names], holds_at, c, z, ip, ctx)
    for point in product((0, 1, 2), repeat=n):
        if 2 in point:
            check(not holds_at(point), "the point {} is feasible although it is no set", point)
    ctx.call()
    stable_sets = set()
    for point in product((0, 1), repeat=n):
        chosen = {i for i in range(n) if point[mapping[names[i]]]}
        holds = holds_at(point)
        stable = not any(u in chosen and v in chosen for u, v in edges)
        check(holds == stable, "the set {} is {}feasible", sorted(chosen), "" if holds else "not ")
        total = sum(w[i] for i in chosen)
        check(abs(sum(p * v for p, v in zip(point, c)) + z - total) < 1e-9, "the set {} has value {}", sorted(chosen), sum(p * v for p, v in zip(point, c)) + z)
        ctx.call()
        if stable:
            best = max(best, total)
            stable_sets.add(point)
    ctx.state(n, edges, w, case["order"])
    x = ip.branch_and_bound()
    ctx.call()
    check(x is not None and len(x) == n, "branch and bound returned {}", x)
    point = tuple(round(float(v)) for v in x)
    check(all(abs(float(v) - p) < 1e-6 for v, p in zip(x, point)) and point in stable_sets, "branch and bound returned {}, not a stable set", x)
    check(abs(sum(w[i] * point[mapping[names[i]]] for i in range(n)) - best) < 1e-6, "branch and bound returned {}, a better set has weight {}", x, best)
