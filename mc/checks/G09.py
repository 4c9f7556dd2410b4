from collections import deque
from itertools import combinations, product
from math import inf

from ..core import check
from ..graphs import min_cut
from ..lputil import raises
from .G01 import shapes

TITLE = "DirectedGraph as an abstract weighted digraph"
BOUNDS = ("State exploration: from every abstract state over 3 names (nodes with demand 0/2/5/-4, arcs absent or of capacity 0/3, as far as "
          "reachable in four operations, plus every set of arcs) every operation of the alphabet is executed, refused ones included, and every answer compared; "
          "sequence exploration: every operation sequence up to the stated depth over 2 names; the same over nine other pairs of names (empty, blank, numbers, long, ...); every operation after long histories over 8 names, and prefixes of long histories over 24; every constructor argument combination over 3 names.")
ASSUMPTIONS = ["weights are observed through residuals (which arc flows are accepted) and max flow values; node demands, which no public operation reports, through the "
               "attribute _nodes if there is one", "demands of the wrong shape are only given where the shape decides (no second reason for a refusal)"]

NAMES = ("ba", "b", "a")
OTHER = (("", "b"), ("b", ""), (" ", "  "), ("a", "A"), ("1", "01"), ("-1", "0"), ("a,b", "a"), ("None", "é"), ("a" * 40, "a" * 41))


def alphabet(names, full=True):
    ops = []
    for u in names:
        ops.append(("add_node", u, None))
        ops.append(("add_node", u, 2))
        ops.append(("set_node_weight", u, 5))
        ops.append(("add_arc", u, u, 0, None))
        for v in names:
            if u != v:
                ops += [("add_arc", u, v, 3, None), ("remove_arc", u, v, False), ("remove_arc", u, v, True), ("set_arc_weight", u, v, 1)]
                if full:
                    ops += [("add_arc", u, v, None, None), ("add_arc", u, v, 3, (2, 5)), ("add_arc", u, v, 0, 2 if u < v else -4), ("add_arc", u, v, 3, (2, 5, 1)),
                            ("add_arc", u, v, 3, 0), ("add_arc", u, v, 3, (0, 2))]
    ops += [("remove_arc", names[0], "zz", True), ("remove_arc", names[0], names[0], False), ("set_arc_weight", "zz", names[0], 1), ("set_node_weight", "zz", 3)]
    return ops


def model_apply(state, op):
    """(new state, None | "ValueError" | "TypeError").  state = (nodes, arcs)"""
    nodes, arcs = dict(state[0]), dict(state[1])
    kind = op[0]
    if kind == "add_node":
        if op[1] in nodes:
            return state, "ValueError"
        nodes[op[1]] = op[2] or 0
    elif kind == "set_node_weight":
        if op[1] not in nodes:
            return state, "ValueError"
        nodes[op[1]] = op[2]
    else:
        arc = op[1], op[2]
        if kind == "add_arc":
            if arc in arcs or op[1] == op[2]:
                return state, "ValueError"
            demands = op[4]
            if isinstance(demands, tuple):
                if len(demands) != 2:
                    return state, "TypeError"
            elif demands and op[1] not in nodes and op[2] not in nodes:
                return state, "TypeError"
            else:
                demands = (demands or 0,) * 2
            arcs[arc] = op[3] or 0
            for v, d in zip(arc, demands):
                nodes.setdefault(v, d)
        elif arc not in arcs:
            return state, "ValueError"
        elif kind == "set_arc_weight":
            arcs[arc] = op[3]
        else:
            del arcs[arc]
            if op[3]:
                for v in arc:
                    if not any(v in a for a in arcs):
                        nodes.pop(v, None)
    return (nodes, arcs), None


def expressible(state, op):
    """Whether the shape of the demands is the only possible reason for a refusal."""
    if op[0] == "add_arc" and isinstance(op[4], tuple) and len(op[4]) != 2:
        return op[1] not in state[0] and op[2] not in state[0] and (op[1], op[2]) not in state[1] and op[1] != op[2]
    return True


def real_apply(g, op):
    kind = op[0]
    try:
        if kind == "add_node":
            g.add_node(op[1], *([] if op[2] is None else [op[2]]))
        elif kind == "set_node_weight":
            g.set_node_weight(op[1], op[2])
        elif kind == "set_arc_weight":
            g.set_arc_weight((op[1], op[2]), op[3])
        elif kind == "remove_arc":
            g.remove_arc((op[1], op[2]), *([True] if op[3] else []))
        elif op[3] is None:
            g.add_arc((op[1], op[2]))
        elif op[4] is None:
            g.add_arc((op[1], op[2]), op[3])
        else:
            g.add_arc((op[1], op[2]), op[3], demands=op[4])
    except ValueError:
        return "ValueError"
    except TypeError:
        return "TypeError"
    return None


def observe(g, state, names, deep=True):
    nodes, arcs = state
    got = list(g.nodes)
    check(len(got) == len(set(got)) and set(got) == set(nodes), "nodes {} instead of {}", got, list(nodes))
    got = list(g.arcs)
    check(len(got) == len(set(got)) and set(got) == set(arcs), "arcs {} instead of {}", got, list(arcs))
    for u in tuple(names) + ("zz",):
        check(bool(g.has_node(u)) == (u in nodes), "has_node({!r}) is wrong", u)
        for v in names:
            check(bool(g.has_arc((u, v))) == ((u, v) in arcs), "has_arc({!r}) is wrong", (u, v))
        degree = (sum(a[0] == u for a in arcs), sum(a[1] == u for a in arcs))
        check((g.outdegree(u), g.indegree(u)) == degree, "out and in degree of {} are {}", u, (g.outdegree(u), g.indegree(u)))
    demands = getattr(g, "_nodes", None)
    if isinstance(demands, dict) and set(demands) == set(nodes):
        check(demands == nodes, "demands {} instead of {}", demands, nodes)
    # the capacity of an arc is the largest flow its residual accepts
    for arc, w in arcs.items():
        r = g.create_residual({arc: w})
        check(r.has_arc((arc[1], arc[0])) == (w > 0 or arcs.get((arc[1], arc[0]), 0) > 0) and r.has_arc(arc) == False, "residual of the full arc {} has the arcs {}", arc, r.arcs)
        check(raises(ArithmeticError, g.create_residual, {arc: w + 0.5}), "the arc {} of capacity {} carries more", arc, w)
    if deep and len(nodes) > 1:
        order = list(nodes)
        capacity = {(order.index(u), order.index(v)): w for (u, v), w in arcs.items()}
        for s in range(len(order)):
            for e in range(len(order)):
                if s != e:
                    value, flow = g.ford_fulkerson(order[s], order[e])
                    best = min_cut(len(order), capacity, s, e)
                    check(value == best, "the maximum flow from {} to {} is {} instead of {}", order[s], order[e], value, best)


def key(s):
    return tuple(sorted(s[0].items())), tuple(sorted(s[1].items()))


def all_states(names, depth):
    ops = alphabet(names)
    start = ({}, {})
    seen = {key(start)}
    queue = deque([(start, ())])
    while queue:
        state, history = queue.popleft()
        yield history
        if len(history) >= depth:
            continue
        for i, op in enumerate(ops):
            new, refused = model_apply(state, op)
            if not refused and key(new) not in seen:
                seen.add(key(new))
                queue.append((new, history + (i,)))


def families(tier):
    t = tier == "thorough"

    def states(names, depth, then):
        for history in all_states(names, depth):
            yield {"names": names, "full": True, "ops": list(history), "then": then}

    def arc_sets():
        ops = alphabet(NAMES)
        adds = [i for i, op in enumerate(ops) if op[0] == "add_arc" and op[1] != op[2] and op[3:] == (3, None)]
        for k in range(len(adds) + 1):
            for chosen in combinations(adds, k):
                for order in ((chosen, chosen[::-1]) if t else (chosen[::-1],)):
                    yield {"names": NAMES, "full": True, "ops": list(order), "then": 2 if t else 1}

    def sequences(names, full, depth, prefix):
        n = len(alphabet(names, full))
        for head in product(range(n), repeat=prefix):
            yield {"names": names, "full": full, "ops": list(head), "then": depth - prefix}

    def constructors():
        arcs = [None, {}] + [dict(c) for k in (1, 2, 3) for c in combinations([(("a", "b"), 3), (("b", "a"), 2), (("c", "b"), 0), (("c", "a"), 1)], k)]
        nodes = [None, {}, {"a": 4}, {"d": 1}, {"b": 2, "a": 0, "d": -3}]
        graphs = [None, {}, {"a": []}, {"d": []}, {"a": ["b"]}, {"b": ["a"]}, {"a": ["b"], "b": ["a"]}, {"a": ["b", "c"], "d": []}, {"a": ["b", "c"], "b": ["a", "c"], "c": ["a", "b"]},
                  {"c": ["b"], "b": [], "a": []}, {"b": [], "c": ["b"]}]
        for g, a, v in product(graphs, arcs, nodes):
            yield {"graph": g, "arcs": None if a is None else [[list(k), w] for k, w in a.items()], "nodes": v}

    def many():
        names = tuple(f"n{k}" for k in range(8))
        ops = alphabet(names, False)
        where = {op: i for i, op in reversed(list(enumerate(ops)))}
        for shape in shapes(names):
            pairs = [(names[i], names[j]) for i, j in shape]
            pairs += [(v, u) for u, v in pairs[::2] if (v, u) not in pairs]
            build = [where["add_arc", u, v, 3, None] for u, v in pairs]
            down = [where["remove_arc", u, v, k % 2 == 0] for k, (u, v) in enumerate(pairs)]
            for history in (build, [where["add_node", v, 2] for v in names[::3]] + build[::-1], build + down[::-1][:len(down) // 2 + 1] + build):
                yield {"names": names, "full": False, "ops": history, "then": 1, "deep": False}

    def crowd():
        names = tuple(f"n{k}" for k in range(24))
        ops = alphabet(names, False)
        where = {op: i for i, op in reversed(list(enumerate(ops)))}
        for shape in shapes(names):
            pairs = [(names[i], names[j]) for i, j in shape]
            pairs += [(v, u) for u, v in pairs[::2] if (v, u) not in pairs]
            build = [where["add_arc", u, v, 3, None] for u, v in pairs]
            down = [where["remove_arc", u, v, k % 2 == 0] for k, (u, v) in enumerate(pairs)]
            for history in (build, [where["add_node", v, 2] for v in names[::3]] + build[::-1], build + down[::-1][:len(down) // 2 + 1] + build):
                for k in range(len(history), 0, -57 if not t else -9):
                    yield {"names": names, "full": False, "ops": history[:k], "then": 0, "deep": False}

    return [("constructor", constructors), ("sequences over 2 names", lambda: sequences(NAMES[1:], False, 4 if t else 3, 1)),
            ("states over 2 names", lambda: states(NAMES[1:], inf, 2)),
            ("8 names", many), ("24 names", crowd), ("other names", lambda: (c for names in OTHER for c in states(names, inf, 1))), ("sequences over other names", lambda: (c for names in OTHER for c in sequences(names, False, 2, 1))), ("arc sets over 3 names", arc_sets),
            ("states over 3 names", lambda: states(NAMES, 4 if t else 3, 1))]


def construct(case, ctx):
    from pytimize.graphs import DirectedGraph
    graph = None if case["graph"] is None else {v: set(c) for v, c in case["graph"].items()}
    arcs = None if case["arcs"] is None else {tuple(k): w for k, w in case["arcs"]}
    given = None if case["nodes"] is None else dict(case["nodes"])
    nodes, model = {}, {}
    for u, c in (graph or {}).items():
        nodes[u] = 0
        for v in c:
            nodes[v] = 0
            model[u, v] = 0
    for (u, v), w in (arcs or {}).items():
        nodes.setdefault(u, 0)
        nodes.setdefault(v, 0)
        model[u, v] = w
    nodes.update(given or {})
    kept = repr((graph and sorted((k, sorted(v)) for k, v in graph.items()), arcs, given))
    g = DirectedGraph(**{k: v for k, v in (("graph", graph), ("arcs", arcs), ("nodes", given)) if v is not None})
    h = DirectedGraph(graph, arcs, given)
    ctx.call(2)
    check(repr((graph and sorted((k, sorted(v)) for k, v in graph.items()), arcs, given)) == kept, "the arguments were changed")
    for c in (graph or {}).values():
        c.add("q")
    for other in (g, h):
        observe(other, (nodes, model), ("a", "b", "c", "d"))
    if arcs is not None:
        arcs["q", "r"] = 1
    if given is not None:
        given["q"] = 2
    h.add_arc(("q", "a"), 1)
    observe(g, (nodes, model), ("a", "b", "c", "d"), False)
    ctx.state("constructed", sorted(nodes.items()), sorted(model.items()))


def run(case, ctx):
    if "ops" not in case:
        return construct(case, ctx)
    from pytimize.graphs import DirectedGraph
    names = case["names"]
    ops = alphabet(names, case["full"])

    def play(history):
        g, state = DirectedGraph(), ({}, {})
        for i in history:
            if not expressible(state, ops[i]):
                continue
            tables = g.nodes, g.arcs
            listed = [list(table) for table in tables]
            state, refused = model_apply(state, ops[i])
            got = real_apply(g, ops[i])
            check(got == refused, "{}: {} instead of {}", ops[i], got, refused)
            check([list(table) for table in tables] == listed, "{} changed the lists of nodes and arcs handed out before it to {}", ops[i], tables)
            ctx.call()
        return g, state

    for depth in range(case["then"] + 1):
        for tail in product(range(len(ops)), repeat=depth):
            g, state = play(case["ops"] + list(tail))
            for table in (g.nodes, g.arcs):  # what is handed out is not a live part of the digraph
                if hasattr(table, "clear"):
                    table.clear()
            observe(g, state, names, deep=case.get("deep", len(tail) <= 1))
            ctx.state(key(state))
            ctx.validated()
