"""Breadth-first search over the histories of graph edits, to the fixpoint of reachable
graphs, with a mathematical graph as the reference.

A state of the reference is (nodes, edges) where an edge is (i, j, "->") or (i, j, "--")
and edges are kept in order of acceptance (so that parent order is known)."""
import collections

from mc import nets
from mc.core import Violation, digest

STRIDES = (1, 5, 7, 11, 13, 17, 19, 23, 25, 29, 31, 35, 37, 41, 43, 47, 49, 53, 55, 59, 61, 65, 67, 71)
KINDS = ("ug", "graph", "dag", "bbn", "pdag")


# one variable with many children, some of which have a child
FAN = (44, [[0, k] for k in range(1, 41)] + [[1, 41], [20, 42], [40, 43]])


def new_graph(kind):
    from pybbn.graph.dag import Bbn, Dag
    from pybbn.graph.graph import Graph, Ug
    from pybbn.graph.pdag import Pdag

    return {"ug": Ug, "graph": Graph, "dag": Dag, "bbn": Bbn, "pdag": Pdag}[kind]()


def new_node(id):
    from pybbn.graph.node import BbnNode
    from pybbn.graph.variable import Variable

    return BbnNode(Variable(id, f"v{id}", ["s0", "s1"]), [0.5, 0.5])


# ---------------------------------------------------------------- reference


def joined(edges, i, j):
    return any({a, b} == {i, j} for a, b, t in edges)


def reaches(edges, start, stop, need_arc=False):
    """A way from start to stop that goes against no directed edge (and uses at least one,
    if need_arc)."""
    todo, seen = [(start, False)], set()
    while todo:
        x, arc = todo.pop()
        if (x, arc) in seen:
            continue
        seen.add((x, arc))
        if x == stop and (arc or not need_arc):
            return True
        for a, b, t in edges:
            if a == x:
                todo.append((b, arc or t == "->"))
            elif b == x and t == "--":
                todo.append((a, arc))
    return False


def accepts(kind, edges, i, j, t):
    if i == j:
        return False
    if kind in ("dag", "bbn"):
        return t == "->" and not joined(edges, i, j) and not reaches(edges, j, i)
    if kind == "pdag":
        if joined(edges, i, j):
            return False
        if t == "->":
            return not reaches(edges, j, i)
        return not reaches(edges, i, j, True) and not reaches(edges, j, i, True)
    if t == "->":
        return (i, j, "->") not in edges
    return not joined(edges, i, j)


def offered(kind, edges, i, j, t):
    """Mixed graphs are only asked to hold edges of one type between two nodes."""
    if kind == "ug":
        return t == "--"
    if kind == "graph":
        return not any({a, b} == {i, j} and u != t for a, b, u in edges)
    return True


def model_step(kind, model, op):
    nodes, edges = model
    if op[0] == "node":
        return (nodes if op[1] in nodes else nodes + (op[1],)), edges
    if op[0] == "remove":
        return (
            tuple(x for x in nodes if x != op[1]),
            tuple(e for e in edges if op[1] not in e[:2]),
        )
    _, i, j, t = op
    for x in (i, j):
        if x not in nodes:
            nodes += (x,)
    if accepts(kind, edges, i, j, t):
        edges += ((i, j, t),)
    return nodes, edges


# ---------------------------------------------------------------- implementation


def apply(graph, op, pool):
    from pybbn.graph.edge import Edge, EdgeType

    if op[0] == "node":
        same = graph.add_node(pool[op[1]])
    elif op[0] == "remove":
        graph.remove_node(op[1])
        return
    else:
        _, i, j, t = op
        kind = EdgeType.DIRECTED if t == "->" else EdgeType.UNDIRECTED
        same = graph.add_edge(Edge(pool[i], pool[j], kind))
    if same is not graph:
        raise Violation("the addition did not return the graph", {"operation": op})


def replay(kind, path, ids):
    pool = {i: new_node(i) for i in ids}
    graph = new_graph(kind)
    for op in path:
        apply(graph, op, pool)
    return graph, pool


def observe(kind, graph, ids, model):
    """Everything the queries say."""
    from pybbn.graph.edge import EdgeType

    edges = []
    for e in graph.get_edges():
        i, j = e.i.id, e.j.id
        if e.type == EdgeType.DIRECTED:
            edges.append((i, j, "->"))
        else:
            edges.append((min(i, j), max(i, j), "--"))
    nodes = model[0]
    got = {
        "nodes": sorted(n.id for n in graph.get_nodes()),
        "lookup": [graph.get_node(i).id for i in nodes],
        "edges": sorted(edges),
        "neighbors": {i: sorted(graph.get_neighbors(i)) for i in nodes},
        "adjacent": sorted((a, b) for a in ids for b in ids if graph.edge_exists(a, b)),
    }
    if kind in ("dag", "bbn", "pdag"):
        got["parents"] = {i: sorted(graph.get_parents(i)) for i in nodes}
    if kind in ("dag", "bbn"):
        got["children"] = {i: sorted(graph.get_children(i)) for i in nodes}
        g, labels = graph.to_nx_graph()
        got["nx"] = [sorted(g.nodes), sorted(g.edges), sorted(labels.items())]
        got["names"] = [sorted(graph.get_n2i().items()), sorted(graph.get_i2n().items())]
    if kind == "bbn":
        got["order"] = {i: list(graph.parents.get(i, [])) for i in nodes}
        got["stale"] = sorted(i for i in graph.parents if i not in nodes)
        got["sorted"] = {i: list(graph.get_parents_ordered(i)) for i in nodes}
    if kind == "pdag":
        got["out"] = {i: sorted(graph.get_out_nodes(i)) for i in nodes}
        got["directed"] = sorted(
            (a, b) for a in ids for b in ids if graph.directed_edge_exists(a, b)
        )
    return got


def expected(kind, model, ids):
    nodes, edges = model
    norm = [
        (i, j, t) if t == "->" else (min(i, j), max(i, j), t) for i, j, t in edges
    ]
    nb = {i: set() for i in nodes}
    for i, j, t in edges:
        nb[i].add(j)
        nb[j].add(i)
    arcs = [(i, j) for i, j, t in edges if t == "->"]
    want = {
        "nodes": sorted(nodes),
        "lookup": list(nodes),
        "edges": sorted(norm),
        "neighbors": {i: sorted(nb[i]) for i in nodes},
    }
    if kind in ("dag", "bbn"):
        want["adjacent"] = sorted(arcs)
    else:
        want["adjacent"] = sorted({(a, b) for i in nodes for a in (i,) for b in nb[i]})
    pa = {i: [a for a, b in arcs if b == i] for i in nodes}
    if kind in ("dag", "bbn", "pdag"):
        want["parents"] = {i: sorted(pa[i]) for i in nodes}
    if kind in ("dag", "bbn"):
        want["children"] = {i: sorted(b for a, b in arcs if a == i) for i in nodes}
        names = [(i, f"v{i}") for i in nodes]
        want["nx"] = [sorted(nodes), sorted(arcs), sorted(names)]
        want["names"] = [sorted((b, a) for a, b in names), sorted(names)]
    if kind == "bbn":
        want["order"] = pa
        want["stale"] = []
        want["sorted"] = {i: sorted(pa[i]) for i in nodes}
    if kind == "pdag":
        want["out"] = {i: sorted(nb[i] - set(pa[i])) for i in nodes}
        want["directed"] = sorted(arcs)
    return want


def hidden(graph):
    """The graph's own bookkeeping, without order and without empty entries: states that
    agree on it behave alike."""

    def walk(x):
        if isinstance(x, dict):
            return sorted(
                (repr(k), w) for k, w in ((k, walk(v)) for k, v in x.items()) if w not in ([], None)
            )
        if isinstance(x, (set, frozenset)):
            return sorted(map(repr, x))
        if isinstance(x, (list, tuple)):
            return [walk(v) for v in x]
        if hasattr(x, "key"):
            return x.key
        if hasattr(x, "id"):
            return x.id
        return repr(x)

    return walk({k: v for k, v in vars(graph).items()})


def model_key(kind, model):
    nodes, edges = model
    if kind == "bbn":  # parent order matters
        return sorted(nodes), sorted((j, [a for a, b, t in edges if b == j]) for j in nodes)
    return sorted(nodes), sorted(edges)


def operations(kind, ids, removal):
    ops = []
    for i in ids:
        ops.append(("node", i))
        if removal:
            ops.append(("remove", i))
    for t in ("->", "--"):
        if kind == "ug" and t == "->":
            continue
        for i in ids:
            for j in ids:
                ops.append(("edge", i, j, t))
    return ops


def compare(rec, kind, graph, model, ids, path):
    got, want = observe(kind, graph, ids, model), expected(kind, model, ids)
    if got != want:
        bad = [k for k in want if got[k] != want[k]]
        rec.fail(
            f"{kind}: {bad[0]} are {got[bad[0]]}, expected {want[bad[0]]}",
            operations=path,
            got={k: got[k] for k in bad},
            want={k: want[k] for k in bad},
        )
    rec.trace()
    rec.outcome((kind, want["edges"]))


def explore(kind, ids, rec, removal=True, start=(), extra=None, cap=None):
    """Every history, to the fixpoint of reachable graphs. start: operations done first."""
    model = ((), ())
    for op in start:
        model = model_step(kind, model, op)
    graph, pool = replay(kind, start, ids)
    compare(rec, kind, graph, model, ids, list(start))
    key = digest((kind, model_key(kind, model), hidden(graph)))
    seen = {key}
    queue = collections.deque([(tuple(start), model)])
    ops = operations(kind, ids, removal)
    rec.state((kind, ids, key))
    while queue:
        path, model = queue.popleft()
        for op in ops:
            if op[0] == "edge" and not offered(kind, model[1], *op[1:]):
                continue
            graph, pool = replay(kind, path, ids)
            apply(graph, op, pool)
            rec.step()
            after = model_step(kind, model, op)
            compare(rec, kind, graph, after, ids, list(path) + [op])
            key = digest((kind, model_key(kind, after), hidden(graph)))
            if key not in seen:
                seen.add(key)
                rec.state((kind, ids, key))
                if extra:
                    extra(graph, pool, after, list(path) + [op])
                queue.append((path + (op,), after))
                if len(seen) in (5, 50):
                    rec.sample({"kind": kind, "operations": path + (op,)})
                if cap and len(seen) >= cap:
                    rec.count("state_cap_hit")
                    return


def sequences(kind, ids, depth, rec, removal, first):
    """Every sequence of exactly the operations, without merging of states."""
    ops = operations(kind, ids, removal)

    def walk(path, model):
        graph, pool = replay(kind, path, ids)
        compare(rec, kind, graph, model, ids, path)
        rec.state((kind, ids, path))
        rec.step()
        if len(path) < depth:
            for op in ops:
                if op[0] == "edge" and not offered(kind, model[1], *op[1:]):
                    continue
                walk(path + [op], model_step(kind, model, op))

    path = [tuple(op) for op in first]
    model = ((), ())
    for op in path:
        model = model_step(kind, model, op)
    walk(path, model)


def every_offer(kind, edges, ids, rec):
    """Offer every edge to one given graph (directed edges between indices, in order)."""
    start = [("node", i) for i in ids] + [("edge", ids[a], ids[b], "->") for a, b in edges]
    model = ((), ())
    for op in start:
        model = model_step(kind, model, op)
    if len(model[1]) != len(edges):
        raise AssertionError("not acyclic")
    rec.state((kind, ids, edges))
    for t in ("->", "--"):
        for i in ids:
            for j in ids:
                op = ("edge", i, j, t)
                graph, pool = replay(kind, start, ids)
                apply(graph, op, pool)
                rec.step()
                compare(rec, kind, graph, model_step(kind, model, op), ids, start + [op])


def long_history(kind, ids, rec, removal, stride, passes=2):
    """One history with every operation in the order of a stride, on one graph object."""
    ops = operations(kind, ids, removal)
    edits = [op for op in ops if op[0] == "edge"]
    rest = [op for op in ops if op[0] != "edge"]
    graph, pool = replay(kind, [], ids)
    model, path = ((), ()), []
    for k in range(passes * len(edits)):
        turn = [edits[(k * stride + k // len(edits)) % len(edits)]]
        if rest and k % 6 == 5:
            turn.append(rest[(k // 6 * stride) % len(rest)])
        for op in turn:
            if op[0] == "edge" and not offered(kind, model[1], *op[1:]):
                continue
            apply(graph, op, pool)
            model = model_step(kind, model, op)
            path.append(op)
            rec.step()
            compare(rec, kind, graph, model, ids, path[-60:])
    rec.state((kind, ids, "long", stride))
