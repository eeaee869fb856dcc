"""C05: structural validity of the join tree of every small network."""
import itertools

import networkx as nx

from mc import nets

PROPERTY = "C05"
CHUNK = 60
BOUNDS = {
    "quick": "every labelled DAG on 1..5 nodes (29 858) with two weight patterns (5 nodes: every other one), every fourth "
    "topologically numbered 6-node DAG, 14 larger shapes and the wide ones in 6 numberings, every network of 6..9 variables with parents at fixed distances (at most 4) in 2 numberings",
    "thorough": "as quick, plus all topologically numbered 6-node DAGs in two numberings and weight patterns, "
    "and all 7-node ones with at most 9 edges",
}
ASSUMPTIONS = ["networkx decides chordality and maximal cliques of graphs of at most 12 nodes"]


def cases(tier):
    for n in (1, 2, 3, 4, 5):
        for i, edges in enumerate(nets.all_dags(n)):
            yield nets.spec(n, edges, "uniform")
            if n == 5 and i % 2 and tier == "quick":
                continue
            yield nets.spec(n, edges[::-1], "uniform", [3, 2, 4, 2, 3][:n], ids=nets.GAPPED[:n])
    for n, edges in nets.BIG.values():
        for k in range(6):
            ids = list(range(20, 20 + n))
            ids = ids[k:] + ids[:k]
            if k % 2:
                ids = ids[::-1]
            yield nets.spec(n, edges, "uniform", nets.MIXED[:n] if k % 3 else None, ids=ids)
    yield from nets.wide("uniform")
    for n in range(6, 12 if tier == "thorough" else 10):
        for k, edges in enumerate(nets.banded(n)):
            yield nets.spec(n, edges, "uniform", ids=[None, nets.GAPPED[:n]][k % 2])
            yield nets.spec(n, edges, "uniform", nets.MIXED[:n] if len(edges) < 15 else None, ids=list(range(n))[::-1])
    for i, edges in enumerate(nets.topo_dags(6)):
        if tier == "thorough":
            yield nets.spec(6, edges, "uniform")
            yield nets.spec(6, edges, "uniform", [2, 3, 2, 4, 2, 3], ids=nets.GAPPED[:6][::-1])
        elif i % 4 == 0:
            yield nets.spec(6, edges, "uniform", ids=[5, 3, 11, 0, 2, 10])
    if tier == "thorough":
        for edges in nets.topo_dags(7):
            if len(edges) > 9:
                break
            yield nets.spec(7, edges, "uniform", ids=nets.GAPPED[:7])


def edge_ids(g):
    return {frozenset((e.i.id, e.j.id)) for e in g.get_edges()}


def run(case, rec):
    from pybbn.pptc.inferencecontroller import InferenceController
    from pybbn.pptc.moralizer import Moralizer

    ids = nets.ids_of(case)
    bbn = nets.build(case)
    pas = nets.parents_of(case)

    moral = {frozenset((ids[p], ids[c])) for p, c in case["edges"]}
    for ps in pas:
        moral |= {frozenset((ids[a], ids[b])) for a, b in itertools.combinations(ps, 2)}
    ug = Moralizer.moralize(bbn)
    rec.step()
    if {n.id for n in ug.get_nodes()} != set(ids) or edge_ids(ug) != moral:
        rec.fail("moral graph is wrong", got=edge_ids(ug), want=moral)

    jt = InferenceController.apply(bbn)
    rec.step()
    rec.state(case)
    cliques = jt.get_cliques()
    check_tree(rec, jt, case, ids, pas, moral)
    rec.trace()
    rec.outcome(sorted(sorted(c.get_node_ids()) for c in cliques))
    if len(cliques) >= 3:
        rec.sample({"network": case, "cliques": sorted(sorted(c.get_node_ids()) for c in cliques)})


def check_tree(rec, jt, case, ids, pas, moral):
    cliques = jt.get_cliques()
    sets = [frozenset(c.get_node_ids()) for c in cliques]
    listed = [frozenset(n.id for n in c.nodes) for c in cliques]
    if sets != listed:
        rec.fail("node ids of a clique differ from its nodes", ids=sets, nodes=listed)
    # maximal cliques of a chordal supergraph of the moral graph
    g = nx.Graph()
    g.add_nodes_from(ids)
    for s in sets:
        g.add_edges_from(itertools.combinations(s, 2))
    if set(g.nodes) != set(ids):
        rec.fail("cliques contain unknown nodes", cliques=sets)
    missing = [m for m in moral if not g.has_edge(*m)]
    if missing:
        rec.fail("moral edges are in no clique", missing=missing, cliques=sets)
    if not nx.is_chordal(g):
        rec.fail("the union of the cliques is not chordal", cliques=sets)
    if len(set(sets)) != len(sets) or set(sets) != {frozenset(c) for c in nx.find_cliques(g)}:
        rec.fail("the cliques are not the maximal cliques", cliques=sets)
    for i, ps in enumerate(pas):
        family = {ids[i]} | {ids[p] for p in ps}
        if not any(family <= s for s in sets):
            rec.fail("a family is in no clique", family=family, cliques=sets)
    # forest of separators
    t = nx.MultiGraph()
    t.add_nodes_from(sets)
    seps = jt.get_sep_sets()
    edges = jt.get_edges()
    if len(seps) != len(edges):
        rec.fail("separators and edges differ in number")
    for e in edges:
        a, b = frozenset(e.i.get_node_ids()), frozenset(e.j.get_node_ids())
        s = frozenset(n.id for n in e.sep_set.nodes)
        if a not in t or b not in t:
            rec.fail("an edge joins something that is no clique", a=a, b=b)
        if s != a & b or not s:
            rec.fail("a separator is not the intersection of its cliques", a=a, b=b, s=s)
        if {e.sep_set.left.id, e.sep_set.right.id} != {e.i.id, e.j.id}:
            rec.fail("a separator and its edge name different cliques")
        near = set(jt.get_neighbors(e.sep_set.id))
        if near != {e.i.id, e.j.id}:
            rec.fail("neighbours of a separator are not its cliques", got=near)
        t.add_edge(a, b, s=s)
    for c in cliques:
        near = set(jt.get_neighbors(c.id))
        want = {e.sep_set.id for e in edges if c.id in (e.i.id, e.j.id)}
        if near != want:
            rec.fail("neighbours of a clique are not its separators", got=near, want=want)
    if nx.number_connected_components(t) != len(sets) - len(edges):
        rec.fail("the separators close a cycle", cliques=sets)
    parts = {frozenset(frozenset().union(*p)) for p in nx.connected_components(t)}
    real = {frozenset(ids[i] for i in p) for p in nets.connected_components(case["n"], case["edges"])}
    if parts != real:
        rec.fail("components of the join tree are not those of the network", got=parts, want=real)
    for x in ids:
        holders = [s for s in sets if x in s]
        sub = nx.Graph()
        sub.add_nodes_from(holders)
        sub.add_edges_from((a, b) for a, b, d in t.edges(data=True) if x in d["s"])
        if not nx.is_connected(sub):
            rec.fail("cliques of one variable are not connected through it", variable=x, cliques=sets)
