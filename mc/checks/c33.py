"""C33: every question about a network or a join tree, asked on every explored object and compared
with what the object was built from."""
import copy
import itertools
import json

from mc import evid, nets, world

PROPERTY = "C33"
CHUNK = 4
BOUNDS = {
    "quick": "every DAG on 1..4 nodes x 2 (numbering, values, names), every 5-node DAG up to renaming, 14 larger shapes and the wide ones: "
    "every lookup for every node, pair, clique, pair of cliques, separation set and value, and for unknown ids and names, on "
    "the network, the tree, and the copied, re-applied and restored tree, under 4 evidence settings",
    "thorough": "also every 5-node DAG and topological 6-node DAGs (every seventh)",
}


def cases(tier):
    for n in (1, 2, 3, 4):
        for edges in nets.all_dags(n):
            yield nets.spec(n, edges, "generic", nets.MIXED[:n])
            yield nets.spec(n, edges[::-1], "mixed", [3, 2, 4, 2][:n], ids=nets.GAPPED[:n], order=list(range(n))[::-1], names=["z", "10", "b c", "2"][:n])
    for n in (2, 3):  # names that are easily mistaken for each other
        for edges in nets.all_dags(n):
            for names in (["a", "a ", " a"], ["A", "a", "\u00e4"], ["1", "1.0", "01"], ["a", "ab", "b"]):
                yield nets.spec(n, edges, "generic", names=names[:n])
    for edges in nets.unlabelled_dags(5):
        yield nets.spec(5, edges[::-1], "generic", nets.MIXED[:5], ids=nets.GAPPED[:5])
    for n, edges in nets.BIG.values():
        yield nets.spec(n, edges, "generic", ids=nets.GAPPED[:n])
    yield from nets.wide()
    if tier == "thorough":
        for edges in nets.all_dags(5):
            yield nets.spec(5, edges, "generic", nets.MIXED[1:6], ids=nets.GAPPED[:5][::-1])
        for edges in nets.topo_dags(6)[::7] if isinstance(nets.topo_dags(6), list) else itertools.islice(nets.topo_dags(6), 0, None, 7):
            yield nets.spec(6, edges, "generic", nets.MIXED[:6], ids=nets.GAPPED[:6])


def same(rec, what, got, want, **detail):
    rec.step()
    if got != want:
        rec.fail(f"{what} is {got}, expected {want}", **detail)


def about_network(rec, bbn, spec):
    ids, names, n = nets.ids_of(spec), nets.names_of(spec), spec["n"]
    pas = nets.parents_of(spec)
    arcs = {(ids[p], ids[c]) for p, c in spec["edges"]}
    same(rec, "the list of nodes", sorted(x.id for x in bbn.get_nodes()), sorted(ids))
    same(rec, "the list of edges", sorted((e.i.id, e.j.id) for e in bbn.get_edges()), sorted(arcs))
    same(rec, "the map of names", bbn.get_n2i(), dict(zip(names, ids)))
    same(rec, "the map of ids", bbn.get_i2n(), dict(zip(ids, names)))
    for i in range(n):
        x = bbn.get_node(ids[i])
        same(rec, "a node", (x.id, x.variable.name, list(x.variable.values)), (ids[i], names[i], nets.values_of(spec, i)))
        same(rec, "the weight of a node", x.get_weight(), spec["arity"][i])
        same(rec, "the parents", sorted(bbn.get_parents(ids[i])), sorted(ids[p] for p in pas[i]))
        same(rec, "the ordered parents", list(bbn.get_parents_ordered(ids[i])), sorted(ids[p] for p in pas[i]))
        same(rec, "the children", sorted(bbn.get_children(ids[i])), sorted(c for p, c in arcs if p == ids[i]))
        same(rec, "the neighbours", sorted(bbn.get_neighbors(ids[i])), sorted([c for p, c in arcs if p == ids[i]] + [p for p, c in arcs if c == ids[i]]))
    for a, b in itertools.permutations(ids, 2):
        same(rec, f"edge_exists({a}, {b})", bool(bbn.edge_exists(a, b)), (a, b) in arcs)
    g, labels = bbn.to_nx_graph()
    same(rec, "the networkx graph", (g.is_directed(), sorted(g.nodes), sorted(g.edges)), (True, sorted(ids), sorted(arcs)))
    same(rec, "the labels of the networkx graph", labels, dict(zip(ids, names)))


def about_tree(rec, jt, spec, cpts, given, text, **where):
    from pybbn.graph.jointree import EvidenceType

    ids, names, n, arity = nets.ids_of(spec), nets.names_of(spec), spec["n"], spec["arity"]
    at = {x: i for i, x in enumerate(ids)}
    pas = nets.parents_of(spec)

    # variables
    same(rec, "the variables of the tree", sorted(x.id for x in jt.get_bbn_nodes()), sorted(ids), **where)
    held = {x.id: x for x in jt.get_bbn_nodes()}
    for i in range(n):
        for x in (jt.get_bbn_node(ids[i]), jt.get_bbn_node_by_name(names[i])):
            if x is None:
                rec.fail(f"variable {names[i]} is not found", **where)
            facts = (x.id, x.variable.id, x.variable.name, list(x.variable.values), [float(p) for p in x.probs])
            same(rec, "a variable looked up", facts, (ids[i], ids[i], names[i], nets.values_of(spec, i), cpts[i]), **where)
            same(rec, "the identity of a variable looked up", x is held[ids[i]], True, **where)
    for x in (-5, max(ids) + 1, "no"):
        same(rec, f"the variable with unknown id {x}", jt.get_bbn_node(x), None, **where)
        same(rec, f"the variable with unknown name {x}", jt.get_bbn_node_by_name(f"? {x}"), None, **where)
    got = {x.id: [p.id for p in ps] for x, ps in jt.get_bbn_node_and_parents().items()}
    same(rec, "the parents of the tree's variables", got, {ids[i]: [ids[p] for p in pas[i]] for i in range(n)}, **where)

    # cliques and separation sets
    cliques, seps = list(jt.get_cliques()), list(jt.get_sep_sets())
    same(rec, "the list of nodes", sorted(id(x) for x in jt.get_nodes()), sorted(id(x) for x in cliques + seps), **where)
    members = {c.id: {x.id for x in c.nodes} for c in cliques}
    same(rec, "the number of clique ids", len(members), len(cliques), **where)
    for c in cliques:
        m = members[c.id]
        same(rec, "the ids of a clique", set(c.get_node_ids()), m, clique=c.id, **where)
        same(rec, "the clique with an id", jt.get_node(c.id) is c, True, clique=c.id, **where)
        weight = 1
        for x in m:
            weight *= arity[at[x]]
        same(rec, "the weight of a clique", c.get_weight(), weight, clique=c.id, **where)
        for x in ids + [-5, max(ids) + 1]:
            same(rec, f"whether the clique contains {x}", bool(c.contains(x)), x in m, clique=c.id, **where)
        same(rec, "the neighbours of a clique", set(jt.get_neighbors(c.id)), {s.id for s in seps if s.left is c or s.right is c}, clique=c.id, **where)
        for d in cliques:
            both = m & members[d.id]
            same(rec, "whether a clique is a superset", bool(c.is_superset(d)), m >= members[d.id], cliques=[c.id, d.id], **where)
            flag, lhs, rhs, common = c.intersects(d)
            same(rec, "an intersection", (bool(flag), set(lhs), set(rhs), set(common)), (bool(both), m, members[d.id], both), cliques=[c.id, d.id], **where)
            if c is not d:
                s = c.get_sep_set(d)
                same(rec, "a separation set", ({x.id for x in s.nodes}, s.left is c, s.right is d, bool(s.is_empty)), (both, True, True, not both), cliques=[c.id, d.id], **where)
                same(rec, "the mass", (s.mass, s.get_mass()), (len(both), len(both)), cliques=[c.id, d.id], **where)
                total = c.get_weight() + d.get_weight()
                same(rec, "the cost", (s.cost, s.get_cost()), (total, total), cliques=[c.id, d.id], **where)
    for s in seps:
        both = members[s.left.id] & members[s.right.id]
        same(rec, "the variables of a separation set", sorted(x.id for x in s.nodes), sorted(both), sepset=s.id, **where)
        same(rec, "the ids of a separation set", set(s.get_node_ids()), both, sepset=s.id, **where)
        same(rec, "the sides of a separation set", set(jt.get_neighbors(s.id)), {s.left.id, s.right.id}, sepset=s.id, **where)
        same(rec, "the identity of the sides", jt.get_node(s.left.id) is s.left and jt.get_node(s.right.id) is s.right, True, sepset=s.id, **where)
        for x in ids:
            same(rec, f"whether the separation set contains {x}", bool(s.contains(x)), x in both, sepset=s.id, **where)
    same(rec, "the edges", sorted((e.sep_set.id, *sorted([e.i.id, e.j.id])) for e in jt.get_edges()), sorted((s.id, *sorted([s.left.id, s.right.id])) for s in seps), **where)
    flat = sorted(sorted([e.i.id, e.j.id]) for e in jt.get_flattened_edges())
    same(rec, "the flattened edges", flat, sorted(sorted([side.id, s.id]) for s in seps for side in (s.left, s.right)), **where)
    for _ in range(2):  # asking twice must not matter
        for i in range(n):
            family = {ids[i]} | {ids[p] for p in pas[i]}
            got = sorted(c.id for c in jt.find_cliques_with_node_and_parents(ids[i]))
            same(rec, f"the cliques with {ids[i]} and its parents", got, sorted(c for c, m in members.items() if m >= family), **where)

    # evidence
    for i in range(n):
        like = evid.meaning(*given[i], arity[i]) if i in given else [1.0] * arity[i]
        for v, l in zip(nets.values_of(spec, i), like):
            p = jt.get_evidence(held[ids[i]], v)
            got = [(dict(e.entries), float(e.value)) for e in p.entries]
            same(rec, "the evidence", got, [({ids[i]: v}, l)], **where)
        free = jt.get_unobserved_evidence(held[ids[i]])
        same(rec, "the neutral evidence", (free.node is held[ids[i]], free.type, dict(free.values)), (True, EvidenceType.UNOBSERVE, {v: 1.0 for v in nets.values_of(spec, i)}), **where)

    # and the answers are as right as before
    like = {i: evid.meaning(*x, arity[i]) for i, x in given.items()}
    want = nets.marginals(nets.weigh(nets.joint(spec, cpts), like))
    if want is not None:
        nets.compare_marginals(rec, nets.observed_marginals(jt, spec), want, spec, **where)
        nets.compare_posteriors_map(rec, jt, spec, want, **where)
        rec.outcome([[round(x, 9) for x in v] for v in want])
    rec.trace()


def run(spec, rec):
    from pybbn.graph.jointree import JoinTree
    from pybbn.pptc.inferencecontroller import InferenceController

    n, arity, ids = spec["n"], spec["arity"], nets.ids_of(spec)
    bbn = nets.build(spec)
    about_network(rec, bbn, spec)
    before = world.snapshot(bbn)
    base = InferenceController.apply(bbn)
    cpts = nets.cpts_of(spec)
    fresh = nets.cpts_of(spec, 100)
    made = {
        "applied": (lambda: base, cpts),
        "copied": (lambda: copy.deepcopy(base), cpts),
        "re-applied": (lambda: InferenceController.reapply(base, {ids[i]: list(fresh[i]) for i in range(n)}), fresh),
        "restored": (lambda: InferenceController.apply_from_serde(JoinTree.from_dict(JoinTree.to_dict(base, bbn))), cpts),
        "restored from text": (lambda: InferenceController.apply_from_serde(JoinTree.from_dict(json.loads(json.dumps(JoinTree.to_dict(base, bbn))))), cpts),
    }
    settings = [
        {},
        {n - 1: ("OBSERVATION", {arity[n - 1] - 1: 1.0})},
        {0: evid.soft(arity[0])[0]},
        {i: ("OBSERVATION", {0: 1.0}) for i in range(min(n, 3))},
    ]
    for name, (make, tables) in made.items():
        for k, given in enumerate(settings if n <= 4 else settings[:2]):
            jt = make() if k == 0 else jt
            jt.unobserve_all()
            if given:
                jt.update_evidences([evid.make(jt, spec, i, x) for i, x in given.items()])
            about_tree(rec, jt, spec, tables, given, "text" in name, tree=name, evidence=given)
            rec.state((spec, name, k))
    about_network(rec, bbn, spec)
    if world.snapshot(bbn) != before:
        rec.fail("the network was changed")
    if n >= 4:
        rec.sample({"network": spec, "cliques": sorted(c.id for c in base.get_cliques())})
