"""Shared oracle of the network formats: the network read back is the network written."""
from mc import evid, nets, world


def facts(bbn, sort_nodes=True):
    """What a format must keep."""
    nodes = [
        (int(n.id), int(n.variable.id), n.variable.name, list(n.variable.values), [float(p) for p in n.probs])
        for n in bbn.get_nodes()
    ]
    edges = sorted((int(e.i.id), int(e.j.id), str(e.type)) for e in bbn.get_edges())
    parents = {int(c): [int(p) for p in ps] for c, ps in bbn.parents.items() if ps}
    return {"nodes": sorted(nodes), "edges": edges, "parents": parents}


def check(rec, before, back, spec, want, **detail):
    from pybbn.pptc.inferencecontroller import InferenceController

    got = facts(back)
    if got != before:
        rec.fail("the network read back is another one", got=got, want=before, **detail)
    jt = InferenceController.apply(back)
    rec.step(2)
    nets.compare_marginals(rec, read(jt, back, spec), want, spec, **detail)
    rec.trace()


def read(jt, bbn, spec):
    """Marginals by name (ids may have become text keys)."""
    result = []
    names = nets.names_of(spec)
    for i in range(spec["n"]):
        node = jt.get_bbn_node_by_name(names[i])
        pot = jt.get_bbn_potential(node)
        m = {e.entries[node.id]: e.value for e in pot.entries}
        result.append([float(m[v]) for v in node.variable.values])
    return result


def specs(tier):
    """Structures x edge insertion orders x node insertion orders x numberings."""
    for n in (1, 2, 3, 4):
        for edges in nets.all_dags(n):
            yield nets.spec(n, edges, "generic", nets.MIXED[:n])
            yield nets.spec(n, edges[::-1], "mixed", ids=nets.GAPPED[:n], order=list(range(n))[::-1])
            ids = list(range(n))[::-1]
            yield nets.spec(n, edges, "skew", [3, 2, 2, 2][:n], ids=ids, order=ids)
    for edges in nets.unlabelled_dags(5):
        yield nets.spec(5, edges[::-1], "generic", ids=nets.GAPPED[:5])
    for n, edges in nets.BIG.values():
        yield nets.spec(n, edges, "generic", ids=nets.GAPPED[:n])
        yield nets.spec(n, edges[::-1], "generic", order=list(range(n))[::-1])
    if tier == "thorough":
        for edges in nets.all_dags(5):
            yield nets.spec(5, edges, "generic", nets.MIXED[:5], ids=nets.GAPPED[:5])
            yield nets.spec(5, edges[::-1], "generic", order=[4, 2, 0, 1, 3])
