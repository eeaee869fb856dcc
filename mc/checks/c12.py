"""C12: every history of additions and removals of nodes and edges, to the fixpoint."""
from mc import graphs, nets

PROPERTY = "C12"
CHUNK = 1
IDS = nets.GAPPED
BOUNDS = {
    "quick": "Ug, Graph, Dag, Bbn, Pdag: fixpoint of reachable graphs on 3 nodes (Ug, Dag, Bbn: 4 nodes) under every "
    "node addition, node removal and edge addition; every sequence of 3 operations on 3 nodes without merging; "
    "exact inference on every distinct 3-node Bbn reached; removal of every node of 14 larger networks"
    "; 24 histories of every operation twice on 6 and on 9 nodes",
    "thorough": "fixpoint on 4 nodes for all kinds; every sequence of 4 operations on 3 nodes; inference on every "
    "4-node Bbn reached",
}
ASSUMPTIONS = [
    "mixed graphs are only asked to hold edges of one type between any two nodes",
    "CPTs of the children of a removed node are replaced to fit before inference",
]


def cases(tier):
    for kind in graphs.KINDS:
        yield {"mode": "fixpoint", "kind": kind, "ids": IDS[:3], "infer": True}
    for kind in graphs.KINDS:
        for op in graphs.operations(kind, IDS[:3], True):
            yield {"mode": "sequences", "kind": kind, "ids": IDS[:3], "depth": 3 if tier == "quick" else 4, "first": [op]}
    for name in nets.BIG:
        yield {"mode": "big", "shape": name}
    for kind in ("ug", "dag", "bbn") if tier == "quick" else graphs.KINDS:
        yield {"mode": "fixpoint", "kind": kind, "ids": IDS[:4], "infer": tier == "thorough"}
    for kind in graphs.KINDS:
        for n in (6, 9):
            for k in range(24 if tier == "quick" else 96):
                yield {"mode": "long", "kind": kind, "ids": IDS[:n], "stride": graphs.STRIDES[k % 24] + k // 24 * 2}


def infer(graph, model, rec, path):
    """Give every node a CPT that fits its parents and compare inference with the reference."""
    from pybbn.pptc.inferencecontroller import InferenceController

    nodes = sorted(model[0])
    if not nodes:
        return
    at = {x: k for k, x in enumerate(nodes)}
    edges = [[at[a], at[b]] for a, b, t in model[1]]
    spec = nets.spec(len(nodes), edges, "generic", ids=nodes)
    for x, cpt in zip(nodes, nets.cpts_of(spec)):
        graph.get_node(x).probs = list(cpt)
    jt = InferenceController.apply(graph)
    rec.step()
    want = nets.marginals(nets.joint(spec))
    nets.compare_marginals(rec, nets.observed_marginals(jt, spec), want, spec, operations=path)


def run(case, rec):
    if case["mode"] == "long":
        return graphs.long_history(case["kind"], case["ids"], rec, True, case["stride"])
    if case["mode"] == "fixpoint":
        extra = None
        if case["kind"] == "bbn" and case["infer"]:
            extra = lambda graph, pool, model, path: infer(graph, model, rec, path)
        graphs.explore(case["kind"], case["ids"], rec, extra=extra)
    elif case["mode"] == "sequences":
        graphs.sequences(case["kind"], case["ids"], case["depth"], rec, True, case["first"])
    else:
        n, edges = nets.BIG[case["shape"]]
        for ids in (list(range(n)), nets.GAPPED[:n]):
            start = [("edge", ids[a], ids[b], "->") for a, b in edges]
            for gone in ids:
                path = start + [("remove", gone)]
                model = ((), ())
                for op in path:
                    model = graphs.model_step("bbn", model, op)
                graph, pool = graphs.replay("bbn", path, ids)
                rec.state(("big", ids, edges, gone))
                graphs.compare(rec, "bbn", graph, model, ids, path)
                infer(graph, model, rec, path)
                back = [("edge", gone, x, "->") for x in model[0][:2]]
                for op in back:
                    graphs.apply(graph, op, pool)
                    model = graphs.model_step("bbn", model, op)
                    rec.step()
                graphs.compare(rec, "bbn", graph, model, ids, path + back)
                infer(graph, model, rec, path + back)
