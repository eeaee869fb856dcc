"""C30: every sequence of offered edges on partially directed graphs, to the fixpoint."""
from mc import graphs, nets

PROPERTY = "C30"
CHUNK = 1
IDS = nets.GAPPED
BOUNDS = {
    "quick": "fixpoint of reachable graphs on 2, 3 and 4 nodes under every offered directed and undirected edge in "
    "both orders of end points; every sequence of 3 offers on 3 nodes without merging; every offer to every path of 5 "
    "and 6 nodes with every choice of edge directions; every offer to 14 larger directed graphs and a variable with 40 children; paths of 40 nodes with one edge of another kind"
    "; 24 histories of every operation twice on 6 and on 9 nodes",
    "thorough": "as quick, with every sequence of 4 offers on 3 nodes and the paths of 7 nodes",
}


def cycles(n):
    """Paths 0-1-...-(n-1) with every choice of forward, backward and undirected edges."""
    import itertools

    for choice in itertools.product(("->", "<-", "--"), repeat=n - 1):
        yield [
            [i, i + 1, "->"] if c == "->" else [i + 1, i, "->"] if c == "<-" else [i, i + 1, "--"]
            for i, c in enumerate(choice)
        ]


def cases(tier):
    for n in (2, 3, 4):
        yield {"mode": "fixpoint", "ids": IDS[:n]}
    for op in graphs.operations("pdag", IDS[:3], False):
        yield {"mode": "sequences", "ids": IDS[:3], "depth": 3 if tier == "quick" else 4, "first": [op]}
    for n in (5, 6) if tier == "quick" else (5, 6, 7):
        for edges in cycles(n):
            yield {"mode": "path", "ids": IDS[:n], "edges": edges}
    for n, edges in nets.BIG.values():
        yield {"mode": "offers", "ids": list(range(n)), "edges": edges}
    n, edges = graphs.FAN
    yield {"mode": "offers", "ids": list(range(n)), "edges": edges}
    n = 40
    for k in range(n - 1):  # one arc somewhere on a long undirected path, one undirected edge on a directed one
        for most, one in (("--", "->"), ("->", "--"), ("->", "->"), ("--", "<-")):
            yield {"mode": "path", "ids": list(range(n)), "edges": [[i + 1, i, "->"] if t == "<-" else [i, i + 1, t] for i in range(n - 1) for t in [one if i == k else most]]}
    for kind in ("pdag",):
        for n in (6, 9):
            for k in range(24 if tier == "quick" else 96):
                yield {"mode": "long", "kind": kind, "ids": IDS[:n], "stride": graphs.STRIDES[k % 24] + k // 24 * 2}


def run(case, rec):
    ids = case["ids"]
    if case["mode"] == "long":
        return graphs.long_history(case["kind"], case["ids"], rec, False, case["stride"])
    if case["mode"] == "fixpoint":
        graphs.explore("pdag", ids, rec, removal=False)
    elif case["mode"] == "sequences":
        graphs.sequences("pdag", ids, case["depth"], rec, False, case["first"])
    elif case["mode"] == "offers":
        graphs.every_offer("pdag", case["edges"], ids, rec)
    else:
        start = [("edge", ids[a], ids[b], t) for a, b, t in case["edges"]]
        model = ((), ())
        for op in start:
            model = graphs.model_step("pdag", model, op)
        rec.state((ids, start))
        for a, b in ((0, -1), (-1, 0), (1, -1), (-1, 1), (0, -2), (-2, 0)):
            for t in ("->", "--"):
                op = ("edge", ids[a], ids[b], t)
                graph, pool = graphs.replay("pdag", start, ids)
                graphs.apply(graph, op, pool)
                rec.step()
                graphs.compare(rec, "pdag", graph, graphs.model_step("pdag", model, op), ids, start + [op])
