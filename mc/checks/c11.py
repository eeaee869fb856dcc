"""C11: every sequence of offered edges on directed graphs and networks, to the fixpoint."""
from mc import graphs, nets

PROPERTY = "C11"
CHUNK = 1
IDS = nets.GAPPED
BOUNDS = {
    "quick": "Dag and Bbn: fixpoint of reachable graphs on 3 and 4 nodes under every offered directed and "
    "undirected edge (self-loops and duplicates included); every sequence of 3 offers on 3 nodes without merging; "
    "every offer to 14 larger graphs and chains of 20, and a variable with 40 children"
    "; 24 histories of every operation twice on 6 and on 9 nodes",
    "thorough": "also every sequence of 4 offers on 3 nodes, and every offer to every DAG on 5 nodes",
}


def cases(tier):
    for kind in ("dag", "bbn"):
        for n in (2, 3, 4):
            yield {"mode": "fixpoint", "kind": kind, "ids": IDS[:n]}
        for op in graphs.operations(kind, IDS[:3], False):
            yield {"mode": "sequences", "kind": kind, "ids": IDS[:3], "depth": 3 if tier == "quick" else 4, "first": [op]}
        for n, edges in list(nets.BIG.values()) + [(20, [[i, i + 1] for i in range(19)]), graphs.FAN]:
            yield {"mode": "offers", "kind": kind, "ids": list(range(n)), "edges": [edges]}
            yield {"mode": "offers", "kind": kind, "ids": list(range(n))[::-1], "edges": [edges[::-1]]}
        if tier == "thorough":
            dags = nets.all_dags(5)
            for k in range(0, len(dags), 50):
                yield {"mode": "offers", "kind": kind, "ids": IDS[:5], "edges": dags[k : k + 50]}
    for kind in ("dag", "bbn"):
        for n in (6, 9):
            for k in range(24 if tier == "quick" else 96):
                yield {"mode": "long", "kind": kind, "ids": IDS[:n], "stride": graphs.STRIDES[k % 24] + k // 24 * 2}


def run(case, rec):
    kind, ids = case["kind"], case["ids"]
    if case["mode"] == "long":
        return graphs.long_history(case["kind"], case["ids"], rec, False, case["stride"])
    if case["mode"] == "fixpoint":
        graphs.explore(kind, ids, rec, removal=False)
    elif case["mode"] == "sequences":
        graphs.sequences(kind, ids, case["depth"], rec, False, case["first"])
    else:
        for edges in case["edges"]:
            graphs.every_offer(kind, edges, ids, rec)
