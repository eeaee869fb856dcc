"""C07: all sequences of evidence and re-application on a growing set of trees."""
from mc import nets, world

PROPERTY = "C07"
CHUNK = 1
OPS = ["re", "ev", "clear"]
BOUNDS = {
    "quick": "every DAG on 1..3 nodes x sequences of depth 2; 8 networks x depth 3; 14 larger shapes and the wide ones and every "
    "4-node DAG x depth 1; operations: re-apply with 3 subsets of CPTs (on networks of 1..3 variables also slightly changed ones), 4 evidences, retract, on any tree so far; 10 networks x one history of 150 operations",
    "thorough": "every DAG on 1..3 nodes x depth 3; 4 networks x depth 4; every 4-node DAG x depth 2",
}


def shapes():
    yield nets.spec(2, [[0, 1]], "generic", [2, 3])
    yield nets.spec(3, [[0, 1], [1, 2]], "generic")
    yield nets.spec(3, [[2, 0], [1, 0]], "generic", [3, 2, 2], ids=[10, 2, 33])
    yield nets.spec(3, [[0, 1]], "generic")
    yield nets.spec(3, [[0, 1], [1, 2], [0, 2]], "mixed")
    yield nets.spec(4, [[0, 1], [0, 2], [1, 3], [2, 3]], "generic")
    yield nets.spec(4, [[0, 1], [2, 3]], "mixed", ids=[7, 10, 2, 1])
    yield nets.spec(4, [[3, 0], [2, 0], [1, 0]], "generic")


def cases(tier):
    # small changes of CPTs, and of rare values
    for n in (1, 2, 3):
        for k, edges in enumerate(nets.all_dags(n)):
            for family in ("skew", "generic"):
                net = nets.spec(n, edges, family, nets.MIXED[:n] if k % 2 else None, nudge=True)
                yield {"net": net, "ops": OPS, "depth": 2 if tier == "thorough" or n < 3 else 1, "prefix": []}
    for s in list(shapes()) + [nets.spec(*nets.BIG["huang"]), nets.spec(*nets.BIG["three_parts"], ids=nets.GAPPED[:10])]:
        yield {"net": s, "ops": ["re", "ev", "clear", "copy", "serde", "apply"], "steps": 400 if tier == "thorough" else 150}
    yield from split(tier, OPS, (2, 3, 1) if tier == "quick" else (3, 4, 2))


def split(tier, ops, depths):
    small, deep, wide = depths
    for n in (1, 2, 3):
        for edges in nets.all_dags(n):
            yield {"net": nets.spec(n, edges, "generic", nets.MIXED[:n]), "ops": ops, "depth": small, "prefix": []}
    for n, edges in nets.BIG.values():
        yield {"net": nets.spec(n, edges, "generic", ids=nets.GAPPED[:n]), "ops": ops, "depth": 1, "prefix": []}
    for s in nets.wide():
        yield {"net": s, "ops": ops, "depth": 1, "prefix": []}
    for edges in nets.all_dags(4):
        yield {"net": nets.spec(4, edges, "mixed"), "ops": ops, "depth": wide, "prefix": []}
    for k, s in enumerate(shapes()):
        if tier == "thorough" and k % 2:
            continue
        for op in world.first_steps(s, ops):
            yield {"net": s, "ops": ops, "depth": deep, "prefix": [op]}


def run(case, rec):
    if "steps" in case:
        return world.long_world(case["net"], case["ops"], case["steps"], rec)
    world.explore(case["net"], case["ops"], case["depth"], rec, case["prefix"])
