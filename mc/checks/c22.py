"""C22: confounder and mediator queries on every small DAG and ordered pair."""
from mc import dsep, nets
from mc.checks.c21 import LONG, graph, pairs

PROPERTY = "C22"
CHUNK = 8
BOUNDS = {
    "quick": "every DAG on 2..4 nodes, every DAG on 5 nodes in topological numbering, 6-node DAGs with at most 7 edges (a third of them), every "
    "ordered pair, integer and text labels; 11 larger shapes",
    "thorough": "every labelled DAG on 5 nodes, every DAG on 6 nodes in topological numbering",
}


def cases(tier):
    for n in (2, 3, 4):
        for edges in nets.all_dags(n):
            yield {"n": n, "edges": edges, "labels": 0}
            yield {"n": n, "edges": edges[::-1], "labels": 1}
    for edges in nets.topo_dags(5):
        yield {"n": 5, "edges": edges, "labels": len(edges) % 2}
    for name, (n, edges) in nets.BIG.items():
        if name not in ("dense7", "ladder", "grid3x3"):
            yield {"n": n, "edges": edges, "labels": 0}
            yield {"n": n, "edges": edges[::-1], "labels": 1}
    for n, edges in LONG:
        yield {"n": n, "edges": edges, "labels": 0, "ends": True}
    if tier == "thorough":
        for k, edges in enumerate(nets.all_dags(5)):
            yield {"n": 5, "edges": edges, "labels": k % 2}
        for edges in nets.topo_dags(6):
            yield {"n": 6, "edges": edges, "labels": 1}
    else:
        for k, edges in enumerate(e for e in nets.topo_dags(6) if len(e) <= 7):
            if k % 3 == 0:
                yield {"n": 6, "edges": edges, "labels": 0}


def run(case, rec):
    do, g, names, at = graph(case)
    n = case["n"]
    edges = {tuple(e) for e in case["edges"]}
    for x, y in pairs(case):
        paths = dsep.simple_paths(n, edges, x, y)
        is_open = {p: dsep.active(n, edges, p, set()) for p in paths}
        back = [p for p in paths if (p[1], p[0]) in edges]
        open_back = [p for p in back if is_open[p]]
        blocked_cols = {c for p in back if not is_open[p] for c in dsep.colliders(edges, p)}
        inside = {z for p in open_back for z in p[1:-1]}
        want = inside - blocked_cols - dsep.descendants(n, edges, x)
        what = dict(x=x, y=y, edges=case["edges"])

        got = {at[v] for v in do.get_all_confounders(g, names[x], names[y])}
        rec.step()
        if got != want:
            rec.fail(f"confounders of {x} and {y} are {sorted(got)}, expected {sorted(want)}", **what)

        got = [at[v] for v in do.get_minimal_confounders(g, names[x], names[y])]
        rec.step()
        if len(set(got)) != len(got) or not set(got) <= inside:
            rec.fail(f"minimal confounders are {got}, open back-door paths pass through {sorted(inside)}", **what)
        for p in open_back:
            if len(p) > 2 and not set(got) & set(p[1:-1]):
                rec.fail(f"no minimal confounder on {p}: {got}", **what)

        directed = [p for p in paths if all(e in edges for e in zip(p, p[1:]))]
        on = {z for p in directed for z in p[1:-1]}
        cols = {c for p in paths for c in dsep.colliders(edges, p)}
        got = [at[v] for v in do.get_minimal_mediators(g, names[x], names[y])]
        rec.step()
        if len(set(got)) != len(got) or not set(got) <= on:
            rec.fail(f"minimal mediators are {got}, directed paths pass through {sorted(on)}", **what)
        for p in directed:
            if len(p) > 2 and not set(p[1:-1]) & cols and not set(got) & set(p[1:-1]):
                rec.fail(f"no mediator on {p}: {got}", **what)
        rec.state((case["n"], case["edges"], x, y))
        rec.outcome((sorted(want), sorted(got)))
        rec.trace()
