"""C21: path activity and path descriptions on every small DAG, pair and evidence set."""
import itertools

from mc import dsep, nets

PROPERTY = "C21"
CHUNK = 4
BOUNDS = {
    "quick": "every DAG on 2..4 nodes and every DAG on 5 nodes up to renaming, every ordered pair, every evidence set among the other nodes, "
    "integer and text labels in two orders of insertion; 11 larger shapes with every evidence set of at most 2 nodes",
    "thorough": "every DAG on 5 nodes in topological numbering, every DAG on 6 nodes with at most 7 edges in topological numbering",
}
LABELS = [list(range(40)), ["c", "x", "a", "b", "z", "y", "d", "e", "f", "g", "h", "i"]]
# a long chain, a long path with colliders, many parallel paths, a collider with a long tail
LONG = [
    (40, [[i, i + 1] for i in range(39)]),
    (40, [[i, i + 1] if i % 3 else [i + 1, i] for i in range(39)]),
    (38, [[0, k] for k in range(1, 37)] + [[k, 37] for k in range(1, 37)]),
    (38, [[0, k] if k % 2 else [k, 0] for k in range(1, 37)] + [[k, 37] if k % 3 else [37, k] for k in range(1, 37) if k % 3 or k % 2]),
    (30, [[0, 2], [1, 2]] + [[i, i + 1] for i in range(2, 29)]),
]


def cases(tier):
    for n in (2, 3, 4):
        for edges in nets.all_dags(n):
            yield {"n": n, "edges": edges, "labels": 0}
            yield {"n": n, "edges": edges[::-1], "labels": 1}
    for edges in nets.topo_dags(5) if tier == "thorough" else nets.unlabelled_dags(5):
        yield {"n": 5, "edges": edges, "labels": 1}
        yield {"n": 5, "edges": edges[::-1], "labels": 0}
    for name, (n, edges) in nets.BIG.items():
        if name not in ("dense7", "ladder", "grid3x3"):
            yield {"n": n, "edges": edges, "labels": 1, "few": True}
    for n, edges in LONG:
        yield {"n": n, "edges": edges, "labels": 0, "ends": True}
    if tier == "thorough":
        for edges in nets.topo_dags(6):
            if len(edges) <= 7:
                yield {"n": 6, "edges": edges, "labels": 0}


def graph(case):
    import networkx as nx

    from pybbn.causality import do

    names = LABELS[case["labels"]]
    d = nx.DiGraph()
    order = range(case["n"]) if case["labels"] == 0 else reversed(range(case["n"]))
    d.add_nodes_from(names[i] for i in order)
    d.add_edges_from((names[a], names[b]) for a, b in case["edges"])
    return do, do.get_graph(d), names, {x: i for i, x in enumerate(names)}


def pairs(case):
    n = case["n"]
    return [(0, n - 1), (n - 1, 0), (1, n - 2), (0, 1), (n // 2, 1)] if "ends" in case else itertools.permutations(range(n), 2)


def run(case, rec):
    do, g, names, at = graph(case)
    n = case["n"]
    edges = {tuple(e) for e in case["edges"]}
    if sorted(map(str, g.u.nodes)) != sorted(str(names[i]) for i in range(n)):
        rec.fail(f"the undirected graph has nodes {list(g.u.nodes)}")
    got = {frozenset((at[a], at[b])) for a, b in g.u.edges}
    if got != {frozenset(e) for e in edges}:
        rec.fail(f"the undirected graph has edges {got}")
    for x, y in pairs(case):
        want = dsep.simple_paths(n, edges, x, y)
        got = do.get_paths(g, names[x], names[y])
        rec.step()
        paths = {}
        for p in got:
            path = tuple(at[v] for v in p["path"])
            if path in paths:
                rec.fail(f"path {path} is reported twice", x=x, y=y)
            paths[path] = p
        if set(paths) != set(want):
            rec.fail(f"paths between {x} and {y} are {sorted(paths)}, expected {sorted(want)}")
        plain = sorted(tuple(at[v] for v in p) for p in do.get_all_paths(g, names[x], names[y]))
        if plain != sorted(want):
            rec.fail(f"all paths between {x} and {y} are {plain}", x=x, y=y)
        for path, p in paths.items():
            describe(rec, do, g, names, at, n, edges, x, y, path, p)
        others = [i for i in range(n) if i not in (x, y)]
        top = 1 if "ends" in case else 2 if case.get("few") else len(others)
        sets = [ev for k in range(top + 1) for ev in itertools.combinations(others, k)]
        if top < len(others):
            sets += [tuple(others), tuple(others[::2]), tuple(others[1::3]), tuple(others[:-1])]
        for ev in sets:
            evidence = {names[i] for i in ev}
            flags = []
            for path in want:
                if len(path) < 3:
                    continue
                given = set(evidence)
                got = do.is_active_path(g, [names[i] for i in path], given)
                rec.step()
                exp = dsep.active(n, edges, path, set(ev))
                if bool(got) != exp:
                    rec.fail(f"path {path} given {ev} is reported active={got}", edges=case["edges"])
                if given != evidence:
                    rec.fail("the evidence was changed", path=path)
                flags.append(bool(got))
            if not dsep.adjacent(edges, x, y):
                if dsep.separated(n, edges, x, y, set(ev)) == any(flags):
                    rec.fail(f"separation of {x} and {y} given {ev} does not follow from the paths", edges=case["edges"])
            rec.outcome((flags, len(want)))
            rec.state((case["n"], case["labels"], case["edges"], x, y, ev))
            rec.trace()


def describe(rec, do, g, names, at, n, edges, x, y, path, p):
    labelled = [names[i] for i in path]
    cols = dsep.colliders(edges, path)
    facts = {
        "x": at[p["x"]] == x,
        "y": at[p["y"]] == y,
        "colliders": [at[v] for v in p["colliders"]] == cols,
        "z": sorted(at[v] for v in p["z"]) == sorted(set(path) - {x, y} - set(cols)),
        "backdoor": bool(p["backdoor"]) == ((path[1], path[0]) in edges),
        "frontdoor": bool(p["frontdoor"]) == ((path[0], path[1]) in edges),
    }
    facts["is_active"] = bool(p["is_active"]) == (dsep.active(n, edges, path, set()) if len(path) > 2 else True)
    bad = [k for k, ok in facts.items() if not ok]
    if bad:
        rec.fail(f"path {path}: {bad[0]} is {p[bad[0]]}", edges=sorted(edges))
    if [at[v] for v in do.get_colliders(g, labelled)] != cols:
        rec.fail(f"colliders of {path} are wrong", edges=sorted(edges))
    triplets = do.get_path_triplets(labelled)
    want = [labelled[i : i + 3] for i in range(len(path) - 2)] if len(path) > 2 else [labelled]
    if [list(t) for t in triplets] != want:
        rec.fail(f"triplets of {path} are {triplets}")
    for w, z, v in zip(path, path[1:], path[2:]):
        if (w, z) in edges and (v, z) in edges:
            kind = "converging"
        elif (z, w) in edges and (z, v) in edges:
            kind = "diverging"
        else:
            kind = "serial"
        got = do.get_triplet_type(g, names[w], names[z], names[v])
        if got != kind:
            rec.fail(f"triplet {w, z, v} is {got}, expected {kind}", edges=sorted(edges))
        for ev in (set(), {z}, dsep.descendants(n, edges, z)):
            ev = ev - {w, v}
            got = do.is_active_triplet(g, names[w], names[z], names[v], {names[i] for i in ev})
            if bool(got) != dsep.active(n, edges, (w, z, v), ev):
                rec.fail(f"triplet {w, z, v} given {ev} is reported active={got}", edges=sorted(edges))
            rec.step()
