"""C32: every operation on long, deep and wide networks, against elimination along the shape."""
import copy
import json
import os
import tempfile

from mc import evid, long, nets, rt

PROPERTY = "C32"
CHUNK = 1
BOUNDS = {
    "quick": "8 shapes (chain, chain numbered against its arcs, binary tree, hidden Markov chain, star, two-wide strip, zigzag of colliders, "
    "islands) of 1200 (star: 300, others 700) and 130 variables x 2 CPT families (ordinary, probabilities near 1e-11) x 2 insertion orders x {inference under 4 evidence "
    "settings up to all but 7 variables observed, re-application, copy, serialisation, formats, sampling, removal, offered edges}",
    "thorough": "also 2500 variables (chains, strips), 1200 for the others, 500 for the star, and every size from 2 to 40",
}
ASSUMPTIONS = ["posteriors are compared at 7 variables of each network (both ends, quarters, neighbours of the middle)"]
KINDS = ("chain", "backward", "tree", "hmm", "star", "strip", "zigzag", "islands")


def cases(tier):
    sizes = {k: [130, {"chain": 1200, "backward": 1200, "star": 300}.get(k, 700)] for k in KINDS}
    if tier == "thorough":
        for k in KINDS:
            sizes[k] = list(range(2, 41)) + sizes[k] + [{"chain": 2500, "backward": 2500, "strip": 2500, "star": 500}.get(k, 1200)]
    for at in range(max(len(s) for s in sizes.values())):
        for kind in KINDS:
            if at < len(sizes[kind]):
                n = sizes[kind][at]
                for turn in (0, 1):
                    yield {"kind": kind, "n": n, "turn": turn, "part": "graphs"}
                    for part in ("infer", "derive", "formats", "causal"):
                        if part == "causal" and kind == "strip":
                            continue  # its paths are innumerable
                        yield {"kind": kind, "n": n, "turn": turn, "part": part}


def network(case):
    edges, order = long.shape(case["kind"], case["n"])
    n = case["n"]
    ids = None
    if case["turn"]:
        edges = edges[::-1]
        ids = [(7 * i + 3) % (8 * n) if n % 7 else i + 1000 for i in range(n)]
        if len(set(ids)) < n:
            ids = list(range(n))[::-1]
    spec = nets.spec(n, edges, ("generic", "skew")[case["turn"]], ids=ids, order=list(range(n))[::-1] if case["turn"] else None)
    return spec, order


def probes(n):
    return sorted({0, 1, n // 4, n // 2, n // 2 + 1, n - 2, n - 1} & set(range(n)))


def settings(n):
    yield {}
    yield {0: ("OBSERVATION", {1: 1.0}), n - 1: ("VIRTUAL", {0: 0.3, 1: 0.9})}
    yield {i: ("VIRTUAL", {0: 0.5, 1: 0.25}) for i in range(0, n, 3)}
    keep = set(probes(n))
    yield {i: ("OBSERVATION", {i % 2: 1.0}) for i in range(n) if i not in keep}


def compare(rec, jt, spec, cpts, order, given, **detail):
    like = {i: evid.meaning(*x, 2) for i, x in given.items()}
    ids = nets.ids_of(spec)
    for i in probes(spec["n"]):
        want = long.posterior(spec, cpts, order, like, i)
        got = nets.read_potential(jt.get_bbn_potential(jt.get_bbn_node(ids[i])), ids[i], nets.values_of(spec, i))
        for a, b in zip(got, want):
            if not abs(a - b) <= 1e-6 * abs(b) + 1e-15:
                rec.fail(f"posterior of variable {i} is {got}, expected {want}", observed=len(given), **detail)
        rec.outcome([float(f"{x:.6g}") for x in want])
    rec.trace()


def observe(jt, spec, given):
    jt.update_evidences([evid.make(jt, spec, i, x) for i, x in given.items()])


def run(case, rec):
    rec.state(case)
    globals()[case["part"]](case, rec)
    rec.sample(case)


def infer(case, rec):
    from pybbn.pptc.inferencecontroller import InferenceController

    spec, order = network(case)
    cpts = nets.cpts_of(spec)
    jt = InferenceController.apply(nets.build(spec, cpts))
    n = spec["n"]
    post = jt.get_posteriors()
    if sorted(post) != sorted(nets.names_of(spec)) or any(abs(sum(m.values()) - 1) > 1e-9 for m in post.values()):
        rec.fail("posteriors are not distributions over all variables")
    for given in settings(n):
        jt.unobserve_all()
        if given:
            observe(jt, spec, given)
        rec.step(2)
        rec.state((case, len(given)))
        compare(rec, jt, spec, cpts, order, given)
    jt.unobserve_all()
    rec.step()
    compare(rec, jt, spec, cpts, order, {}, retracted=True)


def derive(case, rec):
    from pybbn.graph.jointree import JoinTree
    from pybbn.pptc.inferencecontroller import InferenceController

    spec, order = network(case)
    cpts = nets.cpts_of(spec)
    bbn = nets.build(spec, cpts)
    jt = InferenceController.apply(bbn)
    n = spec["n"]
    ids = nets.ids_of(spec)
    given = dict(list(settings(n))[1])
    other = nets.cpts_of(spec, salt=5)
    changed = range(0, n, 2)
    mixed = [other[i] if i % 2 == 0 else cpts[i] for i in range(n)]
    again = InferenceController.reapply(jt, {ids[i]: list(other[i]) for i in changed})
    rec.step(2)
    compare(rec, again, spec, mixed, order, {}, reapplied=True)
    twin = copy.deepcopy(jt)
    observe(twin, spec, given)
    rec.step(2)
    compare(rec, twin, spec, cpts, order, given, copied=True)
    compare(rec, jt, spec, cpts, order, {}, copied=True)
    back = InferenceController.apply_from_serde(JoinTree.from_dict(json.loads(json.dumps(JoinTree.to_dict(jt, bbn)))))
    observe(back, spec, given)
    rec.step(3)
    compare(rec, back, spec, cpts, order, given, restored=True)


def formats(case, rec):
    from pybbn.graph.dag import Bbn
    from pybbn.pptc.inferencecontroller import InferenceController
    from pybbn.sampling.sampling import LogicSampler

    spec, order = network(case)
    cpts = nets.cpts_of(spec)
    bbn = nets.build(spec, cpts)
    n, ids, names = spec["n"], nets.ids_of(spec), nets.names_of(spec)
    before = rt.facts(bbn)
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "x")
        Bbn.to_csv(bbn, path)
        copies = {"csv": Bbn.from_csv(path)}
        Bbn.to_json(bbn, path)
        copies["json"] = Bbn.from_json(path)
    copies["deepcopy"] = copy.deepcopy(bbn)
    for how, x in copies.items():
        rec.step(2)
        if rt.facts(x) != before:
            rec.fail(f"another network after {how}")
        rec.trace()
    g = bbn.to_nx_graph()[0]
    if sorted(g.edges()) != sorted((ids[p], ids[c]) for p, c in spec["edges"]) or sorted(g.nodes()) != sorted(ids):
        rec.fail("the networkx view is another graph")
    text = Bbn.to_dne(bbn)
    if sum(text.count(f"node {x} ") + text.count(f"node {x}{{") for x in names) != n:
        rec.fail("the export does not describe every variable once")
    # sampling
    root = order[0]
    likely = f"s{cpts[root].index(max(cpts[root]))}"  # rejection must stay affordable
    evidence = {ids[root]: likely}
    samples = LogicSampler(bbn).get_samples(evidence=dict(evidence), n_samples=2, seed=11)
    rec.step(3)
    if len(samples) != 2:
        rec.fail(f"{len(samples)} samples instead of 2")
    pas = nets.parents_of(spec)
    for s in samples:
        if sorted(s) != sorted(ids) or s[ids[root]] != likely:
            rec.fail("a sample is not complete and consistent")
        v = [int(s[x][1:]) for x in ids]
        for i in range(n):
            row = 0
            for p in pas[i]:
                row = 2 * row + v[p]
            if not cpts[i][2 * row + v[i]] > 0:
                rec.fail("a sample has probability zero")
    rec.trace()
    # removal of a childless variable is marginalisation
    last = max(set(range(n)) - {p for p, _ in spec["edges"]})
    bbn.remove_node(ids[last])
    jt = InferenceController.apply(bbn)
    rec.step(2)
    for i in probes(n):
        if i == last:
            continue
        want = long.posterior(spec, cpts, order, {}, i)
        got = nets.read_potential(jt.get_bbn_potential(jt.get_bbn_node(ids[i])), ids[i], nets.values_of(spec, i))
        if max(abs(a - b) for a, b in zip(got, want)) > 1e-9:
            rec.fail(f"after removal of {last} the marginal of {i} is {got}, expected {want}")
    rec.trace()


def graphs(case, rec):
    """The same edges offered to every kind of graph, then edges that may close cycles."""
    from pybbn.graph.edge import Edge, EdgeType
    from mc.graphs import new_graph, new_node

    spec, order = network(case)
    n, ids = spec["n"], nets.ids_of(spec)
    for kind in ("dag", "bbn", "pdag", "ug"):
        g = new_graph(kind)
        nodes = [new_node(x) for x in ids]
        for x in nodes:
            g.add_node(x)
        t = EdgeType.UNDIRECTED if kind == "ug" else EdgeType.DIRECTED
        edges = spec["edges"]
        if kind == "pdag" and case["turn"]:  # its queries are slow; this order keeps them few
            edges = sorted(edges, key=lambda e: order.index(e[1]))
        for p, c in edges:
            g.add_edge(Edge(nodes[p], nodes[c], t))
        have = [(e.i.id, e.j.id) for e in g.get_edges()]
        want = [(ids[p], ids[c]) for p, c in edges]
        if kind == "ug":
            have, want = [tuple(sorted(e)) for e in have], [tuple(sorted(e)) for e in want]
        if sorted(have) != sorted(want):
            rec.fail(f"{kind}: not all edges were accepted")
        rec.step(len(want))
        if kind == "ug":
            continue
        out = [[] for _ in range(n)]
        for p, c in edges:
            out[p].append(c)
        ends = [order[0], order[n // 2], order[-1]]
        for a in ends:
            for b in ends:
                before = len(g.get_edges())
                g.add_edge(Edge(nodes[b], nodes[a], EdgeType.DIRECTED))
                added = len(g.get_edges()) - before
                rec.step()
                expected = 0 if b in out[a] or a in out[b] or reaches(out, a, b) else 1
                if added != expected:
                    rec.fail(f"{kind}: the edge {b}->{a} was {'accepted' if added else 'refused'}")
                if added:
                    out[b].append(a)
                rec.trace()
        rec.outcome((kind, case))


def reaches(out, a, b):
    seen, todo = {a}, [a]
    while todo:
        x = todo.pop()
        if x == b:
            return True
        for c in out[x]:
            if c not in seen:
                seen.add(c)
                todo.append(c)
    return False


def causal(case, rec):
    """Shapes without undirected cycles have at most one path between two nodes."""
    import networkx as nx

    from pybbn.causality import do
    from pybbn.causality.ace import Ace

    spec, order = network(case)
    n, ids = spec["n"], nets.ids_of(spec)
    d = nx.DiGraph()
    d.add_nodes_from(ids)
    d.add_edges_from((ids[p], ids[c]) for p, c in spec["edges"])
    g = do.get_graph(d)
    edges = {tuple(e) for e in spec["edges"]}
    at = {x: i for i, x in enumerate(ids)}
    for a, b in ((order[0], order[-1]), (order[-1], order[n // 2]), (n - 1, n // 2 - 1)):
        if a == b:
            continue
        path = only_path(n, edges, a, b)
        got = do.get_paths(g, ids[a], ids[b])
        rec.step()
        if [[at[v] for v in p["path"]] for p in got] != ([path] if path else []):
            rec.fail(f"the paths between {a} and {b} are wrong", got=[p["path"] for p in got][:2])
        if not path or len(path) < 3:
            continue
        cols = [z for w, z, v in zip(path, path[1:], path[2:]) if (w, z) in edges and (v, z) in edges]
        if [at[v] for v in got[0]["colliders"]] != cols or bool(got[0]["is_active"]) != (not cols):
            rec.fail(f"the path between {a} and {b} is described wrongly", colliders=len(cols), active=got[0]["is_active"])
        inner = path[1:-1]
        plain = [z for z in inner if z not in cols]
        for given in (set(), set(cols), set(cols) | set(plain[-1:]), set(plain[:1])):
            want = set(cols) <= given and not given & set(plain) if not open_below(n, edges, cols, given) else None
            if want is None:
                continue
            got_active = bool(do.is_active_path(g, [ids[v] for v in path], {ids[v] for v in given}))
            rec.step()
            if got_active != want:
                rec.fail(f"the path between {a} and {b} is reported active={got_active}", given=len(given), colliders=len(cols))
            rec.outcome((case["kind"], want, len(cols) > 0))
        rec.trace()
        back = (path[1], path[0]) in edges
        first = [z for z in (do.get_minimal_confounders(g, ids[a], ids[b]) or [])]
        # one back-door path at most; it is open exactly if it has no collider
        if bool(first) != (back and not cols) or not {at[z] for z in first} <= set(inner):
            rec.fail(f"confounders of {a} and {b} are {first[:5]}", backdoor=back, colliders=len(cols))
        med = do.get_minimal_mediators(g, ids[a], ids[b]) or []
        directed = all((x, y) in edges for x, y in zip(path, path[1:]))
        if bool(med) != directed or not {at[z] for z in med} <= set(inner):
            rec.fail(f"mediators of {a} and {b} are {med[:5]}", directed=directed)
        rec.step(2)
    if n <= 200:
        ace(spec, order, rec)


def ace(spec, order, rec):
    """The effect of a node on its first child, by elimination in the cut network."""
    from pybbn.causality.ace import Ace

    cpts, names = nets.cpts_of(spec), nets.names_of(spec)
    pas = nets.parents_of(spec)
    x = order[len(order) // 3] if spec["edges"] else None
    kids = [c for p, c in spec["edges"] if p == x]
    if not kids:
        return
    y = kids[-1]
    got = Ace(nets.build(spec, cpts)).get_ace(names[x], names[y], "s1")
    rec.step()
    cut = dict(spec, edges=[e for e in spec["edges"] if e[1] != x])
    for v in (0, 1):
        fixed = list(cpts)
        fixed[x] = [1.0 if w == v else 0.0 for w in (0, 1)]
        want = long.posterior(cut, fixed, order, {}, y)[1]
        if not abs(got[f"s{v}"] - want) <= 1e-6 * want + 1e-15:
            rec.fail(f"effect of {x}=s{v} on {y} is {got[f's{v}']}, expected {want}", parents=len(pas[x]))
    rec.trace()


def open_below(n, edges, cols, given):
    """A collider outside the evidence has a descendant in it (left to C21)."""
    out = [[] for _ in range(n)]
    for a, b in edges:
        out[a].append(b)
    return any(z not in given and any(v != z and reaches(out, z, v) for v in given) for z in cols)


def only_path(n, edges, a, b):
    near = [[] for _ in range(n)]
    for p, c in edges:
        near[p].append(c)
        near[c].append(p)
    back, todo = {a: None}, [a]
    while todo:
        x = todo.pop()
        for v in near[x]:
            if v not in back:
                back[v] = x
                todo.append(v)
    if b not in back:
        return []
    path = [b]
    while path[-1] != a:
        path.append(back[path[-1]])
    return path[::-1]
