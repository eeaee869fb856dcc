"""C19: generated parameters for every structure and every choice of value counts; every
conversion and file compared with the generated network."""
import json
import os
import random
import shutil
import tempfile

import numpy as np

from mc import nets, rng, rt

PROPERTY = "C19"
CHUNK = 4
BOUNDS = {
    "quick": "every DAG on 1..3 nodes x every sequence of random value counts for maxima 1..4; every 4-node DAG x "
    "every sequence for maximum 3; generated networks of 1..8, 11 and 13 nodes of both kinds, up to 4 seeds, up to 30 values: drawing graph, JSON text plain and "
    "pretty, CSV and JSON files; every pair of (values, alphas) maxima 2..4 x 1..10 step 3",
    "thorough": "every 4-node DAG x maxima 2..4, 5-node DAGs up to renaming x maximum 3, 20 seeds up to 10 nodes",
}
ASSUMPTIONS = ["the structure's nodes are numbered 0..n-1 and listed in ascending order, as the generators return them"]


def cases(tier):
    deep = tier == "thorough"
    for n in (1, 2, 3):
        for edges in nets.all_dags(n):
            for top in (1, 2, 3, 4):
                yield {"mode": "counts", "n": n, "edges": edges, "max": top}
    for edges in nets.all_dags(4):
        for top in (2, 3, 4) if deep else (3,):
            yield {"mode": "counts", "n": 4, "edges": edges, "max": top}
    if deep:
        for edges in nets.unlabelled_dags(5):
            yield {"mode": "counts", "n": 5, "edges": edges, "max": 3}
    for n in range(1, 11 if deep else 9):
        for kind in ("singly", "multi"):
            for seed in range(20 if deep else 4):
                yield {"mode": "files", "n": n, "kind": kind, "seed": seed}
    for n in (11, 13):  # numbers whose order differs as text
        for kind in ("singly", "multi"):
            yield {"mode": "files", "n": n, "kind": kind, "seed": 0}


def check_params(rec, g, p, top, **detail):
    n = len(g.nodes)
    if sorted(p) != list(range(n)):
        rec.fail(f"parameters are for {sorted(p)}", **detail)
    counts = [int(p[i]["shape"][1]) for i in range(n)]
    if any(not 2 <= k <= max(2, top) for k in counts):
        rec.fail(f"numbers of values are {counts}, the maximum is {top}", **detail)
    for i in range(n):
        pas = [int(x) for x in p[i]["parents"]]
        if sorted(pas) != sorted(g.predecessors(i)):
            rec.fail(f"parents of {i} are {pas}", **detail)
        rows = int(np.prod([counts[x] for x in pas])) if pas else 1
        t = np.array(p[i]["params"], dtype=float)
        if t.shape != (rows, counts[i]) or [int(x) for x in p[i]["shape"]] != [rows, counts[i]]:
            rec.fail(f"table of {i} has shape {t.shape}, {p[i]['shape']}", **detail)
        if not (t >= 0).all() or not (abs(t.sum(axis=1) - 1) < 1e-9).all():
            rec.fail(f"table of {i} is {t.tolist()}", **detail)
    return counts


def spec_of(g, p, counts):
    n = len(g.nodes)
    edges = [[int(x), i] for i in range(n) for x in p[i]["parents"]]
    return nets.spec(n, edges, arity=counts), [
        [float(x) for x in np.array(p[i]["params"]).flatten()] for i in range(n)
    ]


def check_bbn(rec, g, p, counts, infer=True, **detail):
    from pybbn.generator import bbngenerator as b
    from pybbn.pptc.inferencecontroller import InferenceController

    n = len(g.nodes)
    bbn = b.convert_for_exact_inference(g, p)
    rec.step()
    got = rt.facts(bbn)
    spec, cpts = spec_of(g, p, counts)
    if [x[0] for x in got["nodes"]] != list(range(n)):
        rec.fail(f"nodes of the network are {got['nodes']}", **detail)
    if [(a, c) for a, c, t in got["edges"]] != sorted((a, c) for a, c in g.edges):
        rec.fail(f"edges of the network are {got['edges']}", **detail)
    for i, (_, _, name, values, probs) in enumerate(got["nodes"]):
        if len(values) != counts[i] or len(set(values)) != counts[i]:
            rec.fail(f"values of {i} are {values}", **detail)
        if len(probs) != len(cpts[i]) or max(abs(a - c) for a, c in zip(probs, cpts[i])) > 1e-12:
            rec.fail(f"table of {i} in the network is {probs}, generated {cpts[i]}", **detail)
    if infer:
        want = nets.marginals(nets.joint(spec, cpts))
        jt = InferenceController.apply(bbn)
        for i in range(n):
            node = jt.get_bbn_node(i)
            vals = {e.entries[i]: e.value for e in jt.get_bbn_potential(node).entries}
            for v, w in zip(node.variable.values, want[i]):
                if not abs(vals[v] - w) < 1e-9:
                    rec.fail(f"marginal of {i} is {vals}, expected {want[i].tolist()}", **detail)
    rec.trace()
    return bbn


def counted(limit, body):
    """Runs body under every choice of its first `limit` integer draws (which decide the
    numbers of values); the later ones follow a fixed pattern."""
    choices, sizes = [], []
    while True:
        used = 0

        def index(k):
            nonlocal used
            used += 1
            if used > limit:
                return (used * 7) % k
            if used > len(choices):
                choices.append(0)
                sizes.append(k)
            sizes[used - 1] = k
            return choices[used - 1]

        saved = np.random.randint
        np.random.randint = rng.Source(lambda: 0.5, index).randint
        try:
            result = body()
        finally:
            np.random.randint = saved
        yield tuple(choices), result
        while choices and choices[-1] == sizes[len(choices) - 1] - 1:
            choices.pop()
            sizes.pop()
        if not choices:
            return
        choices[-1] += 1


def run(case, rec):
    import networkx as nx

    from pybbn.generator import bbngenerator as b

    n = case["n"]
    if case["mode"] == "counts":
        g = nx.DiGraph()
        g.add_nodes_from(range(n))
        g.add_edges_from([tuple(e) for e in case["edges"]])
        names = [x for x in vars(b) if "generate_parameters" in x and callable(getattr(b, x))]
        if len(names) != 1:
            # the code is arranged differently: only the public functions can be judged
            rec.count("parameter_function_not_found")
            rec.state((n, str(case["edges"])))
            return
        make = getattr(b, names[0])
        np.random.seed(3)
        random.seed(3)
        seen = set()
        for choices, p in counted(n, lambda: make(g, case["max"], 10)):
            rec.step()
            counts = check_params(rec, g, p, case["max"], edges=case["edges"], choices=choices)
            key = (n, str(case["edges"]), tuple(counts))
            rec.outcome(counts)
            if rec.state(key + (choices, case["max"])):
                check_bbn(rec, g, p, counts, infer=key not in seen, edges=case["edges"])
                seen.add(key)
        return
    files(case, rec)


def files(case, rec):
    from pybbn.generator import bbngenerator as b
    from pybbn.graph.dag import Bbn

    n, kind, seed = case["n"], case["kind"], case["seed"]
    make = b.generate_singly_bbn if kind == "singly" else b.generate_multi_bbn
    scratch = tempfile.mkdtemp(prefix="verif-c19-")
    try:
        wide = ((30, 100, 10), (5, 1000, 25)) if n <= 3 else ()
        for top, alpha, iterations in ((2, 10, 10), (3, 1, 0), (4, 4, 25)) + wide if n <= 8 else ((2, 3, 8),):
            np.random.seed(seed)
            random.seed(seed)
            g, p = make(n, max_iter=iterations, max_values=top, max_alpha=alpha)
            counts = check_params(rec, g, p, top, seed=seed)
            bbn = check_bbn(rec, g, p, counts, seed=seed)
            rec.state((n, kind, seed, top, alpha, iterations))
            rec.outcome((sorted(g.edges), counts))

            d = b.convert_for_drawing(bbn)
            if sorted(d.nodes) != list(range(n)) or sorted(d.edges) != sorted(g.edges) or not d.is_directed():
                rec.fail(f"drawing has nodes {list(d.nodes)} and edges {list(d.edges)}, expected {sorted(g.edges)}")
            for pretty in (False, True):
                j = json.loads(b.to_json(g, p, pretty))
                if sorted(j["nodes"]) != list(range(n)) or sorted((e["pa"], e["ch"]) for e in j["edges"]) != sorted(g.edges):
                    rec.fail(f"JSON text describes {j['nodes']} {j['edges']}, expected {sorted(g.edges)}")
                by = {x["node"]: x for x in j["parameters"]}
                if sorted(by) != list(range(n)) or len(j["parameters"]) != n:
                    rec.fail(f"JSON text has parameters of {sorted(by)}")
                for i in range(n):
                    if by[i]["params"] != p[i]["params"].flatten().tolist() or by[i]["shape"] != [int(x) for x in p[i]["shape"]]:
                        rec.fail(f"JSON text gives parameters {by[i]} for {i}, expected {p[i]}")
            for ext in ("csv", "json"):
                path = os.path.join(scratch, "net." + ext)
                np.random.seed(seed)
                random.seed(seed)
                b.generate_bbn_to_file(n, path, bbn_type=kind, max_iter=iterations, max_values=top, max_alpha=alpha)
                back = Bbn.from_csv(path) if ext == "csv" else Bbn.from_json(path)
                rec.step(2)
                spec, cpts = spec_of(g, p, counts)
                rt.check(rec, rt.facts(bbn), back, dict(spec, names=[str(i) for i in range(n)]), nets.marginals(nets.joint(spec, cpts)), file=ext)
        rec.sample(case)
    finally:
        shutil.rmtree(scratch)
