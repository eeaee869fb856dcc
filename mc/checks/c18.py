"""C18: breadth-first search over the structures the generators reach, every random choice
being a branch; a structure is extended by one more iteration until nothing new appears."""
import collections
import random

from mc import rng

PROPERTY = "C18"
CHUNK = 1
BOUNDS = {
    "quick": "both generators: every sequence of random choices, to the fixpoint of reachable structures for 1..4 nodes "
    "(singly: 5), every pair and both sides of every coin at each; 6 nodes: 2 iterations after every prefix of "
    "length 0..1; 0, 1, 10 and 50 iterations with 40 real seeds for 1..12 nodes (15, 20 and 30: 16)",
    "thorough": "also multi-connected structures on 5 nodes to the fixpoint, 6 nodes singly to the fixpoint",
}
ASSUMPTIONS = [
    "coins are compared with one half; the two sides are represented by draws 0.25 and 0.75",
    "the next structure depends on the current edges and the draws only (checked over two routes to each structure)",
]


def cases(tier):
    deep = tier == "thorough"
    for kind in ("singly", "multi"):
        for n in list(range(1, 13)) + [15, 20, 30]:
            yield {"mode": "seeds", "kind": kind, "n": n}
    for n in (1, 2, 3, 4):
        for kind in ("singly", "multi"):
            yield {"mode": "fixpoint", "kind": kind, "n": n}
    yield {"mode": "fixpoint", "kind": "singly", "n": 5}
    for kind in ("singly", "multi"):
        for i in range(6):
            yield {"mode": "bounded", "kind": kind, "n": 6, "first": i}
    if deep:
        yield {"mode": "fixpoint", "kind": "multi", "n": 5}
        yield {"mode": "fixpoint", "kind": "singly", "n": 6}


def generator(kind):
    """The function that makes the structure (None where there is no such function), and
    its module."""
    from pybbn.generator import bbngenerator as b

    word = "singl" if kind == "singly" else "multi"
    names = [x for x in vars(b) if word in x and "structure" in x and callable(getattr(b, x))]
    return (getattr(b, names[0]) if len(names) == 1 else None), b


def judge(rec, kind, n, g, **detail):
    nodes = sorted(g.nodes)
    edges = sorted(g.edges)
    detail.update(n=n, kind=kind, edges=edges)
    if nodes != list(range(n)):
        rec.fail(f"the nodes are {nodes}", **detail)
    if not g.is_directed():
        rec.fail("the graph is not directed", **detail)
    pairs = {frozenset(e) for e in edges}
    if any(len(p) != 2 for p in pairs) or len(pairs) != len(edges):
        rec.fail("a self-loop or a two-way edge", **detail)
    comp = {i: i for i in nodes}

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i

    for a, b in edges:
        if find(a) == find(b) and kind == "singly":
            rec.fail("an undirected cycle", **detail)
        comp[find(a)] = find(b)
    if len({find(i) for i in nodes}) != 1:
        rec.fail("not connected", **detail)
    indeg = collections.Counter(b for a, b in edges)
    todo = [i for i in nodes if not indeg[i]]
    done = 0
    while todo:
        i = todo.pop()
        done += 1
        for a, b in edges:
            if a == i:
                indeg[b] -= 1
                if not indeg[b]:
                    todo.append(b)
    if done != n:
        rec.fail("a directed cycle", **detail)
    rec.trace()
    rec.outcome((kind, n, edges))
    return tuple(edges)


def steps(kind, n, iterations, prefix):
    """(graph, choices) after one more iteration than the prefix of choices covers; retried
    draws of the same node are cut after the first retry."""
    make, module = generator(kind)
    for used, g, choices in rng.tree(
        (0.25, 0.75), len(prefix) + 4, lambda: make(n, iterations), (module,), True, prefix, True
    ):
        yield g, choices


def run(case, rec):
    kind, n = case["kind"], case["n"]
    if case["mode"] == "seeds":
        return seeds(kind, n, rec)
    make, module = generator(kind)
    if make is None:
        # the code is arranged differently: only the public functions can be judged
        rec.count("structure_function_not_found")
        rec.state(("public", kind, n))
        return seeds(kind, n, rec)
    first = judge(rec, kind, n, make(n, 0))
    rec.state((kind, n, first))
    if n == 1:
        judge(rec, kind, n, make(n, 5))
        return
    seen = {first: 1}
    queue = collections.deque([(first, (), 0)])
    while queue:
        edges, prefix, depth = queue.popleft()
        for g, choices in steps(kind, n, depth + 1, prefix):
            rec.step()
            if case["mode"] == "bounded" and depth == 0 and choices[0] != case["first"]:
                continue
            if g is None:
                continue
            new = judge(rec, kind, n, g, choices=choices)
            fresh = seen.get(new, 0)
            # every structure is extended along two routes
            limit = 2 if n < 5 else 1
            if fresh < limit and not (case["mode"] == "bounded" and depth >= 1):
                seen[new] = fresh + 1
                if rec.state((kind, n, new)) and len(seen) == 3:
                    rec.sample({"kind": kind, "n": n, "choices": choices, "edges": new})
                queue.append((new, choices, depth + 1))


def seeds(kind, n, rec):
    """The public functions, with real generators."""
    import numpy as np

    from pybbn.generator import bbngenerator as b

    make = b.generate_singly_bbn if kind == "singly" else b.generate_multi_bbn
    for seed in range(10):
        for iterations in (0, 1, 10, 50) if n < 13 or seed < 4 else ():
            np.random.seed(seed)
            random.seed(seed)
            g, p = make(n, max_iter=iterations)
            rec.step()
            judge(rec, kind, n, g, seed=seed, iterations=iterations)
            if sorted(p) != list(range(n)):
                rec.fail(f"parameters are for {sorted(p)}", n=n)
