"""C13: the sampler driven by every script of uniform draws on a grid; CPT entries are
multiples of the grid step, so the exact distribution of the samples is enumerated."""
import collections
import itertools

import numpy as np

from mc import nets, rng

PROPERTY = "C13"
CHUNK = 4
BOUNDS = {
    "quick": "every 3-node DAG x 6 kinds of value labels that are easily mistaken for each other; "
    "every script of grid draws: all DAGs on 1..4 nodes (edge and node insertion orders reversed, gapped "
    "numbering, 2 and 3 values), 5-node DAGs up to renaming, 6 larger shapes, without evidence; all evidence sets on "
    "every 1..3-node DAG (one attempt), with a rejected attempt before on every 2-node and part of the 3-node DAGs; two successive "
    "samples on 2-node networks",
    "thorough": "also all labelled 4-node DAGs with every edge insertion order reversal and all evidence sets, all "
    "5-node DAGs in topological numbering with 3-valued variables, rejected attempts on all 3-node DAGs",
}
ASSUMPTIONS = [
    "uniform draws are ideal: each of the equally spaced draws is equally likely",
    "every accepted attempt uses the same number of draws",
]


def cases(tier):
    deep = tier == "thorough"
    for n in (1, 2, 3):
        for edges in nets.all_dags(n):
            for es, ids, order in (
                (edges, None, None),
                (edges[::-1], nets.GAPPED[:n], None),
                (edges[::-1], list(range(n))[::-1], list(range(n))[::-1]),
            ):
                s = nets.spec(n, es, "quarter", nets.MIXED[:n], ids=ids, order=order)
                yield {"net": s, "q": 4, "attempts": 1, "evidence": "all"}
            if n < 3 or deep or len(edges) == 2:
                yield {"net": nets.spec(n, edges[::-1], "quarter", ids=nets.GAPPED[:n], salt=1), "q": 4, "attempts": 2, "evidence": "single"}
            if n < 3:
                yield {"net": nets.spec(n, edges, "quarter", nets.MIXED[1:][:n], salt=2), "q": 4, "samples": 2}
    for s in nets.labelled(fam="quarter"):
        yield {"net": s, "q": 4, "attempts": 1, "evidence": "single"}
    for edges in nets.all_dags(4):
        yield {"net": nets.spec(4, edges[::-1], "quarter", [2, 3, 2, 2], ids=nets.GAPPED[:4]), "q": 4}
        if deep:
            yield {"net": nets.spec(4, edges, "quarter", [3, 2, 2, 3], ids=[3, 1, 2, 0], salt=1), "q": 4, "evidence": "all", "attempts": 1}
    for edges in nets.unlabelled_dags(4):
        yield {"net": nets.spec(4, edges[::-1], "eighth", ids=[3, 1, 2, 0]), "q": 8}
        yield {"net": nets.spec(4, edges, "quarter", ids=[3, 1, 2, 0], salt=3), "q": 4, "evidence": "all", "attempts": 1}
    for edges in nets.unlabelled_dags(5):
        yield {"net": nets.spec(5, edges[::-1], "quarter", [2, 2, 3, 2, 2], ids=nets.GAPPED[:5]), "q": 4}
    if deep:
        for edges in nets.topo_dags(5):
            yield {"net": nets.spec(5, edges, "quarter", [3, 2, 3, 2, 2], ids=[4, 2, 3, 0, 1], salt=4), "q": 4}
    six = {
        "star_in6": (6, [[i, 5] for i in range(5)]),
        "mixed6": (6, [[0, 2], [1, 2], [2, 3], [2, 4], [4, 5], [3, 5]]),
        "parts6": (6, [[0, 1], [2, 3], [4, 5]]),
        "rev6": (6, [[i + 1, i] for i in range(5)]),
        "fan6": (6, [[5, i] for i in range(5)] + [[0, 4]]),
        "in4": (6, [[4, 0], [3, 0], [2, 0], [1, 0], [0, 5]]),
    }
    yield {"net": nets.spec(2, [[0, 1]], "grid64", [30, 2]), "q": 64}
    yield {"net": nets.spec(2, [[1, 0]], "grid64", [30, 3], ids=nets.FAR[:2]), "q": 64, "evidence": "single", "attempts": 1}
    yield {"net": nets.spec(8, nets.WIDE["parents7"][1], "quarter"), "q": 4}
    yield {"net": nets.spec(5, nets.WIDE["strata100"][1], "quarter", nets.WIDE["strata100"][2]), "q": 4, "evidence": "single", "attempts": 1}
    for n, edges in six.values():
        yield {"net": nets.spec(n, edges, "quarter", ids=nets.GAPPED[:n]), "q": 4}


def evidences(spec, kind, j):
    """Partial assignments {node index: value index} of positive probability."""
    n, arity = spec["n"], spec["arity"]
    every = itertools.product(*[[None] + list(range(k)) for k in arity])
    for e in sorted(every, key=lambda e: sum(x is not None for x in e)):
        chosen = {i: x for i, x in enumerate(e) if x is not None}
        if kind == "single" and len(chosen) != 1:
            continue
        if kind == "none" and chosen:
            continue
        index = tuple(slice(None) if x is None else x for x in e)
        if j[index].sum() > 0:
            yield chosen


def run(case, rec):
    from pybbn.sampling import sampling

    spec, q = case["net"], case["q"]
    n, ids = spec["n"], nets.ids_of(spec)
    values = [nets.values_of(spec, i) for i in range(n)]
    grid = [(k + 0.5) / q for k in range(q)]
    bbn = nets.build(spec)
    sampler = sampling.LogicSampler(bbn)
    j = nets.joint(spec)
    rec.step()
    count = case.get("samples", 1)

    def as_index(sample):
        if set(sample) != set(ids):
            rec.fail(f"sample assigns {sorted(sample)}, not {sorted(ids)}")
        return tuple(values[i].index(sample[ids[i]]) for i in range(n))

    for e in evidences(spec, case.get("evidence", "none"), j):
        given = {ids[i]: values[i][v] for i, v in e.items()}
        mass = collections.Counter()
        limit = n * (count if not e else case["attempts"])
        for used, result in rng.tree(grid, limit, lambda: sampler.get_samples(dict(given), count, 37), (sampling,)):
            rec.step()
            rec.count("scripts")
            if result is None:
                if not e:
                    rec.fail("more draws than variables were needed without evidence", evidence=e)
                continue
            if len(result) != count:
                rec.fail(f"{len(result)} samples instead of {count}", evidence=given)
            mass[tuple(as_index(s) for s in result)] += q ** (limit - used)
        total = sum(mass.values())
        if not total:
            rec.fail("no draws at all give a sample", evidence=given)
        post = j.copy()
        for i, v in e.items():
            keep = np.zeros(spec["arity"][i])
            keep[v] = 1
            post = nets.weigh(post, {i: keep})
        post = post / post.sum()
        cells = list(np.ndindex(*spec["arity"]))
        for combo in itertools.product(cells, repeat=count):
            want = 1.0
            for c in combo:
                want *= post[c]
            got = mass.get(combo, 0) / total
            if abs(got - want) > 1e-12:
                rec.fail(
                    f"assignment {combo} is sampled with probability {got}, expected {want}",
                    evidence=given,
                )
        rec.state((spec, e, count, limit))
        rec.outcome(sorted(mass.items()))
        rec.trace(1)
    rec.sample(case)
