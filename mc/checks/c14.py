"""C14: completeness, consistency and possibility of samples under every numbering and
insertion order, with real seeds and with every combination of boundary draws."""
import itertools

import numpy as np

from mc import nets, rng
from mc.checks.c13 import evidences

PROPERTY = "C14"
CHUNK = 4
TOP = 1 - 2.0**-53
BOUNDS = {
    "quick": "every 3-node DAG x 6 kinds of value labels that are easily mistaken for each other; "
    "every DAG on 1..3 nodes x every numbering and node insertion order, every 4-node DAG x 4 numberings, "
    "5-node DAGs up to renaming, 14 larger shapes and the wide ones in 3 numberings: every evidence on one or two variables (larger: one) of "
    "probability >= 0.02, 0, 1 and 7 samples; every combination of the draws 0, 2^-53, 0.5, 1-2^-53 on 1..4-node "
    "networks with tables whose rounded sums miss 1",
    "thorough": "every 4-node DAG x every numbering; every DAG on 5 nodes in topological numbering; 5-node boundary draws",
}
ASSUMPTIONS = ["evidence has positive probability (at least 0.02 when real seeds are used)"]

AWKWARD = {
    2: [[0.1 + 0.2, 0.7], [1 / 3, 2 / 3], [0.0, 1.0], [1.0, 0.0], [0.1, 0.9], [1e-300, 1.0]],
    3: [[0.1, 0.2, 0.7], [1 / 3, 1 / 3, 1 / 3], [0.0, 0.3, 0.7], [0.7, 0.3, 0.0], [0.5, 0.0, 0.5]],
    10: [[0.1] * 10, [0.0] + [0.3, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1] + [0.0]],
    7: [[1 / 7] * 7, [0.2, 0.1, 0.1, 0.1, 0.2, 0.2, 0.1]],
}


def awkward(spec):
    cpts = []
    for i, pas in enumerate(nets.parents_of(spec)):
        rows = int(np.prod([spec["arity"][p] for p in pas])) if pas else 1
        choices = AWKWARD[spec["arity"][i]]
        cpts.append([x for r in range(rows) for x in choices[(r + i) % len(choices)]])
    return cpts


def numberings(n, edges, many):
    ids = nets.GAPPED[:n]
    if many:
        for p in itertools.permutations(range(n)):
            yield {"ids": [ids[k] for k in p], "order": list(range(n)), "edges": edges}
            yield {"ids": sorted(ids), "order": list(p), "edges": edges[::-1]}
    else:
        up, down = list(range(n)), list(range(n))[::-1]
        yield {"ids": up, "order": up, "edges": edges}
        yield {"ids": down, "order": up, "edges": edges[::-1]}
        yield {"ids": ids, "order": down, "edges": edges[::-1]}
        yield {"ids": ids[::-1], "order": up, "edges": edges}


def nets_for(n, edges, many, fam, arity=None):
    for k in numberings(n, edges, many):
        yield nets.spec(n, k["edges"], fam, arity, ids=k["ids"], order=k["order"])


def cases(tier):
    deep = tier == "thorough"
    for n in (1, 2, 3, 4):
        for edges in nets.all_dags(n):
            for s in nets_for(n, edges, n < 4 or deep, "mixed", nets.MIXED[:n]):
                yield {"mode": "seeds", "net": s, "pairs": True}
    for n in (1, 2, 3, 4) + ((5,) if deep else ()):
        for edges in nets.unlabelled_dags(n):
            for arity in ([2] * n, [3] * n, [2, 3, 10, 2, 2][:n], [10, 2, 7, 3, 2][:n]):
                if n >= 4 and arity != [2] * n:
                    continue
                yield {"mode": "draws", "net": nets.spec(n, edges, "generic", arity, ids=nets.GAPPED[:n])}
    for s in nets.labelled():
        yield {"mode": "draws", "net": s}
    for edges in nets.topo_dags(5) if deep else nets.unlabelled_dags(5):
        for s in nets_for(5, edges, False, "mixed"):
            yield {"mode": "seeds", "net": s, "pairs": False}
    for n, edges in nets.BIG.values():
        for s in nets_for(n, edges, False, "mixed"):
            yield {"mode": "seeds", "net": s, "pairs": False}
    for s in nets.wide():
        yield {"mode": "seeds", "net": s, "pairs": False}
    for q in (1e-3, 1e-4, 1e-5):
        yield {"mode": "patience", "q": q}
    for count in (1000, 5000, 20011):
        yield {"mode": "many", "count": count}


def check(rec, samples, count, spec, given, j, **detail):
    ids, n = nets.ids_of(spec), spec["n"]
    if len(samples) != count:
        rec.fail(f"{len(samples)} samples instead of {count}", evidence=given, **detail)
    for s in samples:
        if set(s) != set(ids):
            rec.fail(f"sample assigns {sorted(s)}, not {sorted(ids)}", evidence=given, **detail)
        for k, v in given.items():
            if s[k] != v:
                rec.fail(f"sample {s} contradicts the evidence", evidence=given, **detail)
        index = []
        for i in range(n):
            if s[ids[i]] not in nets.values_of(spec, i):
                rec.fail(f"{s[ids[i]]!r} is no value of {ids[i]}", evidence=given, **detail)
            index.append(nets.values_of(spec, i).index(s[ids[i]]))
        if not j[tuple(index)] > 0:
            rec.fail(f"sample {s} is impossible", evidence=given, **detail)
        rec.outcome((spec["edges"], index))
    rec.trace()


def patience(q, rec):
    """Evidence that almost every attempt contradicts."""
    from pybbn.sampling import sampling

    spec = nets.spec(2, [[0, 1]], "generic", ids=[10, 2])
    cpts = [[1 - q, q], [0.5, 0.5, 0.25, 0.75]]
    sampler = sampling.LogicSampler(nets.build(spec, cpts))
    given = {10: nets.values_of(spec, 0)[1]}
    for count in (1, 3):
        check(rec, sampler.get_samples(dict(given), count, 5), count, spec, given, nets.joint(spec, cpts), probability=q)
        rec.step()
    rec.state(("patience", q))


def many(count, rec):
    """Many samples at once: all of them, none of them a copy of a stretch of earlier ones."""
    from pybbn.sampling import sampling

    n, edges = nets.BIG["chain12"]
    spec = nets.spec(n, edges, "generic", ids=nets.GAPPED[:n])
    j = nets.joint(spec)
    ids = nets.ids_of(spec)
    for given in ({}, {ids[3]: nets.values_of(spec, 3)[0]}):
        samples = sampling.LogicSampler(nets.build(spec)).get_samples(dict(given), count, 11)
        check(rec, samples, count, spec, given, j)
        rec.step()
        rows = [hash(tuple(sorted(s.items()))) for s in samples]
        firsts = {}
        for k in range(0, count - 100, 100):  # 100 samples are as good as never drawn again
            firsts.setdefault(tuple(rows[k : k + 4]), []).append(k)
        for k in range(count - 100):
            for f in firsts.get(tuple(rows[k : k + 4]), ()):
                if f != k and rows[f : f + 100] == rows[k : k + 100]:
                    rec.fail(f"samples {k} to {k + 99} repeat samples {f} to {f + 99}", count=count, evidence=given)
    rec.state(("many", count))


def run(case, rec):
    from pybbn.sampling import sampling

    if case["mode"] == "patience":
        return patience(case["q"], rec)
    if case["mode"] == "many":
        return many(case["count"], rec)
    spec = case["net"]
    ids = nets.ids_of(spec)
    if case["mode"] == "draws":
        cpts = awkward(spec)
        # 1 where the assignment is possible (products of tiny entries would vanish)
        j = nets.joint(spec, [[1.0 if x > 0 else 0.0 for x in c] for c in cpts])
        sampler = sampling.LogicSampler(nets.build(spec, cpts))
        for e in evidences(spec, "none", j):
            for used, result in rng.tree((0.0, 2.0**-53, 0.5, TOP), spec["n"], lambda: sampler.get_samples({}, 1, 37), (sampling,)):
                rec.step()
                if result is None:
                    rec.fail("more draws than variables were needed without evidence")
                check(rec, result, 1, spec, {}, j)
        i = 0
        for v in range(spec["arity"][i]):  # boundary draws against evidence
            if nets.marginal(j, i)[v] <= 0:
                continue
            given = {ids[i]: nets.values_of(spec, i)[v]}
            for used, result in rng.tree((0.0, 0.5, TOP), spec["n"], lambda: sampler.get_samples(given, 1, 37), (sampling,)):
                rec.step()
                if result is not None:
                    check(rec, result, 1, spec, given, j)
        rec.state((spec, "draws"))
        rec.sample(case)
        return
    j = nets.joint(spec)
    sampler = sampling.LogicSampler(nets.build(spec))
    for e in evidences(spec, "all", j) if spec["n"] < 6 else big(spec):
        if len(e) > (2 if case["pairs"] else 1):
            continue
        index = tuple(e.get(i, slice(None)) for i in range(spec["n"]))
        if j[index].sum() < 0.02:
            rec.count("improbable_evidence_skipped")
            continue
        given = {ids[i]: nets.values_of(spec, i)[v] for i, v in e.items()}
        for count in (0, 1, 7):
            check(rec, sampler.get_samples(dict(given), count, 7), count, spec, given, j)
            rec.step()
        rec.state((spec, e))


def big(spec):
    yield {}
    for i in range(spec["n"]):
        for v in range(spec["arity"][i]):
            yield {i: v}
