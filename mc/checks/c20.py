"""C20: every causal query on every small network against the truncated factorisation; every
order of queries up to a depth on one estimator."""
import itertools

import numpy as np

from mc import nets, world

PROPERTY = "C20"
CHUNK = 2
BOUNDS = {
    "quick": "every 3-node DAG x 6 kinds of value labels that are easily mistaken for each other; "
    "every query on every 2- and 3-node DAG (3 CPT families, 3 numberings, 2 and 3 values), every 4-node DAG and "
    "5-node DAGs up to renaming; 3 larger shapes; every sequence of 3 queries on 2-node, of 2 queries on 3-node and three 4-node networks",
    "thorough": "every query on every DAG on 5 nodes in topological numbering and on 9 larger shapes; sequences of 3 queries on 3-node networks",
}
ASSUMPTIONS = ["every value of the cause is possible under every parent combination that is possible (others are skipped and counted)"]


def cases(tier):
    deep = tier == "thorough"
    for n in (2, 3):
        for edges in nets.all_dags(n):
            for fam in ("generic", "mixed", "detroot"):
                yield {"net": nets.spec(n, edges, fam, nets.MIXED[:n])}
                yield {"net": nets.spec(n, edges[::-1], fam, ids=nets.GAPPED[:n], order=list(range(n))[::-1])}
                yield {"net": nets.spec(n, edges[::-1], fam, [3, 2, 2][:n], ids=list(range(n))[::-1], salt=1)}
            yield {"net": nets.spec(n, edges, "generic"), "depth": 3 if n == 2 or deep else 2}
    for s in nets.labelled():
        yield {"net": s}
    for edges in nets.all_dags(4):
        yield {"net": nets.spec(4, edges[::-1], "generic", ids=nets.GAPPED[:4])}
    for edges in ([[0, 2], [1, 2], [2, 3], [0, 3]], [[0, 1], [0, 2], [1, 3], [2, 3]], [[0, 1], [1, 2], [0, 3], [2, 3]]):
        yield {"net": nets.spec(4, edges, "generic", ids=nets.GAPPED[:4]), "depth": 2}
    for edges in nets.topo_dags(5) if deep else nets.unlabelled_dags(5):
        yield {"net": nets.spec(5, edges, "generic", ids=nets.GAPPED[:5]), "few": not deep, "once": not deep}
    for name in ("huang", "star_in6", "loop8") + (("grid3x3", "dense7", "ladder", "three_parts", "two_trees", "naive_chain") if deep else ()):
        n, edges = nets.BIG[name]
        yield {"net": nets.spec(n, edges, "generic", ids=nets.GAPPED[:n]), "few": True}
    for s in nets.wide(but=() if deep else ("parents7", "strata100", "separation5")):
        yield {"net": s, "few": True, "once": True}
    yield {"net": nets.spec(4, [[1, 2], [0, 2], [2, 3], [0, 3]], "generic", [9, 8, 2, 2], ids=nets.FAR[:4]), "few": True, "once": True}


def effect(spec, x, y, v):
    """P(y = v | do(x = .)) for every value of x, or None if x is not always possible."""
    cpts = nets.cpts_of(spec)
    pas = nets.parents_of(spec)[x]
    kx = spec["arity"][x]
    j = nets.joint(spec)
    for r, combo in enumerate(itertools.product(*[range(spec["arity"][p]) for p in pas])):
        index = [slice(None)] * spec["n"]
        for p, c in zip(pas, combo):
            index[p] = c
        if j[tuple(index)].sum() > 0 and min(cpts[x][r * kx : r * kx + kx]) <= 0:
            return None
    cut = dict(spec, edges=[e for e in spec["edges"] if e[1] != x])
    result = []
    for xv in range(kx):
        # same tables for the others (parent orders are unchanged), x fixed
        fixed = [list(c) for c in cpts]
        fixed[x] = [1.0 if k == xv else 0.0 for k in range(kx)]
        result.append(float(nets.marginal(nets.joint(cut, fixed), y)[v]))
    return result


def queries(spec):
    for x in range(spec["n"]):
        for y in range(spec["n"]):
            if x != y:
                for v in range(spec["arity"][y]):
                    yield x, y, v


def ask(rec, ace, spec, q, cache, path):
    x, y, v = q
    names = nets.names_of(spec)
    if q not in cache:
        cache[q] = effect(spec, x, y, v)
    want = cache[q]
    got = ace.get_ace(names[x], names[y], nets.values_of(spec, y)[v])
    rec.step()
    if want is None:
        rec.count("inadmissible_queries_skipped")
        return
    values = nets.values_of(spec, x)
    if set(got) != set(values):
        rec.fail(f"effects are for {sorted(got)}", queries=path)
    for xv, w in zip(values, want):
        if not abs(got[xv] - w) <= 1e-9:
            rec.fail(
                f"effect of {names[x]}={xv} on {names[y]} is {got[xv]}, expected {w}", queries=path
            )
    rec.outcome([round(w, 9) for w in want])
    rec.trace()


def run(case, rec):
    from pybbn.causality.ace import Ace
    from pybbn.pptc.inferencecontroller import InferenceController

    spec = case["net"]
    every = list(queries(spec))
    if case.get("few"):
        every = [q for q in every if q[2] == 0]
    if max(spec["arity"]) > 3 or spec["n"] > 10:  # causes with few values, or of few variables
        every = [q for q in every if spec["arity"][q[0]] < 13 and (q[0] < 4 or q[1] < 2)]
    cache = {}
    if "depth" in case:
        paths = [p for d in range(2, case["depth"] + 1) for p in itertools.product(every, repeat=d)]
        if case["depth"] == 2:
            paths = [p for p in paths if p[0][2] == p[1][2]]
    else:
        paths = None
    if paths is None:  # every query in one long history, in both orders, and each on its own
        paths = [tuple(every), tuple(every[::-1])]
        if case.get("once"):
            paths.pop()
        if spec["n"] <= 3:
            paths += [(q,) for q in every]
    for path in paths:
        bbn = nets.build(spec)
        before = world.snapshot(bbn)
        ace = Ace(bbn)
        for k, q in enumerate(path):
            if "depth" in case and k < len(path) - 1:
                names = nets.names_of(spec)
                ace.get_ace(names[q[0]], names[q[1]], nets.values_of(spec, q[1])[q[2]])
                rec.step()
                continue
            ask(rec, ace, spec, q, cache, path[: k + 1])
        if world.snapshot(bbn) != before:
            rec.fail("the network was changed", queries=path)
        rec.state((spec, path))
        if len(path) != 1 and "depth" not in case or path == paths[-1]:
            want = nets.marginals(nets.joint(spec))
            jt = InferenceController.apply(bbn)
            nets.compare_marginals(rec, nets.observed_marginals(jt, spec), want, spec)
    rec.sample(case)
