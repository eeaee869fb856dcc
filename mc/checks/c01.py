"""C01: marginals without evidence equal the marginals of the product of the CPTs."""
from mc import nets

PROPERTY = "C01"
CHUNK = 40
BOUNDS = {
    "quick": "every labelled DAG on 1..4 nodes x 4 CPT families x 2 arity patterns x id/insertion "
    "variants; every labelled DAG on 5 nodes (29281); 14 larger shapes and the wide ones; every network of 7..9 variables with parents at fixed distances (at most 4)",
    "thorough": "as quick, plus every labelled 5-node DAG x 3 families x mixed arities and every "
    "6-node DAG up to renaming in 2 labellings (65536)",
}
ASSUMPTIONS = ["the reference multiplies the CPTs in floating point; tolerance 1e-9"]


def variants(n):
    ids = nets.GAPPED[:n]
    yield {}
    yield {"ids": ids, "order": list(range(n))[::-1]}
    yield {"ids": list(range(n))[::-1]}


def small(n):
    for edges in nets.all_dags(n):
        for kw in variants(n):
            for fam in ("generic", "mixed", "det", "skew", "weak"):
                yield nets.spec(n, edges, fam, **kw)
                yield nets.spec(n, edges[::-1], fam, nets.MIXED[:n], **kw)


def cases(tier):
    for n in (1, 2, 3, 4):
        yield from small(n)
    for n in (2, 3):  # single-valued and wide variables
        for edges in nets.all_dags(n):
            for arity in ([1, 2, 3], [4, 1, 2], [2, 5, 3]):
                yield nets.spec(n, edges, "generic", arity[:n])
    for n, edges in nets.BIG.values():
        for fam in ("generic", "mixed"):
            yield nets.spec(n, edges, fam)
            yield nets.spec(n, edges[::-1], fam, ids=nets.GAPPED[:n], order=list(range(n))[::-1])
    for fam in ("generic", "mixed"):
        yield from nets.wide(fam)
    for n in (7, 8, 9, 10) if tier == "thorough" else (7, 8, 9):
        for k, edges in enumerate(nets.banded(n)):
            yield nets.spec(n, edges, "generic", nets.MIXED[:n] if k % 2 and len(edges) < 15 else None, ids=[None, nets.GAPPED[:n]][k % 2])
    for edges in nets.all_dags(5):
        yield nets.spec(5, edges, "generic")
    if tier == "thorough":
        for edges in nets.all_dags(5):
            for fam in ("mixed", "generic"):
                yield nets.spec(5, edges[::-1], fam, nets.MIXED[1:6], ids=nets.GAPPED[:5])
        for edges in nets.topo_dags(6):
            yield nets.spec(6, edges, "generic")
            yield nets.spec(6, edges[::-1], "mixed", ids=nets.GAPPED[:6][::-1])


def run(case, rec):
    from pybbn.pptc.inferencecontroller import InferenceController

    bbn = nets.build(case)
    jt = InferenceController.apply(bbn)
    rec.state(case)
    rec.step()
    want = nets.marginals(nets.joint(case))
    got = nets.observed_marginals(jt, case)
    nets.compare_marginals(rec, got, want, case)
    nets.compare_posteriors_map(rec, jt, case, want)
    rec.trace()
    rec.outcome([[round(x, 9) for x in v] for v in want])
    if case["n"] >= 4:
        rec.sample({"network": case, "marginals": got})
