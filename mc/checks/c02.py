"""C02: posteriors under every evidence assignment equal Bayes' rule on the full joint."""
import itertools

from mc import evid, nets

PROPERTY = "C02"
CHUNK = 2
BOUNDS = {
    "quick": "every 3-node DAG x 6 kinds of value labels that are easily mistaken for each other; "
    "every labelled DAG on 1..3 nodes x 4 CPT families x 2 arity patterns x every assignment of "
    "hard, partial and soft evidence to every subset of nodes; every labelled 4-node DAG x every hard "
    "assignment; 14 larger shapes and the wide ones x every pair of hard observations",
    "thorough": "as quick, plus every labelled 4-node DAG x 2 families x every assignment over hard and soft "
    "options, and every 5-node DAG up to renaming x every hard assignment",
}
ASSUMPTIONS = ["reference joint in floating point, tolerance 1e-9", "evidence of probability zero is skipped here (see C03)"]


def cases(tier):
    for n in (1, 2, 3):
        for edges in nets.all_dags(n):
            for fam in ("generic", "mixed", "detroot", "skew"):
                yield {"net": nets.spec(n, edges, fam), "options": "alphabet", "how": "batch"}
                yield {
                    "net": nets.spec(n, edges[::-1], fam, nets.MIXED[1:][:n], ids=nets.GAPPED[:n]),
                    "options": "alphabet",
                    "how": "single",
                }
    for s in nets.labelled():
        yield {"net": s, "options": "few", "how": "batch"}
    for i, edges in enumerate(nets.all_dags(4)):
        yield {
            "net": nets.spec(4, edges, ("generic", "mixed", "skew")[i % 3]),
            "options": "hard",
            "how": ("batch", "single", "observe")[i // 3 % 3],
        }
    for n, edges in nets.BIG.values():
        for how in ("batch", "observe"):
            yield {"net": nets.spec(n, edges, "mixed" if how == "batch" else "skew"), "options": "pairs", "how": how}
    for s in nets.wide("mixed"):
        yield {"net": s, "options": "pairs", "how": "batch"}
    if tier == "thorough":
        for edges in nets.unlabelled_dags(5):
            yield {"net": nets.spec(5, edges, "mixed"), "options": "hard", "how": "batch"}
            yield {
                "net": nets.spec(5, edges[::-1], "generic", nets.MIXED[:5], ids=nets.GAPPED[:5]),
                "options": "hard",
                "how": "observe",
            }
        for edges in nets.all_dags(4):
            yield {"net": nets.spec(4, edges, "mixed"), "options": "alphabet", "how": "batch"}
            yield {"net": nets.spec(4, edges, "generic"), "options": "few", "how": "single"}


def assignments(case):
    arity = case["net"]["arity"]
    o = case["options"]
    if o == "alphabet":
        return evid.assignments(arity, evid.alphabet)
    if o == "few":
        return evid.assignments(arity, lambda k: evid.soft(k)[:2] + evid.hard(k)[-1:])
    if o == "hard":
        return evid.assignments(arity, evid.hard)
    result = []
    n = len(arity)
    for a, b in itertools.combinations(range(n), 2):
        for va in range(arity[a]):
            x = [None] * n
            x[a] = ("OBSERVATION", {va: 1.0})
            x[b] = ("OBSERVATION", {(va + 1) % arity[b]: 1.0})
            result.append(tuple(x))
    return result


def run(case, rec):
    from pybbn.pptc.inferencecontroller import InferenceController

    spec = case["net"]
    jt = InferenceController.apply(nets.build(spec))
    j0 = nets.joint(spec)
    rec.step()
    for chosen in assignments(case):
        like = {
            i: evid.meaning(*x, spec["arity"][i])
            for i, x in enumerate(chosen)
            if x is not None
        }
        want = nets.marginals(nets.weigh(j0, like))
        if want is None:
            rec.count("impossible_evidence_skipped")
            continue
        jt.unobserve_all()
        evs = [evid.make(jt, spec, i, x) for i, x in enumerate(chosen) if x is not None]
        if case["how"] == "batch":
            jt.update_evidences(evs)
            rec.step(2)
        elif case["how"] == "single":
            for e in reversed(evs):
                jt.update_evidences([e])
            rec.step(1 + len(evs))
        else:
            for e in evs:
                jt.set_observation(e)
            rec.step(1 + len(evs))
        rec.state((spec, chosen))
        got = nets.observed_marginals(jt, spec)
        nets.compare_marginals(rec, got, want, spec, evidence=chosen)
        rec.trace()
        rec.outcome([[round(x, 9) for x in v] for v in want])
        if len(evs) >= 2:
            rec.sample({"network": spec, "evidence": chosen, "marginals": got})
    nets.compare_posteriors_map(rec, jt, spec, want) if want is not None else None
