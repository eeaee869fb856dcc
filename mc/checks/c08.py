"""C08: serialisation round trip of join trees."""
import json

from mc import evid, nets, world
from mc.checks import c05

PROPERTY = "C08"
CHUNK = 4
BOUNDS = {
    "quick": "every 3-node DAG x 6 kinds of value labels that are easily mistaken for each other; "
    "every DAG on 1..4 nodes x 2 CPT families/numberings, every 5-node DAG up to renaming, 14 larger shapes and the wide ones; "
    "x {dictionary, JSON text} x {once, twice} x 3 evidence settings of the source tree and 5 of the restored tree; "
    "world sequences (serialise, re-apply, evidence) of depth 2 on 8 networks",
    "thorough": "as quick plus every labelled 5-node DAG and world sequences of depth 3",
}


def cases(tier):
    for n in (1, 2, 3, 4):
        for edges in nets.all_dags(n):
            yield {"net": nets.spec(n, edges, "generic", nets.MIXED[:n])}
            yield {"net": nets.spec(n, edges[::-1], "mixed", ids=nets.GAPPED[:n], order=list(range(n))[::-1])}
    for s in nets.labelled():
        yield {"net": s}
    for edges in nets.unlabelled_dags(5):
        yield {"net": nets.spec(5, edges, "generic", ids=nets.GAPPED[5:10])}
    for n, edges in nets.BIG.values():
        yield {"net": nets.spec(n, edges, "generic", ids=nets.GAPPED[:n])}
    for s in nets.wide():
        yield {"net": s}
    from mc.checks import c07

    for s in c07.shapes():
        yield {"net": s, "world": 2 if tier == "quick" else 3}
    if tier == "thorough":
        for edges in nets.all_dags(5):
            yield {"net": nets.spec(5, edges, "generic", nets.MIXED[:5])}


def shape(jt):
    cl = sorted(sorted(c.get_node_ids()) for c in jt.get_cliques())
    ed = sorted(
        sorted([sorted(e.i.get_node_ids()), sorted(e.j.get_node_ids())])
        + [sorted(n.id for n in e.sep_set.nodes)]
        for e in jt.get_edges()
    )
    nodes = sorted((n.id, n.variable.name, list(n.variable.values), [float(p) for p in n.probs]) for n in jt.get_bbn_nodes())
    return cl, ed, nodes


def run(case, rec):
    from pybbn.graph.jointree import JoinTree
    from pybbn.pptc.inferencecontroller import InferenceController

    spec = case["net"]
    if "world" in case:
        return world.explore(spec, ["serde", "re", "ev"], case["world"], rec)
    n = spec["n"]
    k = spec["arity"][n - 1]
    settings = [
        {},
        {n - 1: ("OBSERVATION", {k - 1: 1.0})},
        {0: evid.soft(spec["arity"][0])[0]},
        {i: ("OBSERVATION", {0: 1.0}) for i in range(min(n, 3))},
        {n - 1: evid.soft(k)[-1], 0: ("OBSERVATION", {0: 1.0})},
    ]
    j0 = nets.joint(spec)
    bbn = nets.build(spec)
    src = InferenceController.apply(bbn)
    before = world.snapshot(bbn)
    pas = nets.parents_of(spec)
    for given in settings[:3]:
        src.unobserve_all()
        src.update_evidences([evid.make(src, spec, i, x) for i, x in given.items()])
        for text in (False, True):
            d = JoinTree.to_dict(src, bbn)
            if text:
                d = json.loads(json.dumps(d))
            jt = JoinTree.from_dict(d)
            for times in (1, 2):
                if times == 2:
                    d = JoinTree.to_dict(jt, bbn)
                    jt = JoinTree.from_dict(json.loads(json.dumps(d)) if text else d)
                if shape(jt) != shape(src):
                    rec.fail("the restored tree has another structure", got=shape(jt), want=shape(src))
                jt = InferenceController.apply_from_serde(jt)
                rec.step(3)
                for now in settings if times == 1 else settings[:2]:
                    like = {i: evid.meaning(*x, spec["arity"][i]) for i, x in now.items()}
                    want = nets.marginals(nets.weigh(j0, like))
                    if want is None:
                        continue
                    jt.unobserve_all()
                    jt.update_evidences([evid.make(jt, spec, i, x) for i, x in now.items()])
                    rec.step(2)
                    nets.compare_marginals(rec, nets.observed_marginals(jt, spec), want, spec, evidence=now, text=text, times=times)
                    nets.compare_posteriors_map(rec, jt, spec, want)
                    rec.trace()
                    rec.state((spec, text, times, repr(now), repr(given)))
                    rec.outcome([[round(x, 9) for x in v] for v in want])
        # the source still answers for its own evidence
        like = {i: evid.meaning(*x, spec["arity"][i]) for i, x in given.items()}
        want = nets.marginals(nets.weigh(j0, like))
        if want is not None:
            nets.compare_marginals(rec, nets.observed_marginals(src, spec), want, spec, source_evidence=given)
    if world.snapshot(bbn) != before:
        rec.fail("the network was changed")
    if n >= 4:
        rec.sample({"network": spec, "structure": shape(jt)[:2]})
