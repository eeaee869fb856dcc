"""C39: pickled and unpickled objects, in this process and in others, against the originals and the references."""
import base64
import copy
import json
import os
import pickle
import subprocess
import sys

from mc import evid, gauss, nets, world
from mc.checks import c07, c26

PROPERTY = "C39"
CHUNK = 1
OPS = ["pickle", "ev", "clear"]
BOUNDS = {
    "quick": "join trees: every DAG on 1..3 nodes x operation sequences of depth 2 (8 networks: 3; 14 larger shapes, the wide ones and every 4-node DAG: 1) of "
    "pickle, 4 evidences, retract on any tree; 10 networks x one history of 100 operations with re-apply, copy and serialise; networks: every DAG of 1..4 nodes x 5 "
    "edits of either side; every Gaussian of 1..2, every 17th of 3 variables x observations; graphs, samplers, evidence, tables; trees and networks loaded in fresh processes with 3 hash seeds",
    "thorough": "depths 3, 4 and 2; histories of 400",
}


def again(x):
    return pickle.loads(pickle.dumps(x))


def cases(tier):
    deep = tier == "thorough"
    for n in (1, 2, 3, 4):
        for edges in nets.all_dags(n):
            yield {"bbn": nets.spec(n, edges, "generic", nets.MIXED[:n], ids=nets.GAPPED[:n])}
    for n in (2, 3):
        for edges in nets.all_dags(n):
            yield {"parts": nets.spec(n, edges, "generic", nets.MIXED[:n], ids=nets.GAPPED[:n])}
    for dim in (1, 2, 3):
        for mean in ("zero", "distinct"):
            yield {"dim": dim, "mean": mean, "codes": list(range(0, gauss.codes(dim), 17 if dim == 3 and not deep else 1))}
    some = list(c07.shapes()) + [nets.spec(*nets.BIG["huang"]), nets.spec(*nets.BIG["three_parts"], ids=nets.GAPPED[:10])]
    for s in some:
        yield {"net": s, "ops": OPS + ["re", "copy", "serde"], "steps": 400 if deep else 100}
    for s in some:
        yield {"elsewhere": s}
    yield from c07.split(tier, OPS, (3, 4, 2) if deep else (2, 3, 1))


def run(case, rec):
    if "bbn" in case:
        return c26.run_network(case["bbn"], rec, again)
    if "parts" in case:
        return run_parts(case["parts"], rec)
    if "dim" in case:
        return run_gauss(case, rec)
    if "elsewhere" in case:
        return run_elsewhere(case["elsewhere"], rec)
    if "steps" in case:
        return world.long_world(case["net"], case["ops"], case["steps"], rec)
    world.explore(case["net"], case["ops"], case["depth"], rec, case["prefix"])


def run_parts(spec, rec):
    """Samplers, evidence, tables and graphs."""
    from pybbn.graph.dag import Dag
    from pybbn.graph.edge import Edge, EdgeType
    from pybbn.graph.node import Node
    from pybbn.graph.pdag import Pdag
    from pybbn.pptc.inferencecontroller import InferenceController
    from pybbn.sampling.sampling import LogicSampler

    n, arity, ids = spec["n"], spec["arity"], nets.ids_of(spec)
    bbn = nets.build(spec)

    # a sampler, before and after use
    sampler = LogicSampler(bbn)
    want = sampler.get_samples(n_samples=5, seed=3)
    for copied in (again(LogicSampler(bbn)), again(sampler), LogicSampler(again(bbn))):
        rec.step()
        if copied.get_samples(n_samples=5, seed=3) != want or sampler.get_samples(n_samples=5, seed=3) != want:
            rec.fail("the sampler draws other samples")

    # evidence together with its tree, and evidence alone
    for kind in range(4):
        jt = InferenceController.apply(bbn)
        item = evid.alphabet(arity[0])[min(kind, len(evid.alphabet(arity[0])) - 1)]
        expected = nets.marginals(nets.weigh(nets.joint(spec), {0: evid.meaning(*item, arity[0])}))
        for how in ("together", "alone", "used"):
            rec.step()
            tree, e = jt, evid.make(jt, spec, 0, item)
            if how == "together":
                tree, e = again((tree, e))
                if e.node is not tree.get_bbn_node(ids[0]):
                    rec.fail("evidence pickled together with its tree is about another node")
            elif how == "alone":
                e = again(e)
            else:
                tree.set_observation(e)
                tree.unobserve_all()
                e = again(e)
            tree.unobserve_all()
            tree.update_evidences([e])
            if expected is not None:
                nets.compare_marginals(rec, nets.observed_marginals(tree, spec), expected, spec, how=how, evidence=item)
            rec.trace()

    # tables
    jt = InferenceController.apply(bbn)
    for x in jt.get_bbn_nodes():
        p = jt.get_bbn_potential(x)
        facts = lambda q: [(dict(e.entries), float(e.value)) for e in q.entries]
        q = again(p)
        if facts(q) != facts(p):
            rec.fail("a table changes", got=facts(q), want=facts(p))
        old = facts(p)
        q.entries[0].value = 7.0
        if facts(p) != old:
            rec.fail("a table and its copy are one")
        rec.step()

    # graphs go on independently
    for cls in (Dag, Pdag):
        g = cls()
        for i in ids:
            g.add_node(Node(i))
        for a, b in spec["edges"]:
            g.add_edge(Edge(g.get_node(ids[a]), g.get_node(ids[b]), EdgeType.DIRECTED))
        seen = lambda g: (sorted(x.id for x in g.get_nodes()), sorted((e.i.id, e.j.id, e.type.name) for e in g.get_edges()), {i: sorted(g.get_neighbors(i)) for i in ids})
        before = seen(g)
        h = again(g)
        if seen(h) != before:
            rec.fail("a graph changes", got=seen(h), want=before)
        reach = closure(n, spec["edges"])
        for a in range(n):
            for b in range(n):
                if a == b:
                    continue
                h = again(g)
                rec.step()
                h.add_edge(Edge(h.get_node(ids[a]), h.get_node(ids[b]), EdgeType.DIRECTED))
                taken = (a, b) not in {tuple(e) for e in spec["edges"]} and (b, a) not in reach
                if (seen(h) != before) != taken:
                    rec.fail(f"the edge {a} -> {b} is {'refused' if taken else 'taken'} by the unpickled graph", graph=cls.__name__)
                if seen(g) != before:
                    rec.fail("the original graph changed")
    rec.state((spec, "parts"))


def closure(n, edges):
    reach = {tuple(e) for e in edges}
    for k in range(n):
        reach |= {(a, c) for a, b in reach for b2, c in reach if b == b2 == k}
    return reach


def run_gauss(case, rec):
    dim, mean = case["dim"], case["mean"]
    for code in case["codes"]:
        for chosen in gauss.subsets(dim):
            pairs = [(gauss.NAMES[i], gauss.values(mean)[i]) for i in chosen]
            left = [i for i in range(dim) if i not in chosen]
            one = gauss.make(dim, code, mean).do_inferences(pairs) if pairs else gauss.make(dim, code, mean)
            for two in (again(one), copy.deepcopy(one)):
                rec.step()
                if gauss.facts(two) != gauss.facts(one):
                    rec.fail("a Gaussian changes", got=gauss.facts(two), want=gauss.facts(one))
                for i in left:
                    more = (gauss.NAMES[i], 1.25)
                    if gauss.facts(two.do_inference(*more)) != gauss.facts(one.do_inference(*more)):
                        rec.fail("further inference differs", code=code, dim=dim, observed=pairs, more=more)
                rec.trace()
            rec.state((dim, mean, code, chosen))


CHILD = """
import base64, json, pickle, sys
sys.path.insert(0, {verif!r})
from mc import core
core.use_repo()
from mc import evid, gauss, nets
from pybbn.pptc.inferencecontroller import InferenceController
spec, plan, data = json.loads(sys.stdin.readline()), json.loads(sys.stdin.readline()), sys.stdin.readline()
bbn, jt, seen, sampler, e, gi = pickle.loads(base64.b64decode(data))
out = [nets.observed_marginals(jt, spec), nets.observed_marginals(InferenceController.apply(bbn), spec)]
for step in plan:
    jt.unobserve_all()
    jt.update_evidences([evid.make(jt, spec, i, (kind, {{int(v): l for v, l in given.items()}})) for i, kind, given in step])
    out.append(nets.observed_marginals(jt, spec))
    jt = pickle.loads(pickle.dumps(jt))
    out.append(nets.observed_marginals(jt, spec))
out.append([[float(x) for x in p] for p in seen])
jt.unobserve_all()
jt.set_observation(e)
out.append(nets.observed_marginals(jt, spec))
samples = [sampler.get_samples(n_samples=6, seed=5), sampler.get_samples(evidence={{e.node.id: [v for v in e.values if e.values[v] == 1.0][0]}}, n_samples=3, seed=5)]
samples = [[[s[i] for i in nets.ids_of(spec)] for s in x] for x in samples]
more = gi.do_inference(gi.H[0], 1.5)
print(json.dumps([out, samples, [list(gauss.facts(x)[0:3]) for x in (gi, more)]]))
"""


def run_elsewhere(spec, rec):
    """Loaded and used in another process."""
    from mc import core
    from pybbn.pptc.inferencecontroller import InferenceController
    from pybbn.sampling.sampling import LogicSampler

    n, arity = spec["n"], spec["arity"]
    bbn = nets.build(spec)
    jt = InferenceController.apply(bbn)
    first = {n - 1: ("OBSERVATION", {arity[n - 1] - 1: 1.0})}
    plan = [{0: evid.soft(arity[0])[0]}, {n // 2: ("OBSERVATION", {0: 1.0})}, {0: ("OBSERVATION", {0: 1.0}), n - 1: evid.soft(arity[n - 1])[0]}]
    jt.update_evidences([evid.make(jt, spec, i, x) for i, x in first.items()])
    prior = nets.joint(spec)
    answer = lambda given: nets.marginals(nets.weigh(prior, {i: evid.meaning(*x, arity[i]) for i, x in given.items()}))
    now = nets.observed_marginals(jt, spec)
    want = [answer(first), nets.marginals(prior)] + [answer(p) for p in plan for _ in (0, 1)] + [now]
    sampler = LogicSampler(bbn)
    gi = gauss.make(3, 5, "distinct").do_inference(gauss.NAMES[1], 0.5)
    value = nets.values_of(spec, 0)[0]
    e = evid.make(jt, spec, 0, ("OBSERVATION", {0: 1.0}))
    samples = [sampler.get_samples(n_samples=6, seed=5), sampler.get_samples(evidence={nets.ids_of(spec)[0]: value}, n_samples=3, seed=5)]
    samples = [[[x[i] for i in nets.ids_of(spec)] for x in part] for part in samples]
    more = gi.do_inference(gi.H[0], 1.5)
    others = json.loads(json.dumps([samples, [list(gauss.facts(x)[0:3]) for x in (gi, more)]]))
    want.append(answer({0: ("OBSERVATION", {0: 1.0})}))
    data = base64.b64encode(pickle.dumps((bbn, jt, now, sampler, e, gi))).decode()
    steps = [[[i, x[0], x[1]] for i, x in p.items()] for p in plan]
    text = "\n".join([json.dumps(spec), json.dumps(steps), data]) + "\n"
    for seed in ("1", "2", "99"):
        env = dict(os.environ, PYTHONHASHSEED=seed)
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD.format(verif=core.VERIF)], input=text, env=env, capture_output=True, text=True)
        rec.step()
        if p.returncode != 0:
            rec.fail("loading or use fails in another process", stderr=p.stderr[-800:])
        got, *rest = json.loads(p.stdout)
        if rest != others:
            rec.fail("samples or Gaussians differ in another process", got=rest, want=others)
        for k, (g, w) in enumerate(zip(got, want)):
            if w is not None:
                nets.compare_marginals(rec, g, w, spec, step=k, hash_seed=seed)
        rec.trace()
        rec.state((spec, seed))
