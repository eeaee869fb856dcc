"""C03: breadth-first search over evidence histories to the fixpoint of reachable tree states.

Every transition is one public evidence operation on a real join tree; a state is the
canonical dump of the whole tree object.  The reference is a map node -> likelihood."""
import collections

from mc import evid, nets, world
from mc.core import canon

PROPERTY = "C03"
CHUNK = 1
BOUNDS = {
    "quick": "21 networks of 2 and 3 nodes; every history of any length over the alphabet (fixpoint of tree "
    "states); cap 4000 states per network, reported if hit; one history with every ordered pair of operations; 21 larger networks x one history of all operations in 3 orders",
    "thorough": "all labelled DAGs on 2 and 3 nodes x 4 CPT families with the same alphabet, and 4-node "
    "networks with a smaller alphabet; cap 20000 states per network",
}
ASSUMPTIONS = ["evidence that is impossible together is only required not to raise and to be recoverable"]

CHAIN, COLL, FORK = [[0, 1], [1, 2]], [[0, 2], [1, 2]], [[1, 0], [1, 2]]
TRI = [[0, 1], [0, 2], [1, 2]]


def cases(tier):
    for fam in ("generic", "mixed"):
        yield {"net": nets.spec(2, [[0, 1]], fam, [2, 3]), "rich": True}
        yield {"net": nets.spec(2, [[1, 0]], fam, [3, 2], ids=[10, 2]), "rich": True}
        yield {"net": nets.spec(2, [], fam, [2, 2]), "rich": True}
    yield {"net": nets.spec(2, [[0, 1]], "detroot", [2, 2]), "rich": True}
    yield {"net": nets.spec(2, [[0, 1]], "skew", [2, 3]), "rich": True}
    yield {"net": nets.spec(3, CHAIN, "skew"), "rich": False}
    yield {"net": nets.spec(3, COLL, "skew"), "rich": False}
    for edges in (CHAIN, COLL, FORK, TRI, [[0, 1]]):
        yield {"net": nets.spec(3, edges, "generic"), "rich": False}
    for edges in (CHAIN, COLL, [[2, 1]]):
        yield {"net": nets.spec(3, edges, "mixed", ids=[7, 33, 10]), "rich": False}
    for edges in (CHAIN, COLL, [[2, 0], [2, 1]]):
        yield {"net": nets.spec(3, edges, "detroot"), "rich": False}
    for n, edges in nets.BIG.values():
        yield {"net": nets.spec(n, edges, "generic", ids=nets.GAPPED[:n]), "rich": False, "long": True}
    for s in nets.wide():
        yield {"net": s, "rich": False, "long": True}
    if tier == "thorough":
        for n in (2, 3):
            for edges in nets.all_dags(n):
                for fam in ("generic", "mixed", "detroot", "skew", "weak"):
                    yield {"net": nets.spec(n, edges, fam, nets.MIXED[1:][:n] if n == 2 else None), "rich": True, "cap": 20000}
        for edges in ([[0, 1], [1, 2], [2, 3]], [[0, 1], [2, 3]], [[0, 2], [1, 2], [2, 3]], [[0, 1], [0, 2], [1, 3], [2, 3]]):
            for fam in ("generic", "mixed"):
                yield {"net": nets.spec(4, edges, fam), "rich": False, "cap": 20000}


def operations(spec, rich):
    """(name, list of (node, item)) pairs, simplest first."""
    ops = []
    n = spec["n"]
    for i in range(n):
        k = spec["arity"][i]
        for h in evid.hard(k):
            ops.append(("set", [(i, h)]))
        ops.append(("set", [(i, ("OBSERVATION", {k - 1: 0.7}))]))
        ops.append(("update", [(i, evid.hard(k)[0])]))
        soft = evid.soft(k)
        for s in soft if rich else soft[:1] + soft[2:3]:
            ops.append(("update", [(i, s)]))
        if rich:
            ops.append(("update", [(i, ("VIRTUAL", {0: 1.0, 1: 0.1}))]))
            ops.append(("update", [(i, ("VIRTUAL", {0: 1.0, 1: 0.0}))]))
            ops.append(("update", [(i, ("VIRTUAL", {v: 1.0 - 1e-4 * v for v in range(k)}))]))
            ops.append(("update", [(i, ("UNOBSERVE", {}))]))
            ops.append(("set", [(i, evid.soft(k)[1])]))
        ops.append(("set", [(i, soft[0])]))
        ops.append(("unobserve", [(i, None)]))
    ops.append(("unobserve_all", []))
    a, b = 0, n - 1
    ka, kb = spec["arity"][a], spec["arity"][b]
    ops.append(("update", [(a, evid.hard(ka)[1]), (b, evid.hard(kb)[0])]))
    ops.append(("update", [(a, ("UNOBSERVE", {})), (b, evid.soft(kb)[0])]))
    ops.append(("unobserve", [(a, None), (b, None)]))
    # one evidence of the batch names a value that does not exist
    ops.append(("reject", [(a, evid.hard(ka)[0]), (b, ("VIRTUAL", {0: 0.5, "no such value": 0.5}))]))
    return ops


def is_hard(vec):
    return sorted(vec) == [0.0] * (len(vec) - 1) + [1.0]


def model_step(model, op, spec):
    name, items = op
    if name == "reject":
        return model
    new = list(model)
    if name == "unobserve_all":
        return tuple(tuple([1.0] * k) for k in spec["arity"])
    for i, item in items:
        k = spec["arity"][i]
        vec = [1.0] * k if name == "unobserve" else evid.meaning(*item, k)
        if name == "set" and is_hard(vec) and list(model[i]) == vec:
            vec = [1.0] * k
        new[i] = tuple(vec)
    return tuple(new)


def make(jt, spec, i, item):
    from pybbn.graph.jointree import EvidenceBuilder, EvidenceType

    kind, given = item
    values = nets.values_of(spec, i)
    b = EvidenceBuilder().with_node(jt.get_bbn_node(nets.ids_of(spec)[i]))
    b = b.with_type(EvidenceType[kind])
    for v, l in given.items():
        b = b.with_evidence(v if v == "no such value" else values[int(v)], l)
    return b.build()


def real_step(jt, op, spec, rec):
    name, items = op
    rec.step()
    if name == "unobserve_all":
        same = jt.unobserve_all()
    elif name == "unobserve":
        same = jt.unobserve([jt.get_bbn_node(nets.ids_of(spec)[i]) for i, _ in items])
    elif name == "set":
        (i, item), = items
        same = jt.set_observation(make(jt, spec, i, item))
    elif name == "update":
        same = jt.update_evidences([make(jt, spec, i, item) for i, item in items])
    else:
        evs = [make(jt, spec, i, item) for i, item in items]
        try:
            jt.update_evidences(evs)
        except Exception:
            return
        rec.fail("evidence on an unknown value was accepted", operation=op)
    if same is not jt:
        rec.fail("the operation did not return the tree", operation=op)


def run(case, rec):
    from pybbn.pptc.inferencecontroller import InferenceController

    spec = case["net"]
    cap = case.get("cap", 4000)
    ops = operations(spec, case["rich"])
    j0 = nets.joint(spec)
    answers = {}

    def expected(model):
        if model not in answers:
            answers[model] = nets.marginals(nets.weigh(j0, dict(enumerate(model))))
        return answers[model]

    def replay(hist):
        jt = InferenceController.apply(nets.build(spec))
        model = tuple(tuple([1.0] * k) for k in spec["arity"])
        for k in hist:
            real_step(jt, ops[k], spec, rec)
            model = model_step(model, ops[k], spec)
        return jt, model

    jt, model = replay([])
    if case.get("long"):
        order = list(range(len(ops))) + list(range(len(ops)))[::-1] + [k * 7 % len(ops) for k in range(len(ops))]
    else:
        order = world.pairs(len(ops))
    for step, k in enumerate(order):  # one long history
        real_step(jt, ops[k], spec, rec)
        model = model_step(model, ops[k], spec)
        want = expected(model)
        if want is not None:
            nets.compare_marginals(rec, nets.observed_marginals(jt, spec), want, spec, steps=step + 1, last=[ops[x] for x in order[max(0, step - 20) : step + 1]])
        rec.trace()
    rec.state((spec, "long history"))
    if case.get("long"):
        return
    jt, model = replay([])
    seen = {(canon(jt), model)}
    frontier = collections.deque([()])
    depth = 0
    while frontier:
        hist = frontier.popleft()
        for k, op in enumerate(ops):
            jt, model = replay(hist)
            real_step(jt, op, spec, rec)
            model = model_step(model, op, spec)
            path = [ops[x] for x in hist + (k,)]
            want = expected(model)
            got = nets.observed_marginals(jt, spec)
            if want is None:
                rec.count("impossible_evidence_reached")
            else:
                nets.compare_marginals(rec, got, want, spec, history=path)
            rec.trace()
            rec.outcome((spec["cpt"], [[round(x, 9) for x in v] for v in got]))
            key = (canon(jt), model)
            if key not in seen:
                seen.add(key)
                rec.state((spec, key))
                depth = max(depth, len(hist) + 1)
                if len(seen) >= cap:
                    rec.count("networks_capped")
                    return
                frontier.append(hist + (k,))
                if len(hist) >= 2:
                    rec.sample({"network": spec, "history": path, "marginals": got})
    rec.count("networks_explored_to_fixpoint")
    rec.count(f"deepest_new_state_at_{depth}")
