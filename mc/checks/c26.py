"""C26: all sequences of copying and evidence on trees; copies of networks under edits."""
import copy

from mc import nets, world
from mc.checks import c07

PROPERTY = "C26"
CHUNK = 1
OPS = ["copy", "ev", "clear"]
BOUNDS = {
    "quick": "every DAG on 1..3 nodes x operation sequences of depth 3; 8 networks x depth 4; 14 larger shapes and every "
    "4-node DAG x depth 2 (copy, 4 evidences, retract; any tree so far); copies of every 1..4-node network x 6 edits of "
    "either side; 10 networks x one history of 150 operations",
    "thorough": "depths 4, 5 and 3",
}


def cases(tier):
    for n in (1, 2, 3, 4):
        for edges in nets.all_dags(n):
            yield {"bbn": nets.spec(n, edges, "generic", nets.MIXED[:n], ids=nets.GAPPED[:n])}
    for s in list(c07.shapes()) + [nets.spec(*nets.BIG["huang"]), nets.spec(*nets.BIG["three_parts"], ids=nets.GAPPED[:10])]:
        yield {"net": s, "ops": OPS + ["serde"], "steps": 400 if tier == "thorough" else 150}
    yield from c07.split(tier, OPS, (3, 4, 2) if tier == "quick" else (4, 5, 3))


def run(case, rec):
    if "bbn" in case:
        return run_network(case["bbn"], rec)
    if "steps" in case:
        return world.long_world(case["net"], case["ops"], case["steps"], rec)
    world.explore(case["net"], case["ops"], case["depth"], rec, case["prefix"])


def edits(spec):
    from pybbn.graph.edge import Edge, EdgeType
    from pybbn.graph.node import BbnNode
    from pybbn.graph.variable import Variable
    from pybbn.pptc.inferencecontroller import InferenceController

    ids = nets.ids_of(spec)

    def add_child(b):
        x = BbnNode(Variable(555, "extra", ["s0", "s1"]), [0.5] * 2 * spec["arity"][0])
        b.add_edge(Edge(b.get_node(ids[0]), x, EdgeType.DIRECTED))

    def set_prob(b):
        node = b.get_node(ids[-1])
        for i in range(len(node.probs)):
            node.probs[i] = 0.125

    def rename(b):
        v = b.get_node(ids[0]).variable
        v.name = "renamed"
        v.values[0] = "other"

    yield "add child", add_child
    yield "remove node", lambda b: b.remove_node(ids[0])
    yield "replace probabilities", set_prob
    yield "rename", rename
    yield "infer", lambda b: InferenceController.apply(b)


def run_network(spec, rec, clone=copy.deepcopy):
    from pybbn.pptc.inferencecontroller import InferenceController

    want = nets.marginals(nets.joint(spec))
    for side in (0, 1):
        for used in (False, True):
            for name, edit in edits(spec):
                bbn = nets.build(spec)
                if used:
                    InferenceController.apply(bbn)
                before = world.snapshot(bbn)
                dup = clone(bbn)
                rec.step(2)
                if world.snapshot(dup) != before:
                    rec.fail("the copy differs", before=before, after=world.snapshot(dup))
                edit((bbn, dup)[side])
                other = (dup, bbn)[side]
                if world.snapshot(other) != before:
                    rec.fail(f"'{name}' on one side changed the other", side=side)
                jt = InferenceController.apply(other)
                nets.compare_marginals(rec, nets.observed_marginals(jt, spec), want, spec, edit=name, side=side)
                rec.state((spec, side, used, name))
                rec.trace()
