"""C36: every sequence of setting, editing and re-using evidence objects and builders on a growing set of trees."""
import copy

from mc import evid, nets, world

PROPERTY = "C36"
CHUNK = 1
BOUNDS = {
    "quick": "8 networks of 2-4 variables x every sequence of 3 operations out of set or update with one of 4 evidence objects, "
    "update with two, unobserve, on the first or last tree; give an evidence object other values; go on with its builder; copy, re-apply, apply. "
    "The nodes in the evidence objects come from the tree, a copy of it, another tree, and the network. One history of 300 operations",
    "thorough": "one operation more",
}


def cases(tier):
    chosen = [
        (nets.spec(2, [[0, 1]], "generic", [2, 3]), 3),
        (nets.spec(2, [], "mixed", [3, 2], ids=[10, 2]), 3),
        (nets.spec(2, [[1, 0]], "generic", [2, 2], ids=[1000, 2]), 3),
        (nets.spec(3, [[0, 1], [1, 2]], "generic", [2, 2, 3]), 3),
        (nets.spec(3, [[0, 2], [1, 2]], "mixed", [2, 3, 2], ids=nets.GAPPED[:3]), 3),
        (nets.spec(3, [[2, 0], [2, 1], [0, 1]], "generic", [3, 2, 2]), 3),
        (nets.spec(3, [[0, 1]], "generic", ids=[5, 3, 1], order=[2, 1, 0]), 3),
        (nets.spec(4, [[0, 2], [1, 2], [2, 3]], "generic", [2, 2, 2, 3]), 3),
    ]
    for spec, depth in chosen:
        shop = Shop(spec, None)
        yield {"net": spec, "steps": 1000 if tier == "thorough" else 300}
        for op in shop.enabled():
            yield {"net": spec, "depth": depth + (tier == "thorough"), "first": op}


class Item:
    """An evidence object, its builder, and what they say."""

    def __init__(self, node, spec, i, kind, given):
        self.i, self.kind, self.given, self.built = i, kind, dict(given), dict(given)
        self.arity, self.values = spec["arity"][i], nets.values_of(spec, i)
        if node is not None:
            from pybbn.graph.jointree import EvidenceBuilder, EvidenceType

            self.builder = EvidenceBuilder().with_node(node).with_type(EvidenceType[kind])
            for v, l in given.items():
                self.builder = self.builder.with_evidence(self.values[v], l)
            self.object = self.builder.build()

    def meaning(self):
        return tuple(evid.meaning(self.kind, self.given, self.arity))


class Shop:
    def __init__(self, spec, rec):
        self.spec, self.rec, self.n = spec, rec, spec["n"]
        self.ids = nets.ids_of(spec)
        self.trees = []  # [tree, cpts, likelihoods]
        neutral = [tuple([1.0] * k) for k in spec["arity"]]
        a, b = 0, self.n - 1
        ka, kb = spec["arity"][a], spec["arity"][b]
        nodes = [None] * 4
        if rec:
            from pybbn.pptc.inferencecontroller import InferenceController

            self.bbn = nets.build(spec)
            jt, other = InferenceController.apply(self.bbn), InferenceController.apply(self.bbn)
            self.trees = [[jt, nets.cpts_of(spec), list(neutral)]]
            nodes = [jt.get_bbn_node(self.ids[a]), self.bbn.get_node(self.ids[a]), copy.deepcopy(jt).get_bbn_node(self.ids[b]), other.get_bbn_node(self.ids[b])]
        else:
            self.trees = [None]
        self.items = [
            Item(nodes[0], spec, a, "OBSERVATION", {ka - 1: 0.7, 0: 0.6}),
            Item(nodes[1], spec, a, "VIRTUAL", {0: 0.25, ka - 1: 3.0}),
            Item(nodes[2], spec, b, "OBSERVATION", {0: 1.0}),
            Item(nodes[3], spec, b, "FINDING" if kb > 2 else "VIRTUAL", {0: 0.5, 1: 2.0}),
        ]
        self.neutral = neutral

    def enabled(self):
        ops = []
        for t in sorted({0, len(self.trees) - 1}):
            for e in range(4):
                ops += [["update", t, e], ["set", t, e]]
            ops += [["both", t, 0, 2], ["both", t, 3, 1], ["clear", t], ["copy", t], ["reapply", t]]
        ops.append(["apply"])
        for e in range(4):
            ops.append(["other", e])
        for e in (1, 2):
            ops.append(["rebuild", e])
        return ops

    def do(self, op):
        self.rec.step()
        getattr(self, op[0])(*op[1:])

    def update(self, t, *which):
        jt, _, like = self.trees[t]
        jt.update_evidences([self.items[e].object for e in which])
        for e in which:
            like[self.items[e].i] = self.items[e].meaning()

    both = update

    def set(self, t, e):
        jt, _, like = self.trees[t]
        item = self.items[e]
        jt.set_observation(item.object)
        vec = item.meaning()
        hard = sorted(vec) == [0.0] * (item.arity - 1) + [1.0]
        like[item.i] = self.neutral[item.i] if hard and vec == like[item.i] else vec

    def clear(self, t):
        self.trees[t][0].unobserve_all()
        self.trees[t][2] = list(self.neutral)

    def copy(self, t):
        jt, cpts, like = self.trees[t]
        self.trees.append([copy.deepcopy(jt), cpts, list(like)])

    def reapply(self, t):
        from pybbn.pptc.inferencecontroller import InferenceController

        jt, cpts, _ = self.trees[t]
        fresh = nets.cpts_of(self.spec, 40 + len(self.trees))
        given = {self.ids[-1]: list(fresh[-1])}
        jt = InferenceController.reapply(jt, given)
        if {k: list(v) for k, v in given.items()} != {self.ids[-1]: fresh[-1]}:
            self.rec.fail("re-applying changed the CPTs it was given", given=given)
        self.trees.append([jt, cpts[:-1] + [fresh[-1]], list(self.neutral)])

    def apply(self):
        from pybbn.pptc.inferencecontroller import InferenceController

        self.trees.append([InferenceController.apply(self.bbn), nets.cpts_of(self.spec), list(self.neutral)])

    def other(self, e):
        """The evidence object gets other values; no tree knows until it is set again."""
        item = self.items[e]
        first = item.given.get(0, 0.0)
        item.given = {v: (1.0 if first < 1 else 0.0) if v == 0 else (0.5 if first < 1 else 1.0 - v / 16) for v in range(item.arity)}
        for v, l in item.given.items():
            item.object.add_value(item.values[v], l)

    def rebuild(self, e):
        """The builder is given one more value and builds another evidence object; the former one stays in use by trees."""
        item = self.items[e]
        former, was = item.object, dict(item.object.values)
        item.built[1] = 0.5 + 0.125 * len(item.built)
        item.object = item.builder.with_evidence(item.values[1], item.built[1]).build()
        item.given = dict(item.built)
        if former.values != was:
            self.rec.fail("building another evidence changed the former", evidence=was, now=former.values)

    def check(self, path):
        for k, (jt, cpts, like) in enumerate(self.trees):
            want = nets.marginals(nets.weigh(nets.joint(self.spec, cpts), {i: list(x) for i, x in enumerate(like)}))
            if want is None:
                self.rec.count("impossible_evidence_reached")
                continue
            nets.compare_marginals(self.rec, nets.observed_marginals(jt, self.spec), want, self.spec, operations=path, tree=k)
        self.rec.trace()


def run(case, rec):
    def walk(path):
        shop = Shop(case["net"], rec)
        for op in path:
            shop.do(op)
        shop.check(path)
        rec.state((case["net"], path))
        rec.outcome((case["net"]["n"], [t[2] for t in shop.trees]))
        if len(path) == 2:
            rec.sample({"network": case["net"], "operations": path})
        if len(path) < case["depth"]:
            for op in shop.enabled():
                walk(path + [op])

    if "steps" in case:
        shop = Shop(case["net"], rec)
        for path in world.marathon(shop, case["steps"]):
            shop.trees = shop.trees[:1] + shop.trees[1:][-4:]
            shop.check(path[-40:])
        rec.state((case["net"], "long history"))
        return
    walk([case["first"]])
