"""C29: every sequence of read-only operations up to a depth leaves the network as it was."""
import itertools
import os
import shutil
import tempfile

from mc import evid, nets, world
from mc.checks import c07

PROPERTY = "C29"
CHUNK = 1
OPS = ["apply", "ev", "clear", "re", "copy", "serde"]
BOUNDS = {
    "quick": "every DAG on 2 and 3 nodes x every sequence of 2 operations out of 14 (apply, evidence of four kinds, contradictory "
    "evidence, retract, re-apply, copy, serialise, sample with and without evidence, causal effect, export in 5 formats, networkx "
    "view, d-separation), 5 networks x 3 operations, every 4-node DAG and 14 larger shapes and the wide ones x every single operation after apply; 6 networks x one history with every ordered pair of operations",
    "thorough": "3 operations on every DAG on 2 and 3 nodes, 4 on three networks, 2 on every 4-node DAG",
}


class Session:
    def __init__(self, spec, rec, scratch):
        self.spec, self.rec, self.scratch = spec, rec, scratch
        self.bbn = nets.build(spec)
        self.objects = {n.id: (n, n.variable) for n in self.bbn.get_nodes()}
        self.before = world.snapshot(self.bbn)
        self.jt = None
        self.base = None

    def tree(self):
        from pybbn.pptc.inferencecontroller import InferenceController

        if self.jt is None:
            self.jt = self.base = InferenceController.apply(self.bbn)
        return self.jt

    def put(self, i, item):
        jt = self.tree()
        jt.set_observation(evid.make(jt, self.spec, i, item))

    # ---- operations

    def apply(self):
        from pybbn.pptc.inferencecontroller import InferenceController

        self.jt = self.base = InferenceController.apply(self.bbn)
        self.jt.get_posteriors()

    def hard(self):
        self.put(0, evid.hard(self.spec["arity"][0])[0])

    def soft(self):
        i = self.spec["n"] - 1
        jt = self.tree()
        jt.update_evidences([evid.make(jt, self.spec, i, evid.soft(self.spec["arity"][i])[0])])

    def finding(self):
        jt = self.tree()
        jt.update_evidences([evid.make(jt, self.spec, 0, ("FINDING", {0: 1.0, 1: 0.0}))])

    def batch(self):
        jt = self.tree()
        jt.update_evidences([evid.make(jt, self.spec, i, evid.hard(self.spec["arity"][i])[-1]) for i in range(self.spec["n"])])
        jt.get_posteriors()

    def retract(self):
        self.tree().unobserve_all()

    def reapply(self):
        from pybbn.pptc.inferencecontroller import InferenceController

        ids = nets.ids_of(self.spec)
        fresh = nets.cpts_of(self.spec, 50)
        self.jt = InferenceController.reapply(self.tree(), {ids[i]: list(fresh[i]) for i in range(self.spec["n"])})

    def copy(self):
        import copy

        self.jt = copy.deepcopy(self.tree())

    def serde(self):
        from pybbn.graph.jointree import JoinTree
        from pybbn.pptc.inferencecontroller import InferenceController

        if self.jt is not self.base:
            self.jt = None
        self.jt = InferenceController.apply_from_serde(JoinTree.from_dict(JoinTree.to_dict(self.tree(), self.bbn)))

    def sample(self):
        from pybbn.sampling.sampling import LogicSampler

        ids = nets.ids_of(self.spec)
        s = LogicSampler(self.bbn)
        s.get_samples(n_samples=3)
        s.get_samples({ids[-1]: "s1"}, n_samples=2, seed=3)

    def effect(self):
        from pybbn.causality.ace import Ace

        names = nets.names_of(self.spec)
        ace = Ace(self.bbn)
        ace.get_ace(names[0], names[-1], "s0")
        ace.get_ace(names[-1], names[0], "s0")

    def files(self):
        from pybbn.graph.dag import Bbn

        path = os.path.join(self.scratch, "net")
        Bbn.to_csv(self.bbn, path)
        Bbn.to_json(self.bbn, path)

    def texts(self):
        from pybbn.graph.dag import Bbn

        Bbn.to_dict(self.bbn)
        Bbn.to_dne(self.bbn)
        str(self.bbn)

    def views(self):
        from pybbn.causality import do

        g, labels = self.bbn.to_nx_graph()
        g2 = do.get_graph(g)
        ids = nets.ids_of(self.spec)
        do.get_all_confounders(g2, ids[0], ids[-1])
        do.get_minimal_mediators(g2, ids[0], ids[-1])
        self.bbn.get_n2i(), self.bbn.get_i2n()


NAMES = ["apply", "hard", "soft", "finding", "batch", "retract", "reapply", "copy", "serde", "sample", "effect", "files", "texts", "views"]


def cases(tier):
    deep = tier == "thorough"
    for n in (2, 3):
        for edges in nets.all_dags(n):
            for es in (edges, edges[::-1]):
                s = nets.spec(n, es, "generic", nets.MIXED[:n], ids=nets.GAPPED[:n])
                if deep:
                    for first in NAMES:
                        yield {"net": s, "depth": 3, "prefix": [first]}
                else:
                    yield {"net": s, "depth": 2, "prefix": []}
    for k, s in enumerate(c07.shapes()):
        if k in (0, 2, 3, 5, 7):
            for first in NAMES:
                yield {"net": s, "depth": 4 if deep and k < 4 else 3, "prefix": [first]}
    for edges in nets.all_dags(4):
        yield {"net": nets.spec(4, edges[::-1], "generic", ids=nets.GAPPED[:4]), "depth": 2, "prefix": []} if deep else {
            "net": nets.spec(4, edges[::-1], "generic", ids=nets.GAPPED[:4]), "depth": 2, "prefix": ["apply"]}
    for edges in nets.unlabelled_dags(3):
        yield {"net": nets.spec(3, edges, "generic", ids=nets.GAPPED[:3]), "long": True}
    for n, edges in nets.BIG.values():
        yield {"net": nets.spec(n, edges[::-1], "generic", ids=nets.GAPPED[:n]), "depth": 1, "prefix": [], "big": True}
    for s in nets.wide(but=("parents7",)):
        yield {"net": s, "depth": 1, "prefix": [], "big": True}


def run(case, rec):
    from pybbn.pptc.inferencecontroller import InferenceController

    spec = case["net"]
    scratch = tempfile.mkdtemp(prefix="verif-c29-")
    want = nets.marginals(nets.joint(spec))

    if "long" in case:
        s = Session(spec, rec, scratch)
        order = [NAMES[k] for k in world.pairs(len(NAMES))]
        try:
            for k, op in enumerate(order):
                getattr(s, op)()
                rec.step()
                if world.snapshot(s.bbn) != s.before:
                    rec.fail("the network was changed", operations=order[max(0, k - 20) : k + 1])
            nets.compare_marginals(rec, nets.observed_marginals(InferenceController.apply(s.bbn), spec), want, spec, operations=order[-20:])
        finally:
            shutil.rmtree(scratch)
        rec.state((spec, "long history"))
        rec.trace()
        return

    def walk(path):
        s = Session(spec, rec, scratch)
        for op in path:
            getattr(s, op)()
            rec.step()
        after = world.snapshot(s.bbn)
        if after != s.before:
            bad = [k for k in after if after[k] != s.before[k]]
            rec.fail(f"{bad[0]} of the network were changed", operations=path, before={k: s.before[k] for k in bad}, after={k: after[k] for k in bad})
        for n in s.bbn.get_nodes():
            if s.objects[n.id][0] is not n or n.variable is not s.objects[n.id][1]:
                rec.fail("a node of the network was replaced", operations=path)
        if len(path) == case["depth"]:  # and it still means the same
            jt = InferenceController.apply(s.bbn)
            nets.compare_marginals(rec, nets.observed_marginals(jt, spec), want, spec, operations=path)
        rec.state((spec, path))
        rec.outcome(path)
        rec.trace()
        if len(path) == 2:
            rec.sample({"network": spec, "operations": path})
        if len(path) < case["depth"]:
            for op in NAMES:
                if case.get("big") and op == "effect" and spec["n"] > 8:
                    continue
                walk(path + [op])

    try:
        walk(list(case["prefix"]))
    finally:
        shutil.rmtree(scratch)
