"""C35: two threads that work on objects of their own, under every interleaving with one preemption (thorough:
two), against the same work done alone."""
import copy
import json
import os
import tempfile

from mc import evid, gauss, nets, sched, world

PROPERTY = "C35"
CHUNK = 1
WAYS = 16  # cases per operation
BOUNDS = {
    "quick": "11 kinds of work (build, apply, evidence, re-apply, copy, restore, formats, learn, causal, paths, Gaussian); each preempted once, before "
    "every line of the library it executes, by a thread that does all of them on other objects with the same ids and names",
    "thorough": "also two preemptions, at every pair of calls inside the library, for each kind of work against itself and against apply, "
    "evidence and restore; one preemption on 3-variable networks",
}
ASSUMPTIONS = [
    "threads switch between lines of Python code of the library (CPython switches between bytecodes)",
    "sampling and generating are left out: they draw from the process-wide random source by design",
]

MINE = {
    2: nets.spec(2, [[0, 1]], "generic", [2, 2], ids=[10, 2]),
    3: nets.spec(3, [[0, 2], [1, 2]], "generic", [2, 2, 2], ids=[10, 2, 33]),
}
OTHER = {
    2: nets.spec(2, [[1, 0]], "generic", [2, 2], ids=[10, 2], salt=3),
    3: nets.spec(3, [[2, 1], [1, 0]], "generic", [2, 2, 2], ids=[10, 2, 33], salt=3),
}


def marginals(jt, spec):
    return [[float(x) for x in v] for v in nets.observed_marginals(jt, spec)]


class Work:
    """Every method prepares objects of its own and returns the work on them."""

    def __init__(self, spec):
        self.spec, self.ids, self.n = spec, nets.ids_of(spec), spec["n"]
        self.names = nets.names_of(spec)

    def tree(self):
        from pybbn.pptc.inferencecontroller import InferenceController

        return InferenceController.apply(nets.build(self.spec))

    def evidence(self, jt, i, item):
        return evid.make(jt, self.spec, i, item)

    def build(self):
        from pybbn.graph.edge import Edge, EdgeType

        def work():
            bbn = nets.build(self.spec)
            for p, c in self.spec["edges"]:  # closes a cycle
                bbn.add_edge(Edge(bbn.get_node(self.ids[c]), bbn.get_node(self.ids[p]), EdgeType.DIRECTED))
            before = world.snapshot(bbn)
            bbn.remove_node(self.ids[0])
            return [before, world.snapshot(bbn)]

        return work

    def apply(self):
        from pybbn.pptc.inferencecontroller import InferenceController

        bbn = nets.build(self.spec)
        return lambda: marginals(InferenceController.apply(bbn), self.spec)

    def observe(self):
        jt = self.tree()
        hard = self.evidence(jt, 0, ("OBSERVATION", {1: 1.0}))
        soft = self.evidence(jt, self.n - 1, ("VIRTUAL", {0: 0.5, 1: 0.9}))

        def work():
            seen = []
            jt.set_observation(hard)
            seen.append(marginals(jt, self.spec))
            jt.update_evidences([soft])
            seen.append(jt.get_posteriors())
            jt.set_observation(hard)
            seen.append(marginals(jt, self.spec))
            return seen

        return work

    def reapply(self):
        from pybbn.pptc.inferencecontroller import InferenceController

        jt = self.tree()
        fresh = nets.cpts_of(self.spec, 50)
        return lambda: marginals(InferenceController.reapply(jt, {x: list(c) for x, c in zip(self.ids, fresh)}), self.spec)

    def copy(self):
        jt = self.tree()

        def work():
            other = copy.deepcopy(jt)
            other.update_evidences([self.evidence(other, 0, ("OBSERVATION", {0: 1.0}))])
            return [marginals(jt, self.spec), marginals(other, self.spec)]

        return work

    def restore(self):
        from pybbn.graph.jointree import JoinTree
        from pybbn.pptc.inferencecontroller import InferenceController

        bbn = nets.build(self.spec)
        jt = InferenceController.apply(bbn)

        def work():
            d = json.loads(json.dumps(JoinTree.to_dict(jt, bbn)))
            back = InferenceController.apply_from_serde(JoinTree.from_dict(d))
            back.update_evidences([self.evidence(back, self.n - 1, ("OBSERVATION", {0: 1.0}))])
            return marginals(back, self.spec)

        return work

    def formats(self):
        from pybbn.graph.dag import Bbn

        bbn = nets.build(self.spec)

        def work():
            with tempfile.TemporaryDirectory() as tmp:
                path = os.path.join(tmp, "n")
                Bbn.to_csv(bbn, path)
                a = Bbn.from_csv(path)
                Bbn.to_json(bbn, path)
                b = Bbn.from_json(path)
                return [world.snapshot(a), world.snapshot(b), Bbn.to_dne(bbn)]

        return work

    def learn(self):
        import pandas as pd

        from pybbn.graph.factory import Factory

        turn = self.spec.get("salt", 0) % 2
        data = {x: [f"s{(r * (k + 2) + turn * r // 2) % 2}" for r in range(5)] for k, x in enumerate(self.names)}
        df = pd.DataFrame(data)
        parents = {x: [] for x in self.names}
        for p, c in self.spec["edges"]:
            parents[self.names[c]].append(self.names[p])

        return lambda: world.snapshot(Factory.from_data({k: list(v) for k, v in parents.items()}, df))

    def causal(self):
        from pybbn.causality.ace import Ace

        bbn = nets.build(self.spec)
        return lambda: Ace(bbn).get_ace(self.names[self.spec["edges"][0][0]], self.names[self.spec["edges"][0][1]], "s1")

    def paths(self):
        import networkx as nx

        from pybbn.causality import do

        d = nx.DiGraph()
        d.add_nodes_from(self.names)
        d.add_edges_from((self.names[p], self.names[c]) for p, c in self.spec["edges"])
        d.add_edges_from([("u", self.names[0]), ("u", self.names[-1])])

        def work():
            g = do.get_graph(d)
            a, b = self.names[0], self.names[-1]
            return [
                sorted(map(tuple, do.get_all_paths(g, a, b))),
                sorted(do.get_all_confounders(g, a, b)),
                sorted(do.get_minimal_confounders(g, a, b)),
                sorted(do.get_minimal_mediators(g, a, b)),
                [bool(do.is_active_path(g, p, e)) for p in do.get_all_paths(g, a, b) for e in (set(), {"u"})],
            ]

        return work

    def gaussian(self):
        turn = self.spec.get("salt", 0) % 2
        g = gauss.make(3, 5 + turn, "large" if turn else "distinct")
        names = list(gauss.NAMES[:3])

        def work():
            one = g.do_inference(names[0], 1.0 + turn)
            two = one.do_inferences([(names[2], -1.0)])
            return [[{"name": m["name"], "mean": float(m["mean"]), "var": float(m["var"])} for m in x.marginals] for x in (g, one, two)]

        return work


KINDS = ["build", "apply", "observe", "reapply", "copy", "restore", "formats", "learn", "causal", "paths", "gaussian"]


def cases(tier):
    for way in range(WAYS):
        for kind in KINDS:
            yield {"n": 2, "kind": kind, "against": KINDS, "way": way}
    if tier == "thorough":
        for way in range(4 * WAYS):
            for kind in KINDS:
                yield {"n": 3, "kind": kind, "against": KINDS, "way": way}
                for other in sorted({kind, "apply", "observe", "restore"}):
                    yield {"n": 2, "kind": kind, "against": [other], "way": way, "calls": True}


def everything(spec, kinds):
    parts = [(k, getattr(Work(spec), k)()) for k in kinds]
    return lambda: {k: work() for k, work in parts}


def run(case, rec):
    mine, other = MINE[case["n"]], OTHER[case["n"]]
    make = lambda: getattr(Work(mine), case["kind"])()
    alone = make()()
    expect = everything(other, case["against"])()
    if not (sched.alike(alone, make()()) and sched.alike(expect, everything(other, case["against"])())):
        rec.fail("the same work done twice has two results", kind=case["kind"])
    rec.outcome(repr(alone))
    ways = WAYS * (4 if case["n"] == 3 or case.get("calls") else 1)
    at = case["way"] + 1
    calls = bool(case.get("calls"))
    while True:
        bt = 1 if calls else None
        while True:
            point = {"kind": case["kind"], "preempted_before": at, "other_preempted_before": bt, "event": "call" if calls else "line"}
            try:
                (a, b), (reached, back), blocked = sched.run(make(), everything(other, case["against"]), at, bt, "call" if calls else "line")
            except Exception as e:
                rec.fail(f"raised {type(e).__name__}: {e}, but not when done alone", **point)
            rec.step(2)
            rec.trace()
            rec.state((case["n"], case["kind"], tuple(case["against"]), at, bt))
            rec.count("schedules")
            if blocked:
                rec.count("schedules_with_a_waiting_thread")
            for got, want, who in ((a, alone, "the preempted thread"), (b, expect, "the preempting thread")):
                if not sched.alike(got, want):
                    rec.fail(f"{who} has another result than alone", got=repr(got)[:2000], want=repr(want)[:2000], **point)
            if not calls or not reached or not back:
                break
            bt += 1
        if not reached:
            break
        at += ways
    if case["way"] == 0:
        rec.sample({"network": mine, "kind": case["kind"], "lines" if not calls else "calls": at})
