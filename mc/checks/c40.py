"""C40: every sequence of operations on trees with listeners of the user's own."""
import copy

from mc import evid, nets, world

PROPERTY = "C40"
CHUNK = 1
BOUNDS = {
    "quick": "every DAG on 1..3 nodes x every sequence of 2 operations, 8 networks x 3: set an observation, update with 1 or 2 of 4 kinds of evidence, with "
    "none, unobserve one, unobserve all, repeat the last, ask every question; listeners that forward, that read the posteriors, that fail once, that are replaced; 8 networks x one history of 200 operations; 14 larger shapes x 1",
    "thorough": "depths 3 and 4; histories of 800",
}


def shapes():
    yield nets.spec(2, [[0, 1]], "generic", [2, 3])
    yield nets.spec(2, [[1, 0]], "mixed", [3, 2], ids=nets.GAPPED[:2])
    yield nets.spec(2, [], "generic")
    yield nets.spec(3, [[0, 1], [1, 2]], "generic", [2, 3, 2], ids=nets.GAPPED[:3])
    yield nets.spec(3, [[0, 2], [1, 2]], "generic")
    yield nets.spec(3, [[0, 1]], "mixed", [2, 2, 3])
    yield nets.spec(4, [[0, 1], [0, 2], [1, 3], [2, 3]], "generic", ids=nets.GAPPED[:4])
    yield nets.spec(1, [], "generic")


def cases(tier):
    deep = tier == "thorough"
    for s in shapes():
        yield {"net": s, "steps": 800 if deep else 200}
        for op in Office(s, None).enabled():
            yield {"net": s, "depth": 4 if deep else 3, "prefix": [op]}
    for n in (1, 2, 3):
        for edges in nets.all_dags(n):
            yield {"net": nets.spec(n, edges, "generic", nets.MIXED[:n], ids=nets.GAPPED[:n]), "depth": 3 if deep else 2, "prefix": []}
    for n, edges in nets.BIG.values():
        yield {"net": nets.spec(n, edges, "generic", ids=nets.GAPPED[:n]), "depth": 1, "prefix": []}


class Stop(Exception):
    pass


def new_listener(office, kind):
    from pybbn.graph.jointree import JoinTreeListener
    from pybbn.pptc.inferencecontroller import InferenceController

    class Own(JoinTreeListener):
        """Hears, forwards, and (kind 'reader') looks at the tree."""

        def hear(self, what, tree):
            office.heard.append((self, what, tree, office.in_force(tree)))
            if office.fail:
                office.fail = False
                raise Stop()
            getattr(InferenceController(), what)(tree)
            if kind == "reader":
                office.read = nets.observed_marginals(tree, office.spec)

        def evidence_retracted(self, tree):
            self.hear("evidence_retracted", tree)

        def evidence_updated(self, tree):
            self.hear("evidence_updated", tree)

    return Own()


class Office:
    def __init__(self, spec, rec):
        self.spec, self.rec = spec, rec
        self.like, self.last, self.heard, self.fail, self.read = {}, None, [], False, None
        if rec is None:
            return
        from pybbn.pptc.inferencecontroller import InferenceController

        self.bbn = nets.build(spec)
        self.jt = InferenceController.apply(self.bbn)
        self.other = InferenceController.apply(self.bbn)  # has a listener too, and must not be heard of
        self.listener = new_listener(self, "plain")
        self.jt.set_listener(self.listener)
        stranger = new_listener(self, "plain")
        self.other.set_listener(stranger)

    def in_force(self, tree):
        out = []
        for i in range(self.spec["n"]):
            node = tree.get_bbn_node(nets.ids_of(self.spec)[i])
            out.append([float(tree.get_evidence(node, v).entries[0].value) for v in nets.values_of(self.spec, i)])
        return out

    def expected(self, like):
        arity = self.spec["arity"]
        return [list(like.get(i, [1.0] * arity[i])) for i in range(self.spec["n"])]

    def enabled(self):
        n = self.spec["n"]
        ops = [["set", 0, k] for k in range(2)] + [["update", n - 1, k] for k in range(4)] + [["both", 0, n - 1], ["none"], ["clear"], ["ask"], ["reader"], ["fail", n - 1]]
        if self.last:
            ops += [["repeat"]]
        if self.like:
            ops += [["drop", i] for i in sorted(self.like)]
        return ops

    def item(self, i, k):
        arity = self.spec["arity"][i]
        return [("OBSERVATION", {arity - 1: 1.0}), ("OBSERVATION", {0: 1.0}), evid.soft(arity)[0], ("FINDING", {v: 1.0 for v in range(arity)})][k]

    def do(self, op):
        rec, jt = self.rec, self.jt
        arity = self.spec["arity"]
        rec.step()
        before, self.heard, self.read = self.expected(self.like), [], None
        node = lambda i: jt.get_bbn_node(nets.ids_of(self.spec)[i])
        make = lambda i, k: evid.make(jt, self.spec, i, self.item(i, k))
        told = {}
        name = op[0]
        if name == "repeat":
            op = self.last
            name = op[0]
        if name == "set":
            new = evid.meaning(*self.item(op[1], op[2]), arity[op[1]])
            same = self.like.get(op[1]) == new
            jt.set_observation(make(op[1], op[2]))
            # observing again what is observed takes the observation back (as in C03)
            told = {op[1]: [1.0] * arity[op[1]]} if same else {op[1]: new}
            if arity[op[1]] == 1:
                told = {op[1]: [1.0]}
        elif name == "update":
            jt.update_evidences([make(op[1], op[2])])
            told = {op[1]: evid.meaning(*self.item(op[1], op[2]), arity[op[1]])}
        elif name == "both":
            jt.update_evidences([make(op[1], 2), make(op[2], 0)])
            told = {op[1]: evid.meaning(*self.item(op[1], 2), arity[op[1]])}
            told[op[2]] = evid.meaning(*self.item(op[2], 0), arity[op[2]])
        elif name == "none":
            jt.update_evidences([])
        elif name == "drop":
            jt.unobserve([node(op[1])])
            told = {op[1]: [1.0] * arity[op[1]]}
        elif name == "clear":
            jt.unobserve_all()
            told = {i: [1.0] * arity[i] for i in range(self.spec["n"])}
        elif name == "ask":
            jt.get_posteriors()
            nets.observed_marginals(jt, self.spec)
            copy.deepcopy(self.other)
            [jt.get_unobserved_evidence(node(i)) for i in range(self.spec["n"])]
            self.in_force(jt)
        elif name == "reader":
            self.listener = new_listener(self, "reader")
            jt.set_listener(self.listener)
        elif name == "fail":
            # the listener fails; trying again puts everything right
            self.fail = True
            e = make(op[1], 1)
            told = {op[1]: evid.meaning(*self.item(op[1], 1), arity[op[1]])}
            try:
                jt.update_evidences([e])
                self.fail = False
            except Stop:
                if self.in_force(jt) not in (before, self.expected({**self.like, **told})):
                    rec.fail("after a failure of the listener neither the old nor the new evidence is in force")
                self.heard = []
                jt.update_evidences([make(op[1], 1)])
                before = None
        if name not in ("ask", "reader", "none", "fail"):
            self.last = op
        self.like = {i: x for i, x in {**self.like, **told}.items() if x != [1.0] * arity[i]}
        self.account(op, before)

    def account(self, op, before):
        """What was heard during the operation."""
        rec, now = self.rec, self.expected(self.like)
        if len(self.heard) > 1:
            rec.fail(f"{len(self.heard)} notifications for one operation", operation=op)
        if before is not None and before != now and not self.heard:
            rec.fail("the listener is not told of a change", operation=op)
        if op[0] in ("ask", "reader") and self.heard:
            rec.fail("the listener is told of a change, there is none", operation=op)
        for listener, what, tree, force in self.heard:
            if listener is not self.listener:
                rec.fail("another listener is told", operation=op)
            if tree is not self.jt:
                rec.fail("the listener is told about another tree", operation=op)
            if force != now:
                rec.fail(f"while the listener is told, {force} is in force, not {now}", operation=op)
            rec.outcome((what, op[0]))
        if self.in_force(self.jt) != now:
            rec.fail(f"the evidence in force is {self.in_force(self.jt)}, not {now}", operation=op)
        if self.read is not None:
            self.judge(self.read, self.like, op, "inside the listener")

    def judge(self, got, like, path, where):
        want = nets.marginals(nets.weigh(nets.joint(self.spec), like))
        if want is None:
            self.rec.count("impossible_evidence_reached")
        else:
            nets.compare_marginals(self.rec, got, want, self.spec, operations=path, where=where)

    def check(self, path):
        self.judge(nets.observed_marginals(self.jt, self.spec), self.like, path, "afterwards")
        self.judge(nets.observed_marginals(self.other, self.spec), {}, path, "the other tree")
        self.rec.trace()


def run(case, rec):
    spec = case["net"]

    def walk(path):
        office = Office(spec, rec)
        for op in path:
            office.do(op)
        office.check(path)
        rec.state((spec, path))
        if len(path) < case["depth"]:
            for op in office.enabled():
                walk(path + [op])

    if "steps" in case:
        office = Office(spec, rec)
        for path in world.marathon(office, case["steps"]):
            office.check(path[-30:])
        rec.state((spec, "long history"))
        return
    walk(list(case["prefix"]))
