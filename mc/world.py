"""Worlds of one network and several join trees obtained from it, and the exploration of all
operation sequences on them up to a depth.  Reference per tree: its CPTs and the likelihoods
in force; reference for the network: a snapshot of everything a user can see."""
import collections
import copy
import itertools
import json
import pickle

from mc import evid, nets


def snapshot(bbn):
    """Everything a user can see of a network."""
    nodes = [
        (n.id, n.variable.id, n.variable.name, list(n.variable.values), [float(p) for p in n.probs])
        for n in bbn.get_nodes()
    ]
    edges = [(e.i.id, e.j.id, str(e.type), e.key) for e in bbn.get_edges()]
    parents = {c: list(ps) for c, ps in bbn.parents.items()}
    ids = [n[0] for n in nodes]
    sets = {
        i: (
            sorted(bbn.get_parents(i)),
            sorted(bbn.get_children(i)),
            sorted(bbn.get_neighbors(i)),
            list(bbn.get_parents_ordered(i)),
        )
        for i in ids
    }
    return {"nodes": nodes, "edges": edges, "parents": parents, "sets": sets}


class World:
    def __init__(self, spec, ops, rec):
        self.spec, self.ops, self.rec = spec, ops, rec
        self.bbn = nets.build(spec)
        self.before = snapshot(self.bbn)
        self.trees, self.made = [], 0
        self.add(self.apply(), nets.cpts_of(spec))

    def apply(self):
        from pybbn.pptc.inferencecontroller import InferenceController

        self.rec.step()
        return InferenceController.apply(self.bbn)

    def add(self, jt, cpts, like=None):
        self.made += 1
        self.trees.append({"jt": jt, "cpts": cpts, "like": dict(like or {})})

    # ---- operations

    def enabled(self):
        n = self.spec["n"]
        result = []
        for t in range(len(self.trees)):
            for op in self.ops:
                if op in ("re", "reupd"):
                    for which in sorted({(0,), (n - 1,), tuple(range(n))}):
                        result.append([op, t, list(which)])
                elif op == "ev":
                    for e in range(4):
                        result.append([op, t, e])
                else:
                    if op == "clear" and not self.trees[t]["like"]:
                        continue
                    if op == "apply" and t:
                        continue
                    result.append([op, t])
        return result

    def evidence(self, e):
        n, arity = self.spec["n"], self.spec["arity"]
        return [
            {0: ("OBSERVATION", {arity[0] - 1: 1.0})},
            {n - 1: ("OBSERVATION", {0: 1.0})},
            {n - 1: evid.soft(arity[n - 1])[1]},
            {0: evid.soft(arity[0])[0], n - 1: ("OBSERVATION", {arity[n - 1] - 1: 1.0})},
        ][e]

    def do(self, op):
        from pybbn.graph.jointree import JoinTree
        from pybbn.pptc.inferencecontroller import InferenceController

        self.rec.step()
        name, t = op[0], self.trees[op[1]]
        ids = nets.ids_of(self.spec)
        if name == "re":
            salt = 100 + self.made
            fresh = nets.cpts_of(self.spec, salt)
            if self.spec.get("nudge"):
                fresh = [nets.nudged(c, k) for c, k in zip(t["cpts"], self.spec["arity"])]
            cpts = [fresh[i] if i in op[2] else t["cpts"][i] for i in range(self.spec["n"])]
            given = {ids[i]: nets.holder(i + self.made, fresh[i]) for i in op[2]}
            given[987654] = [0.5, 0.5]  # names no variable of this tree
            self.add(InferenceController.reapply(t["jt"], given), cpts)
        elif name == "ev":
            chosen = self.evidence(op[2])
            t["jt"].update_evidences(
                [evid.make(t["jt"], self.spec, i, x) for i, x in chosen.items()]
            )
            for i, x in chosen.items():
                t["like"][i] = evid.meaning(*x, self.spec["arity"][i])
        elif name == "clear":
            t["jt"].unobserve_all()
            t["like"] = {}
        elif name == "copy":
            self.add(copy.deepcopy(t["jt"]), t["cpts"], t["like"])
        elif name == "pickle":
            self.add(pickle.loads(pickle.dumps(t["jt"], protocol=2 + self.made % 4)), t["cpts"], t["like"])
        elif name == "apply":
            self.add(self.apply(), nets.cpts_of(self.spec))
        elif name == "serde":
            d = json.loads(json.dumps(JoinTree.to_dict(t["jt"], self.bbn)))
            self.add(InferenceController.apply_from_serde(JoinTree.from_dict(d)), t["cpts"])
        else:
            raise KeyError(name)

    # ---- oracle

    def check(self, path):
        rec = self.rec
        for k, t in enumerate(self.trees):
            want = nets.marginals(nets.weigh(nets.joint(self.spec, t["cpts"]), t["like"]))
            if want is None:
                rec.count("impossible_evidence_reached")
                continue
            got = nets.observed_marginals(t["jt"], self.spec)
            nets.compare_marginals(rec, got, want, self.spec, tree=k, operations=path)
            rec.outcome([[round(x, 9) for x in v] for v in want])
        if snapshot(self.bbn) != self.before:
            rec.fail("the network was changed", operations=path, before=self.before, after=snapshot(self.bbn))
        rec.trace()


def explore(spec, ops, depth, rec, prefix=()):
    """Every operation sequence of length at most depth, each executed from scratch; the
    oracle runs after its last operation (its prefixes are sequences of their own)."""

    def execute(path):
        w = World(spec, ops, rec)
        for op in path:
            w.do(op)
        w.check(path)
        rec.state((spec, path))
        return w

    def walk(path):
        w = execute(path)
        if len(path) == 2:
            rec.sample({"network": spec, "operations": path})
        if len(path) < depth:
            for op in w.enabled():
                walk(path + [op])

    walk(list(prefix))


def first_steps(spec, ops):
    """The operations enabled initially, to split one network over several workers."""
    w = World.__new__(World)
    w.spec, w.ops, w.trees = spec, ops, [{"like": {}}]
    return w.enabled()


# ---------------------------------------------------------------- long histories


def pairs(k):
    """A sequence over range(k) in which every ordered pair occurs exactly once as neighbours (de Bruijn)."""
    result = []
    for a in range(k):
        result.append(a)
        for b in range(a + 1, k):
            result += [a, b]
    return result + [0]


def marathon(w, steps, allow=lambda op: True):
    """One long history: of the operations enabled, always one that has followed the last one least often
    (and then, that was used least often).  Yields the path after every step."""
    used, path, last = collections.Counter(), [], None
    kind = lambda op: json.dumps([op[0]] + op[2:])
    for step in range(steps):
        ops = [op for op in w.enabled() if allow(op)]
        op = min(range(len(ops)), key=lambda k: (used[last, kind(ops[k])], used[kind(ops[k])], (k + 7 * step) % len(ops)))
        op = ops[op]
        w.do(op)
        path.append(op)
        used[last, kind(op)] += 1
        used[kind(op)] += 1
        last = kind(op)
        yield path


def long_world(spec, ops, steps, rec):
    w = World(spec, ops, rec)
    for path in marathon(w, steps):
        if len(w.trees) > 6:  # the first and the last ones are kept
            w.trees = w.trees[:1] + w.trees[-4:]
        w.check(path[-40:])
    rec.state((spec, ops, steps))
