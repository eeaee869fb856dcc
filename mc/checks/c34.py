"""C34: every sequence of exporting, loading, editing, evidence and re-application: dictionaries stay as
they were made, and what is loaded from them depends on nothing else."""
import copy
import json

from mc import evid, nets, rt, world

PROPERTY = "C34"
CHUNK = 1
BOUNDS = {
    "quick": "6 networks of 2-3 variables x every sequence of 3 operations (thorough: 4; 2-variable networks: 4 and 5) out of export (network, tree), load, "
    "edit a network (add a parent, remove a leaf), new CPT, apply, evidence, re-apply, after an initial export of the network and its tree; one history of 90 operations",
    "thorough": "one operation more on every network; 4-variable networks",
}


def start_nets(tier):
    yield nets.spec(2, [[0, 1]], "generic", [2, 3]), 4
    yield nets.spec(2, [], "generic", ids=[10, 2]), 4
    yield nets.spec(3, [[0, 1], [1, 2]], "generic", ids=[10, 2, 33]), 3
    yield nets.spec(3, [[1, 2], [0, 2]], "generic", [2, 3, 2]), 3
    yield nets.spec(3, [[0, 1], [0, 2]], "mixed", ids=[5, 3, 1], order=[2, 1, 0]), 3
    yield nets.spec(3, [[2, 1], [2, 0], [1, 0]], "generic", ids=[0, 1, 2]), 3
    if tier == "thorough":
        yield nets.spec(4, [[0, 2], [1, 2], [2, 3]], "generic", ids=nets.GAPPED[:4]), 2
        yield nets.spec(4, [[3, 1], [2, 1], [1, 0]], "generic", [2, 3, 2, 2]), 2


def cases(tier):
    for s, depth in start_nets(tier):
        yield {"net": s, "steps": 200 if tier == "thorough" else 90}
        w = Shelf(s, None)
        for op in w.enabled():
            yield {"net": s, "depth": depth + (tier == "thorough"), "first": op}


class Net:
    """A network and what it must be."""

    def __init__(self, bbn, ids, arity, edges, cpts):
        self.bbn, self.ids, self.arity, self.edges, self.cpts = bbn, list(ids), dict(arity), list(edges), {k: list(v) for k, v in cpts.items()}

    def twin(self, bbn):
        return Net(bbn, self.ids, self.arity, self.edges, self.cpts)

    def spec(self):
        at = {x: k for k, x in enumerate(self.ids)}
        s = nets.spec(len(self.ids), [[at[a], at[b]] for a, b in self.edges], arity=[self.arity[x] for x in self.ids], ids=list(self.ids))
        s["names"] = [f"name {x}" for x in self.ids]
        return s, [list(self.cpts[x]) for x in self.ids]

    def facts(self):
        s, cpts = self.spec()
        nodes = sorted((x, x, f"name {x}", nets.values_of(s, k), cpts[k]) for k, x in enumerate(self.ids))
        parents = {}
        for a, b in self.edges:
            parents.setdefault(b, []).append(a)
        return {"nodes": nodes, "edges": sorted((a, b, "EdgeType.DIRECTED") for a, b in self.edges), "parents": parents}


def wreck(d):
    """Overwrites everything in a dictionary."""
    for k in list(d) if isinstance(d, dict) else range(len(d)):
        if isinstance(d[k], (dict, list)):
            wreck(d[k])
        else:
            d[k] = "overwritten"
    d.clear()


class Shelf:
    """The networks, trees and dictionaries made so far."""

    def __init__(self, spec, rec):
        self.rec = rec
        self.nets, self.trees, self.dicts = [], [], []
        spec = dict(spec, names=[f"name {x}" for x in nets.ids_of(spec)])
        ids = nets.ids_of(spec)
        bbn = nets.build(spec) if rec else None
        self.nets.append(Net(bbn, ids, dict(zip(ids, spec["arity"])), [(ids[a], ids[b]) for a, b in spec["edges"]], dict(zip(ids, nets.cpts_of(spec)))))
        self.version = [0]  # of each network
        self.fresh = 0
        if rec:
            self.apply(0)
            self.dump_net(0)
            self.dump_tree(0)
        else:  # for enabled() only
            self.dicts = [["net"], ["tree"]]
            self.trees = [{"net": 0, "version": 0}]

    # ---- operations

    def enabled(self):
        ops = []
        k = len(self.nets) - 1
        for net in sorted({0, k}):
            ops += [["edit", net], ["cut", net], ["cpt", net], ["dump_net", net]]
            ops.append(["apply", net])
        for t in sorted({0, len(self.trees) - 1}):
            tree = self.trees[t]
            ops += [["ev", t], ["re", t], ["clear", t]]
            if self.version[tree["net"]] == tree["version"]:
                ops.append(["dump_tree", t])
        for kind in ("net", "tree"):
            of = [d for d in range(len(self.dicts)) if self.dicts[d][0] == kind]
            for d in sorted({of[0], of[-1]}):
                ops += [["load", d], ["take", d]]
        return ops

    def do(self, op):
        self.rec.step()
        getattr(self, op[0])(*op[1:])

    def apply(self, k):
        from pybbn.pptc.inferencecontroller import InferenceController

        net = self.nets[k]
        self.trees.append({"jt": InferenceController.apply(net.bbn), "net": k, "version": self.version[k], "model": net.spec(), "like": {}, "own": False})

    def dump_net(self, k):
        from pybbn.graph.dag import Bbn

        net = self.nets[k]
        d = Bbn.to_dict(net.bbn)
        wreck(Bbn.to_dict(net.bbn))
        self.dicts.append(["net", d, copy.deepcopy(d), json.dumps(d), net.twin(None)])

    def dump_tree(self, t):
        from pybbn.graph.jointree import JoinTree

        tree = self.trees[t]
        d = JoinTree.to_dict(tree["jt"], self.nets[tree["net"]].bbn)
        wreck(JoinTree.to_dict(tree["jt"], self.nets[tree["net"]].bbn))
        self.dicts.append(["tree", d, copy.deepcopy(d), json.dumps(d), tree])

    def take(self, k):
        """Loads from a dictionary that is then overwritten."""
        self.load(k, True)

    def load(self, k, over=False):
        from pybbn.graph.dag import Bbn
        from pybbn.graph.jointree import JoinTree
        from pybbn.pptc.inferencecontroller import InferenceController

        kind, d, _, _, source = self.dicts[k]
        d = copy.deepcopy(d) if over else d
        if kind == "net":
            self.nets.append(source.twin(Bbn.from_dict(d)))
            self.version.append(0)
        else:
            jt = InferenceController.apply_from_serde(JoinTree.from_dict(d))
            self.trees.append(dict(source, jt=jt, like={}, own=True))
        if over:
            wreck(d)

    def edit(self, k):
        """A new variable becomes a parent of the last one."""
        from pybbn.graph.edge import Edge, EdgeType
        from pybbn.graph.node import BbnNode
        from pybbn.graph.variable import Variable

        net = self.nets[k]
        self.fresh += 1
        x, y = 500 + self.fresh, net.ids[-1]
        a = BbnNode(Variable(x, f"name {x}", ["s0", "s1"]), [0.25, 0.75])
        k_y, old = net.arity[y], net.cpts[y]
        new = []
        for r in range(0, len(old), k_y):
            new += old[r : r + k_y] + nets.row("generic", x, r, k_y, 5)
        node = net.bbn.get_node(y)
        net.bbn.add_edge(Edge(a, node, EdgeType.DIRECTED))
        node.probs = list(new)
        net.ids.insert(0, x)
        net.arity[x], net.cpts[x], net.cpts[y] = 2, [0.25, 0.75], new
        net.edges.append((x, y))
        self.version[k] += 1

    def cut(self, k):
        net = self.nets[k]
        leaves = [x for x in net.ids if x not in [a for a, _ in net.edges]]
        if len(net.ids) > 1:
            x = leaves[-1]
            net.bbn.remove_node(x)
            net.ids.remove(x)
            net.edges = [e for e in net.edges if x not in e]
            self.version[k] += 1

    def cpt(self, k):
        net = self.nets[k]
        x = net.ids[0]
        n = net.arity[x]
        net.cpts[x] = [q for r in range(len(net.cpts[x]) // n) for q in nets.row("generic", x, r, n, 60 + self.version[k])]
        net.bbn.get_node(x).probs[:] = net.cpts[x]
        self.version[k] += 1

    def ev(self, t):
        tree = self.trees[t]
        spec, _ = tree["model"]
        given = {0: evid.soft(spec["arity"][0])[0], spec["n"] - 1: ("OBSERVATION", {spec["arity"][-1] - 1: 1.0})}
        for i, x in given.items():
            tree["jt"].update_evidences([evid.make(tree["jt"], spec, i, x)])
            tree["like"][i] = evid.meaning(*x, spec["arity"][i])

    def clear(self, t):
        self.trees[t]["jt"].unobserve_all()
        self.trees[t]["like"] = {}

    def re(self, t):
        from pybbn.pptc.inferencecontroller import InferenceController

        tree = self.trees[t]
        spec, cpts = tree["model"]
        ids = nets.ids_of(spec)
        k = spec["arity"][0]
        new = [q for r in range(len(cpts[0]) // k) for q in nets.row("generic", ids[0], r, k, 90 + len(self.trees))]
        jt = InferenceController.reapply(tree["jt"], {ids[0]: list(new)})
        self.trees.append(dict(tree, jt=jt, model=(spec, [new] + cpts[1:]), like={}, own=True))

    # ---- oracle

    def check(self, path):
        rec = self.rec
        for k, (kind, d, frozen, text, _) in enumerate(self.dicts):
            if d != frozen or json.dumps(d) != text:
                rec.fail(f"the dictionary of a {kind} changed after it was made", operations=path, dictionary=k, now=d, was=frozen)
        for k, net in enumerate(self.nets):
            got = rt.facts(net.bbn)
            if got != net.facts():
                rec.fail(f"network {k} is another one", operations=path, got=got, want=net.facts())
        for k, t in enumerate(self.trees):
            if not t["own"] and self.version[t["net"]] != t["version"]:
                continue  # trees refer to the variables of their network
            spec, cpts = t["model"]
            want = nets.marginals(nets.weigh(nets.joint(spec, cpts), t["like"]))
            if want is not None:
                nets.compare_marginals(rec, nets.observed_marginals(t["jt"], spec), want, spec, operations=path, tree=k)
                rec.outcome([[round(x, 9) for x in v] for v in want])
        rec.trace()


def run(case, rec):
    def walk(path):
        w = Shelf(case["net"], rec)
        for op in path:
            w.do(op)
        w.check(path)
        rec.state((case["net"], path))
        if len(path) == 2:
            rec.sample({"network": case["net"], "operations": path})
        if len(path) < case["depth"]:
            for op in w.enabled():
                walk(path + [op])

    if "steps" in case:
        w = Shelf(case["net"], rec)
        for path in world.marathon(w, case["steps"], lambda op: op[0] != "edit" or len(w.nets[op[1]].ids) < 6):
            if len(path) % 5 == 0 or len(path) == case["steps"]:
                w.check(path[-40:])
        rec.state((case["net"], "long history"))
        return
    walk([case["first"]])
