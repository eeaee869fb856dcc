"""C27: every sequence of edits of a network and applications of inference up to a depth; at
the end every tree that still has to answer is put through a battery of evidence, and
inference is applied once more."""
import itertools

from mc import evid, nets, world

PROPERTY = "C27"
CHUNK = 1
BOUNDS = {
    "quick": "every DAG on 2 and 3 nodes x every sequence of 2 operations, 9 networks x 3 operations (add edge between any two nodes, remove any "
    "node, put a removed or new node in, replace any CPT, apply, set evidence on the last tree), then re-application of and evidence on every node of "
    "every tree built so far; 14 larger shapes and the wide ones and every 4-node DAG x 1 edit; 6 networks x one history of 200 operations",
    "thorough": "3 operations on every DAG on 2 and 3 nodes, 4 operations on four networks, 2 edits of 4-node DAGs",
}
ASSUMPTIONS = [
    "when parents change, the child's CPT is replaced to fit before inference is applied again",
]


class Net:
    """The network under edit, and what it should be."""

    def __init__(self, spec, rec):
        from pybbn.pptc.inferencecontroller import InferenceController

        self.rec = rec
        self.controller = InferenceController
        self.bbn = nets.build(spec)
        ids = nets.ids_of(spec)
        self.nodes = list(ids)  # in the network now
        self.arity = dict(zip(ids, spec["arity"]))
        self.edges = [(ids[a], ids[b]) for a, b in spec["edges"]]
        self.cpts = dict(zip(ids, nets.cpts_of(spec)))
        self.gone = []  # removed node objects
        self.salt = 0
        self.trees = []  # [tree, spec, cpts, likelihoods] of every tree built so far
        self.apply()

    def parents(self, x):
        return [a for a, b in self.edges if b == x]

    def renew(self, x):
        """A new CPT for x that fits its parents."""
        self.salt += 1
        rows = 1
        for p in self.parents(x):
            rows *= self.arity[p]
        cpt = [q for r in range(rows) for q in nets.row("generic", x, r, self.arity[x], self.salt)]
        self.cpts[x] = cpt
        self.bbn.get_node(x).probs = list(cpt)

    def now(self):
        at = {x: k for k, x in enumerate(self.nodes)}
        spec = nets.spec(
            len(self.nodes),
            [[at[a], at[b]] for a, b in self.edges],
            arity=[self.arity[x] for x in self.nodes],
            ids=list(self.nodes),
            names=[self.bbn.get_node(x).variable.name for x in self.nodes],
        )
        return spec, [list(self.cpts[x]) for x in self.nodes]

    def apply(self):
        jt = self.controller.apply(self.bbn)
        self.rec.step()
        spec, cpts = self.now()
        self.trees.append([jt, spec, cpts, {}])

    # ---- operations

    def enabled(self):
        ops = [["apply"], ["ev"], ["put"]]
        for x in self.nodes:
            ops.append(["cpt", x])
            if len(self.nodes) > 1:
                ops.append(["remove", x])
        for a, b in itertools.permutations(self.nodes, 2):
            if (a, b) in self.edges or (b, a) in self.edges:
                continue
            ids = {x: k for k, x in enumerate(self.nodes)}
            if nets.acyclic(len(self.nodes), [(ids[p], ids[c]) for p, c in self.edges + [(a, b)]]):
                ops.append(["edge", a, b])
        return ops

    def do(self, op):
        from pybbn.graph.edge import Edge, EdgeType
        from pybbn.graph.node import BbnNode
        from pybbn.graph.variable import Variable

        self.rec.step()
        if op[0] == "apply":
            self.apply()
        elif op[0] == "ev":
            jt, spec, cpts, like = self.trees[-1]
            i = spec["n"] - 1
            item = evid.hard(spec["arity"][i])[0]
            jt.update_evidences([evid.make(jt, spec, i, item)])
            like[i] = evid.meaning(*item, spec["arity"][i])
        elif op[0] == "cpt":
            self.renew(op[1])
        elif op[0] == "remove":
            x = op[1]
            node = self.bbn.get_node(x)
            kids = [b for a, b in self.edges if a == x]
            self.bbn.remove_node(x)
            self.gone.append(node)
            self.nodes.remove(x)
            self.edges = [e for e in self.edges if x not in e]
            for k in kids:
                self.renew(k)
        elif op[0] == "put":
            if self.gone:
                node = self.gone.pop()
            else:
                x = 200 + len(self.arity)
                self.arity[x] = 2
                node = BbnNode(Variable(x, f"n{x}", ["s0", "s1"]), [0.5, 0.5])
            self.bbn.add_node(node)
            self.nodes.append(node.id)
            self.renew(node.id)
        elif op[0] == "edge":
            a, b = op[1:]
            self.bbn.add_edge(Edge(self.bbn.get_node(a), self.bbn.get_node(b), EdgeType.DIRECTED))
            self.edges.append((a, b))
            self.renew(b)

    # ---- oracle

    def check(self, tree, path):
        jt, spec, cpts, like = tree
        want = nets.marginals(nets.weigh(nets.joint(spec, cpts), like))
        if want is None:
            return
        nets.compare_marginals(self.rec, nets.observed_marginals(jt, spec), want, spec, operations=path, evidence=like)

    def battery(self, tree, path):
        jt, spec, cpts, like = tree
        self.check(tree, path)
        for i in range(spec["n"]):
            item = evid.hard(spec["arity"][i])[-1] if i % 2 else evid.soft(spec["arity"][i])[0]
            jt.update_evidences([evid.make(jt, spec, i, item)])
            like[i] = evid.meaning(*item, spec["arity"][i])
            self.rec.step()
            self.check(tree, path)
        jt.unobserve_all()
        like.clear()
        self.rec.step()
        self.check(tree, path)
        self.rec.trace()

    def nodes_of_others(self, tree, path):
        """A tree answers for its variables also if asked with the network's or another tree's nodes."""
        jt, spec, cpts, like = tree
        want = nets.marginals(nets.weigh(nets.joint(spec, cpts), like))
        for where, nodes in [("network", dict(self.bbn.nodes))] + [("tree", {x.id: x for x in t[0].get_bbn_nodes()}) for t in self.trees]:
            for k, x in enumerate(nets.ids_of(spec)):
                if x in nodes and want is not None:
                    got = {list(e.entries.values())[0]: e.value for e in jt.get_bbn_potential(nodes[x]).entries}
                    self.rec.step()
                    for v, q in zip(nets.values_of(spec, k), want[k]):
                        if abs(got.get(v, -1) - q) > 1e-9:
                            self.rec.fail(f"a node of another {where} gives another posterior", operations=path, variable=x, got=got, want=list(want[k]))

    def other(self, tree, path):
        """Re-applying with CPTs for all its variables, or one: the tree as it was built, with those."""
        jt, spec, cpts, like = tree
        ids = nets.ids_of(spec)
        one = [[q for r in range(len(cpts[0]) // spec["arity"][0]) for q in nets.row("generic", ids[0], r, spec["arity"][0], 78)]] + cpts[1:]
        jt1 = self.controller.reapply(jt, {ids[0]: list(one[0])})
        self.rec.step()
        nets.compare_marginals(self.rec, nets.observed_marginals(jt1, spec), nets.marginals(nets.joint(spec, one)), spec, operations=path, reapplied=ids[0])
        new = [[q for r in range(len(c) // k) for q in nets.row("generic", x, r, k, 77)] for x, c, k in zip(ids, cpts, spec["arity"])]
        jt2 = self.controller.reapply(jt, {x: nets.holder(k, c) for k, (x, c) in enumerate(zip(ids, new))})
        self.rec.step()
        want = nets.marginals(nets.joint(spec, new))
        nets.compare_marginals(self.rec, nets.observed_marginals(jt2, spec), want, spec, operations=path, reapplied=True)

    def finish(self, path):
        for t in self.trees:
            self.other(t, path)
            self.nodes_of_others(t, path)
            self.battery(t, path)
        self.apply()
        for t in self.trees:
            self.battery(t, path + [["apply"]])
        self.rec.outcome(nets.marginals(nets.joint(*self.now())).__repr__())


def cases(tier):
    deep = tier == "thorough"
    for n in (2, 3):
        for edges in nets.all_dags(n):
            s = nets.spec(n, edges, "generic", nets.MIXED[:n], ids=nets.GAPPED[:n])
            for op in first(s):
                yield {"net": s, "depth": 3 if deep else 2, "prefix": [op]}
    chosen = [
        (2, []),
        (2, [[0, 1]]),
        (3, [[0, 1], [1, 2]]),
        (3, [[0, 2], [1, 2]]),
        (3, [[1, 0], [1, 2]]),
        (3, [[0, 1], [1, 2], [0, 2]]),
        (3, [[0, 1]]),
        (3, []),
        (3, [[2, 1], [2, 0], [0, 1]]),
    ]
    for k, (n, edges) in enumerate(chosen):
        s = nets.spec(n, edges, "generic", ids=list(range(n)))
        for op in first(s):
            yield {"net": s, "depth": 4 if deep and k < 4 else 3, "prefix": [op]}
    for edges in nets.unlabelled_dags(3):
        yield {"net": nets.spec(3, edges, "generic", ids=nets.GAPPED[:3]), "steps": 600 if deep else 200}
    for edges in nets.all_dags(4):
        yield {"net": nets.spec(4, edges[::-1], "generic", ids=nets.GAPPED[:4]), "depth": 2 if deep else 1, "prefix": []}
    for n, edges in nets.BIG.values():
        yield {"net": nets.spec(n, edges, "generic", ids=nets.GAPPED[:n]), "depth": 1, "prefix": []}
    for s in nets.wide(but=("parents7",)):
        yield {"net": s, "depth": 1, "prefix": []}


class Quiet:
    def step(self, n=1):
        pass


def first(spec):
    return Net(spec, Quiet()).enabled()


def run(case, rec):
    def walk(path):
        net = Net(case["net"], rec)
        for op in path:
            net.do(op)
        enabled = net.enabled() if len(path) < case["depth"] else []
        net.finish(path)
        rec.state((case["net"], path))
        if len(path) == 2:
            rec.sample({"network": case["net"], "operations": path})
        for op in enabled:
            if op[0] == "put" and sum(o[0] == "put" for o in path) >= 1 and len(net.nodes) > 4:
                continue
            walk(path + [op])

    if "steps" in case:
        net = Net(case["net"], rec)
        for path in world.marathon(net, case["steps"], lambda op: op[0] != "put" or len(net.nodes) < 5):
            net.trees = net.trees[-5:]
            for t in net.trees:
                net.check(t, path[-20:])
        net.finish(path[-20:])
        rec.state((case["net"], "long history"))
        return
    walk(list(case["prefix"]))
