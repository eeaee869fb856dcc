"""C17: libpgm descriptions of every small network in every order, against the reference."""
import itertools
import json

from mc import nets

PROPERTY = "C17"
CHUNK = 8
BOUNDS = {
    "quick": "every DAG on 1..3 nodes x every vertex order x every numbering, every 4-node DAG x 6 orders, 5-node DAGs up to "
    "renaming, 14 larger shapes and the wide ones; parent lists in and against numerical order; dictionary, JSON text and object; roots "
    "with None and with an empty parent list; numeric and awkward values",
    "thorough": "every 4-node DAG x every vertex order and numbering",
}


def cases(tier):
    deep = tier == "thorough"
    for n in (1, 2, 3, 4):
        perms = list(itertools.permutations(range(n)))
        for edges in nets.all_dags(n):
            some = perms if n < 4 or deep else perms[::5]
            for k, order in enumerate(some):
                for flip in (False, True):
                    yield {"net": nets.spec(n, edges[::-1] if flip else edges, "generic", nets.MIXED[:n], order=list(order), ids=list(some[(7 * k + 3) % len(some)])), "k": k}
    for edges in nets.unlabelled_dags(5):
        yield {"net": nets.spec(5, edges[::-1], "mixed", order=[4, 1, 3, 0, 2], ids=[2, 0, 4, 1, 3]), "k": 1}
    for n, edges in nets.BIG.values():
        yield {"net": nets.spec(n, edges, "generic", order=list(range(n))[::-1], ids=list(range(n))), "k": 2}
        yield {"net": nets.spec(n, edges[::-1], "mixed", order=list(range(n)), ids=list(range(n))[::-1]), "k": 3}
    for s in nets.wide():
        yield {"net": dict(s, order=list(range(s["n"]))[::-1], ids=list(range(s["n"]))), "k": 2}


VALUES = [["s0", "s1", "s2"], ["0", "1", "2"], ["hi there", "a=b", "c|d"]]
MORE = [f"m{i}" for i in range(100)]


def describe(spec, none):
    """The network in libpgm's form."""
    n, ids, cpts = spec["n"], nets.ids_of(spec), nets.cpts_of(spec)
    names = [f"node {i}" for i in range(n)]
    pas = nets.parents_of(spec)
    values = [(VALUES[i % 3] + MORE)[: spec["arity"][i]] for i in range(n)]
    data = {}
    for i in spec["order"]:
        k = spec["arity"][i]
        if pas[i]:
            combos = list(itertools.product(*[values[p] for p in pas[i]]))
            rows = {
                "[" + ", ".join(f"'{v}'" for v in combo) + "]": cpts[i][r * k : r * k + k]
                for r, combo in enumerate(combos)
            }
            if i % 2:  # the order of table entries must not matter
                rows = dict(reversed(rows.items()))
        else:
            rows = cpts[i]
        data[names[i]] = {
            "ord": ids[i],
            "numoutcomes": k,
            "vals": values[i],
            "parents": [names[p] for p in pas[i]] or (None if none else []),
            "children": [names[c] for p, c in spec["edges"] if p == i] or None,
            "cprob": rows,
        }
    return {
        "V": [names[i] for i in spec["order"][::-1]],
        "E": [[names[p], names[c]] for p, c in spec["edges"]],
        "Vdata": data,
    }, names, values


class Plain:
    def __init__(self, d):
        self.V, self.E, self.Vdata = d["V"], d["E"], d["Vdata"]


def run(case, rec):
    from pybbn.graph.factory import Factory
    from pybbn.pptc.inferencecontroller import InferenceController

    spec = case["net"]
    want = nets.marginals(nets.joint(spec))
    ids = nets.ids_of(spec)
    pas = nets.parents_of(spec)
    for none in (False, True):
        for entry in ("dict", "json", "object"):
            d, names, values = describe(spec, none)
            text = json.dumps(d)
            if entry == "dict":
                bbn = Factory.from_libpgm_discrete_dictionary(d)
            elif entry == "json":
                bbn = Factory.from_libpgm_discrete_json(text)
            else:
                bbn = Factory.from_libpgm_discrete_object(Plain(d))
            rec.step()
            if json.dumps(d) != text:
                rec.fail("the description was changed", entry=entry)
            got = sorted((x.id, x.variable.id, x.variable.name, list(x.variable.values)) for x in bbn.get_nodes())
            exp = sorted((ids[i], ids[i], names[i], values[i]) for i in range(spec["n"]))
            if got != exp:
                rec.fail(f"the variables are {got}, expected {exp}", entry=entry)
            got = sorted((e.i.id, e.j.id, str(e.type)) for e in bbn.get_edges())
            exp = sorted((ids[p], ids[c], "EdgeType.DIRECTED") for p, c in spec["edges"])
            if got != exp:
                rec.fail(f"the edges are {got}, expected {exp}", entry=entry)
            for i in range(spec["n"]):
                if sorted(bbn.get_parents(ids[i])) != sorted(ids[p] for p in pas[i]):
                    rec.fail(f"the parents of {names[i]} are {bbn.get_parents(ids[i])}", entry=entry)
            jt = InferenceController.apply(bbn)
            post = jt.get_posteriors()
            for i in range(spec["n"]):
                for v, w in zip(values[i], want[i]):
                    if not abs(post[names[i]][v] - w) < 1e-9:
                        rec.fail(f"P({names[i]}={v}) is {post[names[i]][v]}, expected {w}", entry=entry)
            rec.state((spec, none, entry))
            rec.trace()
    rec.outcome([[round(float(x), 9) for x in v] for v in want])
    rec.sample(case)
