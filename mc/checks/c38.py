"""C38: the text forms of everything a user prints, against the objects and the reference."""
import copy
import itertools
import json

from mc import evid, gauss, nets, world

PROPERTY = "C38"
CHUNK = 4
BOUNDS = {
    "quick": "every DAG on 1..3 nodes x 2 (numbering, names, values), every 4- and 5-node DAG up to renaming, 14 larger shapes and the wide ones, labels "
    "easily mistaken for each other: text of networks, nodes, variables, edges, moral graphs, join trees, cliques, separation sets, marginals, "
    "family tables and dictionaries of them, under 5 evidence settings, on applied, copied, re-applied and restored trees; every Gaussian of 1..3 variables x observation sets",
    "thorough": "also every 4-node DAG",
}


def cases(tier):
    for n in (1, 2, 3):
        for edges in nets.all_dags(n):
            yield {"net": nets.spec(n, edges, "generic", nets.MIXED[:n])}
            yield {"net": nets.spec(n, edges[::-1], "mixed", [3, 2, 4][:n], ids=nets.GAPPED[:n], order=list(range(n))[::-1], names=["z", "10", "b c"][:n])}
    for n in (4, 5):
        for edges in nets.all_dags(4) if tier == "thorough" and n == 4 else nets.unlabelled_dags(n):
            yield {"net": nets.spec(n, edges, "skew", nets.MIXED[:n], ids=nets.GAPPED[:n])}
    for n, edges in nets.BIG.values():
        yield {"net": nets.spec(n, edges, "generic", ids=nets.GAPPED[:n])}
    for s in nets.wide():
        yield {"net": s}
    for s in nets.labelled(2):
        yield {"net": s}
    for dim in (1, 2, 3):
        every = list(range(gauss.codes(dim)))
        for mean in ("zero", "distinct", "tiny", "wide"):
            for k in range(0, len(every), 64):
                yield {"dim": dim, "codes": every[k : k + 64], "mean": mean}
    for dim, code in gauss.MANY:
        yield {"dim": dim, "codes": [code], "mean": "distinct"}


def same(rec, what, got, want, **detail):
    rec.step()
    if got != want:
        rec.fail(f"{what} is printed as {got!r}, expected {want!r}", **detail)


def run(case, rec):
    if "dim" in case:
        return gaussians(case, rec)
    from pybbn.graph.jointree import JoinTree
    from pybbn.pptc.inferencecontroller import InferenceController

    spec = case["net"]
    n, arity, ids = spec["n"], spec["arity"], nets.ids_of(spec)
    bbn = nets.build(spec)
    before = world.snapshot(bbn)
    network(rec, bbn, spec)
    base = InferenceController.apply(bbn)
    cpts = nets.cpts_of(spec)
    fresh = nets.cpts_of(spec, 100)
    given = {ids[i]: list(fresh[i]) for i in range(n)}
    made = {
        "applied": (lambda: base, cpts),
        "copied": (lambda: copy.deepcopy(base), cpts),
        "re-applied": (lambda: InferenceController.reapply(base, given), fresh),
        "restored": (lambda: InferenceController.apply_from_serde(JoinTree.from_dict(json.loads(json.dumps(JoinTree.to_dict(base, bbn))))), cpts),
    }
    settings = [{}, {n - 1: ("OBSERVATION", {arity[n - 1] - 1: 1.0})}, {0: evid.soft(arity[0])[0]}, {i: ("OBSERVATION", {0: 1.0}) for i in range(min(n, 3))}, {}]
    full = nets.joint(spec, cpts) if fits(spec) else None
    for name, (make, tables) in made.items():
        jt = make()
        j = full if tables is cpts else nets.joint(spec, tables) if full is not None else None
        for k, put in enumerate(settings if n <= 4 else settings[:2]):
            jt.unobserve_all()
            if put:
                jt.update_evidences([evid.make(jt, spec, i, x) for i, x in put.items()])
            want = None
            if j is not None:
                want = nets.marginals(nets.weigh(j, {i: evid.meaning(*x, arity[i]) for i, x in put.items()}))
            tree(rec, jt, spec, tables, want, tree=name, evidence=put)
            rec.state((spec, name, k))
            rec.trace()
    network(rec, bbn, spec)
    if world.snapshot(bbn) != before:
        rec.fail("the network was changed")
    if n == 3:
        rec.sample({"network": spec, "text": str(bbn).split("\n")})


def fits(spec):
    size = 1
    for k in spec["arity"]:
        size *= k
    return size <= 20000


def node_text(spec, i):
    return f"{nets.ids_of(spec)[i]}|{nets.names_of(spec)[i]}|{','.join(nets.values_of(spec, i))}"


def nodes(rec, held, spec, **where):
    ids, names = nets.ids_of(spec), nets.names_of(spec)
    for i, x in enumerate(ids):
        same(rec, "a node", str(held[x]), node_text(spec, i), **where)
        same(rec, "a node (repr)", repr(held[x]), names[i], **where)
        same(rec, "a variable", str(held[x].variable), f"{x}|{names[i]}|{list(nets.values_of(spec, i))}", **where)



def network(rec, bbn, spec):
    from pybbn.pptc.moralizer import Moralizer

    ids = nets.ids_of(spec)
    nodes(rec, {x.id: x for x in bbn.get_nodes()}, spec)
    arcs = sorted(f"{ids[p]}->{ids[c]}" for p, c in spec["edges"])
    same(rec, "the edges of the network", sorted(str(e) for e in bbn.get_edges()), arcs)
    text = sorted(line for x in [node_text(spec, i) for i in range(spec["n"])] + arcs for line in x.split("\n"))
    same(rec, "the network", sorted(x for x in str(bbn).split("\n") if x), [x for x in text if x])
    pas = nets.parents_of(spec)
    lines = {frozenset((ids[p], ids[c])) for p, c in spec["edges"]}
    for i in range(spec["n"]):
        lines |= {frozenset((ids[a], ids[b])) for a, b in itertools.combinations(pas[i], 2)}
    bars = sorted(f"{min(e)}--{max(e)}" for e in lines)
    moral = Moralizer.moralize(copy.deepcopy(bbn))
    same(rec, "the edges of the moral graph", sorted(str(e) for e in moral.get_edges()), bars)


def entry_text(pairs, value, rec, text, **where):
    """id=value,... in the order of the ids, a bar, and the number to five places."""
    head = ",".join(f"{k}={v}" for k, v in sorted(pairs.items()))
    same(rec, "an entry", text, f"{head}|{float(value):.5f}", **where)


def table(rec, what, potential, expected, **where):
    """expected: list of (assignment, value) in order; values may be None."""
    rec.step()
    for form in (str(potential), repr(potential), f"{potential}"):
        want = []
        for e, (pairs, value) in zip(potential.entries, expected):
            if value is not None and abs(float(e.value) - value) > 1e-9:
                rec.fail(f"{what} has {e.value} where {value} is expected", **where)
            head = ",".join(f"{k}={v}" for k, v in sorted(pairs.items()))
            want.append(f"{head}|{float(e.value):.5f}")
        same(rec, what, form, "\n".join(want), **where)
    if len(potential.entries) != len(expected):
        rec.fail(f"{what} has {len(potential.entries)} lines, expected {len(expected)}", **where)
    for e, (pairs, value) in zip(potential.entries, expected):
        entry_text(pairs, e.value, rec, str(e), **where)
        entry_text(pairs, e.value, rec, repr(e), **where)
        same(rec, "the sorted assignment", e.get_entry_keys(), sorted(pairs.items()), **where)
        same(rec, "the key and value", e.get_kv(), ("|".join(f"{k}={v}" for k, v in sorted(pairs.items())), e.value), **where)


def tree(rec, jt, spec, cpts, want, **where):
    from pybbn.graph.potential import Potential, PotentialUtil

    ids, names, n = nets.ids_of(spec), nets.names_of(spec), spec["n"]
    pas = nets.parents_of(spec)
    held = {x.id: x for x in jt.get_bbn_nodes()}
    nodes(rec, held, spec, **where)

    # what inference prints
    every, expected = [], {}
    for i in range(n):
        p = jt.get_bbn_potential(held[ids[i]])
        values = nets.values_of(spec, i)
        table(rec, f"the marginal of {names[i]}", p, [({ids[i]: v}, want[i][k] if want else None) for k, v in enumerate(values)], **where)
        every.append(p)
        expected.update({f"{ids[i]}={v}": e.value for v, e in zip(values, p.entries)})
    same(rec, "the dictionary of the marginals", Potential.to_dict(every), expected, **where)
    for i in range(n):
        if spec["arity"][i] > 12 or len(pas[i]) > 4:
            continue
        p = PotentialUtil.get_potential(held[ids[i]], [held[ids[q]] for q in pas[i]])
        who = pas[i] + [i]
        rows = list(itertools.product(*(nets.values_of(spec, q) for q in who)))
        flat = [float(x) for x in cpts[i]]
        table(rec, f"the table of {names[i]}", p, [({ids[q]: v for q, v in zip(who, row)}, x) for row, x in zip(rows, flat)], **where)
        same(rec, "the dictionary of a table", Potential.to_dict([p]), {"|".join(f"{ids[q]}={v}" for q, v in sorted(zip(who, row), key=lambda t: ids[t[0]])): x for row, x in zip(rows, flat)}, **where)

    # the tree itself
    at = dict(zip(ids, names))
    named = {c.id: sorted(at[x] for x in c.get_node_ids()) for c in jt.get_cliques()}
    text = {c: f"({','.join(x)})" for c, x in named.items()}
    for c in jt.get_cliques():
        same(rec, "a clique", str(c), text[c.id], **where)
        same(rec, "the name of a clique", c.get_sid(), "-".join(named[c.id]), **where)
    seps = {}
    for s in jt.get_sep_sets():
        both = sorted(set(named[s.left.id]) & set(named[s.right.id]))
        allowed = {f"|{text[s.left.id]} -- {','.join(x)} -- {text[s.right.id]}|" for x in itertools.permutations(both)} if len(both) < 6 else None
        seps[s.id] = str(s)
        if allowed is not None and str(s) not in allowed:
            rec.fail(f"a separation set is printed as {str(s)!r}, not as {sorted(allowed)[0]!r}", **where)
    edges = {e.sep_set.id: str(e) for e in jt.get_edges()}
    same(rec, "the edges", edges, {s.id: f"{text[s.left.id]}--{seps[s.id]}--{text[s.right.id]}" for s in jt.get_sep_sets()}, **where)
    lines = sorted(list(text.values()) + list(seps.values()) + list(edges.values()))
    same(rec, "the tree", sorted(x for x in str(jt).split("\n") if x), sorted(y for x in lines for y in x.split("\n") if y), **where)
    rec.outcome(sorted(text.values()))


def gaussians(case, rec):
    dim, mean = case["dim"], case["mean"]
    h = gauss.NAMES[:dim]
    for code in case["codes"]:
        for chosen in gauss.subsets(dim) if dim < 6 else gauss.runs(dim):
            gi = gauss.make(dim, code, mean)
            pairs = [(h[i], gauss.values(mean)[i]) for i in chosen]
            if pairs:
                gi = gi.do_inferences(pairs)
            rows = "|".join("[" + ",".join(f"{float(x):.3f}" for x in row) + "]" for row in gi.E)
            meta = ",".join(f"{k}={float(v):.3f}" for k, v in pairs)
            want = f"GaussianInference[H=[{','.join(gi.H)}], M=[{','.join(f'{float(x):.3f}' for x in gi.M)}], E=[{rows}], meta={{{meta}}}]"
            left = [x for i, x in enumerate(h) if i not in chosen]
            if list(gi.H) != left:
                rec.fail(f"the variables are {list(gi.H)}, expected {left}", code=code)
            same(rec, "a Gaussian", repr(gi), want, dim=dim, code=code, mean=mean, observed=pairs)
            same(rec, "a Gaussian (str)", str(gi), want, dim=dim, code=code, mean=mean, observed=pairs)
            rec.state((dim, code, mean, chosen))
            rec.trace()
