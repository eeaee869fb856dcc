"""Evidence alphabets: what a user can say about one variable, and what it means."""
import itertools

# an item is (kind, {value index: likelihood}); its meaning is a likelihood vector


def meaning(kind, given, k):
    """The documented normalisation: absent counts as 0."""
    full = [float(given.get(v, 0.0)) for v in range(k)]
    if kind == "VIRTUAL":
        return [min(1.0, max(0.0, x)) for x in full]
    if kind == "FINDING":
        out = [1.0 if x > 0 else 0.0 for x in full]
        return out if any(out) else [1.0] * k
    if kind == "UNOBSERVE":
        return [1.0] * k
    if kind == "OBSERVATION":
        best = max(full)
        first = next(v for v in order_of(given, k) if full[v] == best)
        return [1.0 if v == first else 0.0 for v in range(k)]
    raise KeyError(kind)


def order_of(given, k):
    """Values in the order of mention, unmentioned ones after."""
    return list(given) + [v for v in range(k) if v not in given]


def hard(k):
    return [("OBSERVATION", {v: 1.0}) for v in range(k)]


def soft(k):
    if k == 1:
        return [("VIRTUAL", {0: 0.5})]
    if k == 2:
        return [
            ("VIRTUAL", {0: 1.0, 1: 0.5}),
            ("VIRTUAL", {0: 0.3, 1: 0.9}),
            ("VIRTUAL", {1: 0.4}),
        ]
    return [
        ("VIRTUAL", {0: 1.0, 1: 0.5, 2: 0.25}),
        ("VIRTUAL", {0: 0.3, 2: 0.9}),
        ("FINDING", {0: 1.0, 1: 1.0}),
        ("FINDING", {1: 0.5, 2: 2.0}),
    ]


def alphabet(k):
    return hard(k) + soft(k)


def assignments(arity, options):
    """Every choice of None or one option per node, fewest nodes first."""
    per = [[None] + list(options(k)) for k in arity]
    every = list(itertools.product(*per))
    every.sort(key=lambda a: sum(x is not None for x in a))
    return every


def make(jt, spec, i, item):
    """The evidence object for node index i through the public builder."""
    from pybbn.graph.jointree import EvidenceBuilder, EvidenceType

    from mc import nets

    kind, given = item
    values = nets.values_of(spec, i)
    b = (
        EvidenceBuilder()
        .with_node(jt.get_bbn_node(nets.ids_of(spec)[i]))
        .with_type(EvidenceType[kind])
    )
    for v, l in given.items():
        b = b.with_evidence(values[int(v)], l)
    return b.build()
