"""C04: normalisation of evidence, on every likelihood assignment from a grid."""
import itertools

from mc import evid, nets

PROPERTY = "C04"
CHUNK = 1
BOUNDS = {
    "quick": "4 evidence types x every assignment of {absent,-0.5,0,1e-9,0.2,0.9,0.99,0.999999,1.0,1,3} to 2 or 3 values in every "
    "order of mention (3 values: forward and backward) x a prior evidence (none / hard / soft)",
    "thorough": "as quick with every order of mention",
}
GRID = [None, -0.5, 0.0, 0.2, 0.9, 1.0, 3.0]
MORE = GRID + [1e-9, 0.99, 0.999999, 1]


def cases(tier):
    grid = MORE
    for kind in ("VIRTUAL", "FINDING", "OBSERVATION", "UNOBSERVE"):
        for k in (1, 2, 3):
            for first in grid:
                yield {"kind": kind, "k": k, "first": first, "all": tier == "thorough", "grid": grid}


def run(case, rec):
    from pybbn.pptc.inferencecontroller import InferenceController

    kind, k = case["kind"], case["k"]
    spec = nets.spec(2, [[0, 1]], "generic", [k, 2])
    jt = InferenceController.apply(nets.build(spec))
    j0 = nets.joint(spec)
    priors = [None, ("OBSERVATION", {0: 1.0}), ("VIRTUAL", {0: 0.5, k - 1: 0.25})]
    for rest in itertools.product(case["grid"], repeat=k - 1):
        full = dict(enumerate((case["first"],) + rest))
        given = {v: x for v, x in full.items() if x is not None}
        if kind == "OBSERVATION" and not any(x > 0 for x in given.values()):
            continue  # observing nothing: no documented meaning
        if kind == "VIRTUAL" and not any(x > 0 for x in given.values()):
            continue  # impossible evidence
        orders = list(itertools.permutations(given))
        if not case["all"] and len(orders) > 2:
            orders = [orders[0], orders[-1]]
        for order in orders:
            g = {v: given[v] for v in order}
            clamped = evid.meaning(kind, g, k)
            ties = [v for v in range(k) if g.get(v, 0.0) == max(g.values(), default=0)]
            for prior in priors:
                jt.unobserve_all()
                if prior is not None:
                    jt.update_evidences([evid.make(jt, spec, 0, prior)])
                e = evid.make(jt, spec, 0, (kind, g))
                jt.update_evidences([e])
                rec.step(3)
                rec.state((kind, k, order, tuple(g.items()), prior))
                stored = [e.values[x] for x in nets.values_of(spec, 0)]
                want = clamped
                if kind == "OBSERVATION" and len(ties) > 1:
                    # any value of highest likelihood may be chosen
                    if sorted(stored) != [0.0] * (k - 1) + [1.0] or stored.index(1.0) not in ties:
                        rec.fail(f"observation {g} stored as {stored}", given=g)
                    want = stored
                if [float(x) for x in stored] != want:
                    rec.fail(f"{kind} {g} stored as {stored}, expected {want}", given=g)
                got = nets.observed_marginals(jt, spec)
                right = nets.marginals(nets.weigh(j0, {0: want}))
                nets.compare_marginals(rec, got, right, spec, given=g, prior=prior, kind=kind)
                rec.trace()
                rec.outcome(stored)
                rec.sample({"kind": kind, "given": given, "stored": stored, "marginals": got})
