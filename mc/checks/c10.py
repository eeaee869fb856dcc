"""C10: CSV round trips."""
import os
import tempfile

from mc import nets, rt, world

PROPERTY = "C10"
CHUNK = 8
BOUNDS = {
    "quick": "every DAG on 1..4 nodes x 3 (numbering, insertion order, values, CPT family) settings, every 5-node DAG "
    "up to renaming, 14 larger shapes and the wide ones x 2, every 3-node DAG x kinds of labels that are easily mistaken for each other; awkward admissible names; once and twice",
    "thorough": "plus every labelled 5-node DAG x 2",
}
NAMES = ["n 0", 'q"uote', "back\\slash", "a-b", "x/y", "0", "directed", "1.5", "node", "'", "10", "->"]


def cases(tier):
    for i, s in enumerate(rt.specs(tier)):
        yield s
        if i % 5 == 0:
            yield dict(s, names=NAMES[: s["n"]])
    yield from nets.wide()
    for edges in nets.all_dags(3):  # single-valued variables make the shortest lines
        yield nets.spec(3, edges, "generic", [1, 2, 1])
    yield from nets.labelled(labels=[x for x in nets.LABELS if x != "blank"])
    yield from (dict(s, names=['a,"1"', "|", "two\nlines"][: s["n"]]) for s in nets.labelled(labels=["comma", "bar"]))


def run(spec, rec):
    from pybbn.graph.dag import Bbn

    bbn = nets.build(spec)
    full = world.snapshot(bbn)
    before = rt.facts(bbn)
    want = nets.marginals(nets.joint(spec))
    with tempfile.TemporaryDirectory() as tmp:
        a, b = os.path.join(tmp, "a.csv"), os.path.join(tmp, "b.csv")
        Bbn.to_csv(bbn, a)
        back = Bbn.from_csv(a)
        rt.check(rec, before, back, spec, want, times=1)
        Bbn.to_csv(back, b)
        again = Bbn.from_csv(b)
        rt.check(rec, before, again, spec, want, times=2)
    if world.snapshot(bbn) != full:
        rec.fail("writing changed the network")
    rec.state(spec)
    rec.outcome(before)
    if spec["n"] >= 4:
        rec.sample({"network": spec, "edges": before["edges"], "parents": before["parents"]})
