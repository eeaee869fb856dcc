"""C09: dictionary and JSON round trips."""
import json
import os
import tempfile

from mc import nets, rt, world

PROPERTY = "C09"
CHUNK = 8
BOUNDS = {
    "quick": "every DAG on 1..4 nodes x 3 (numbering, insertion order, values, CPT family) settings, every 5-node DAG "
    "up to renaming, 14 larger shapes and the wide ones x 2, every 3-node DAG x kinds of labels that are easily mistaken for each other; each through dictionary, JSON text, JSON file, and twice",
    "thorough": "plus every labelled 5-node DAG x 2",
}
NAMES = ["n 0", 'q"uote', "back\\slash", "comma,bar|", "ünïcode", "x/y", "", " lead", "8", "9", "10", "11"]


def cases(tier):
    for i, s in enumerate(rt.specs(tier)):
        yield s
        if i % 5 == 0:
            yield dict(s, names=NAMES[: s["n"]])
    yield from nets.labelled()
    yield from nets.wide()


def run(spec, rec):
    from pybbn.graph.dag import Bbn

    bbn = nets.build(spec)
    full = world.snapshot(bbn)
    before = rt.facts(bbn)
    want = nets.marginals(nets.joint(spec))
    d = Bbn.to_dict(bbn)
    text = json.dumps(d)
    routes = {"dict": lambda: Bbn.from_dict(d), "text": lambda: Bbn.from_dict(json.loads(text))}
    for name, route in routes.items():
        back = route()
        rt.check(rec, before, back, spec, want, route=name)
        again = Bbn.from_dict(json.loads(json.dumps(Bbn.to_dict(back))))
        rt.check(rec, before, again, spec, want, route=name + " twice")
        rec.state((spec, name))
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "bbn.json")
        Bbn.to_json(bbn, path)
        rt.check(rec, before, Bbn.from_json(path), spec, want, route="file")
        rec.state((spec, "file"))
    if world.snapshot(bbn) != full:
        rec.fail("writing changed the network")
    rec.outcome(before)
    if spec["n"] >= 4:
        rec.sample({"network": spec, "edges": before["edges"], "parents": before["parents"]})
