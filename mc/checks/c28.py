"""C28: the exported DNE text of every small network, parsed and compared."""
import re

from mc import nets, rt, world

PROPERTY = "C28"
CHUNK = 8
BOUNDS = {
    "quick": "every DAG on 1..4 nodes in 3 combinations of edge order, node order, numbering, arity and CPT family, 5-node DAGs "
    "up to renaming, 14 larger shapes and the wide ones; tiny, repeating and deterministic probabilities; default and given network name",
    "thorough": "every labelled DAG on 5 nodes in 2 combinations",
}


def cases(tier):
    for k, s in enumerate(rt.specs(tier)):
        yield {"net": s, "named": k % 2 == 1}
    for s in nets.wide():
        yield {"net": s, "named": False}


BLOCK = re.compile(r"\bnode\s+(\S+)\s*\{(.*?)\}\s*;", re.S)
FIELD = re.compile(r"(\w+)\s*=\s*(\([^)]*\)|[^;]*);")


def parse(text):
    """name -> fields, in order of appearance."""
    return [(name, dict(FIELD.findall(body))) for name, body in BLOCK.findall(text)]


def items(s):
    s = s.strip()
    if not (s.startswith("(") and s.endswith(")")):
        raise AssertionError(f"not a list: {s}")
    s = s[1:-1].strip()
    return [x.strip() for x in s.split(",")] if s else []


def run(case, rec):
    from pybbn.graph.dag import Bbn

    spec = case["net"]
    names = [("v%d" % i if i % 2 else "Some_Name%d" % i) for i in range(spec["n"])]
    spec = dict(spec, names=names)
    bbn = nets.build(spec)
    before = world.snapshot(bbn)
    text = Bbn.to_dne(bbn, bnet_name="mine") if case["named"] else Bbn.to_dne(bbn)
    rec.step()
    if world.snapshot(bbn) != before:
        rec.fail("exporting changed the network")
    head = re.search(r"\bbnet\s+(\S+)\s*\{", text)
    if not head or head.group(1) != ("mine" if case["named"] else "network"):
        rec.fail(f"the network's name is missing: {text[:200]}")
    if text.count("{") != text.count("}") or text.count("{") != spec["n"] + 1:
        rec.fail("braces do not match")
    found = parse(text)
    if sorted(n for n, _ in found) != sorted(names):
        rec.fail(f"described variables are {[n for n, _ in found]}, expected {names}")
    cpts, pas = nets.cpts_of(spec), nets.parents_of(spec)
    fields = dict(found)
    edges, read, arity = [], [], []
    for i in range(spec["n"]):
        f = fields[names[i]]
        if items(f["states"]) != nets.values_of(spec, i):
            rec.fail(f"states of {names[i]} are {f['states']}")
        got = items(f["parents"])
        want = [names[p] for p in pas[i]]
        if got != want:
            rec.fail(f"parents of {names[i]} are {got}, expected {want}", edges=spec["edges"])
        probs = [float(x) for x in items(f["probs"])]
        if probs != cpts[i]:
            rec.fail(f"table of {names[i]} is {probs}, expected {cpts[i]}")
        if f.get("discrete", "").strip() != "TRUE" or f.get("kind", "").strip() != "NATURE" or f.get("chance", "").strip() != "CHANCE":
            rec.fail(f"{names[i]} is not described as a discrete chance node: {f}")
        edges += [[names.index(p), i] for p in got]
        read.append(probs)
        arity.append(len(items(f["states"])))
    parsed = dict(spec, edges=edges, arity=arity)
    a, b = nets.joint(parsed, read), nets.joint(spec)
    if a.shape != b.shape or abs(a - b).max() > 1e-12:
        rec.fail("the described distribution is another one")
    rec.state((spec, case["named"]))
    rec.outcome(text)
    rec.trace()
    rec.sample(case)
