"""C06: calibration of every clique under every neighbour-visiting order and several hash seeds.

The visiting order is owned by the check: the tree's public neighbour query is answered with
every combination of permutations (stateless exploration of the message schedules)."""
import itertools
import json
import os
import subprocess
import sys

import numpy as np

from mc import evid, nets

PROPERTY = "C06"
CHUNK = 1
BOUNDS = {
    "quick": "every connected labelled 4-node DAG, every 5-node DAG up to renaming, 14 larger shapes and the wide ones x every combination of "
    "neighbour orders (capped at 60 per network, 400 for the larger shapes, caps counted) x 2 evidence settings; 12 "
    "hash seeds",
    "thorough": "as quick with caps 2000 and 20000, 4-node DAGs with the mixed CPT family as well, 64 hash seeds",
}
ASSUMPTIONS = ["the order of messages is determined by the order in which neighbours are visited"]


def cases(tier):
    deep = tier == "thorough"
    for edges in nets.all_dags(4):
        if len(edges) >= 3:
            yield {"net": nets.spec(4, edges, "generic"), "cap": 2000 if deep else 60}
            if deep:
                yield {"net": nets.spec(4, edges, "mixed", nets.MIXED[:4]), "cap": 2000}
    for edges in nets.unlabelled_dags(5):
        yield {"net": nets.spec(5, edges, ("mixed", "skew", "weak")[len(edges) % 3], ids=nets.GAPPED[:5]), "cap": 2000 if deep else 60}
    for n, edges in nets.BIG.values():
        for fam in ("generic", "mixed", "skew", "weak"):
            yield {"net": nets.spec(n, edges, fam, ids=nets.GAPPED[:n]), "cap": 20000 if deep else 400}
    for s in nets.wide("mixed"):
        yield {"net": s, "cap": 400 if deep else 40}
    for s in range(64 if deep else 12):
        yield {"hashseed": s}


class Ordered(set):
    """A set that is iterated in a chosen order."""

    def __init__(self, order):
        set.__init__(self, order)
        self.order = list(order)

    def __iter__(self):
        return iter([x for x in self.order if x in self])


def schedules(near, cap):
    """Every combination of neighbour orders: identity, then reversal, then all others up to
    the cap."""
    keys = sorted(k for k in near if len(near[k]) > 1)
    perms = [list(itertools.permutations(near[k])) for k in keys]
    total = 1
    for p in perms:
        total *= len(p)
    combos = itertools.product(*perms)
    return total, (dict(zip(keys, c)) for c in itertools.islice(combos, cap))


def check_cliques(rec, jt, spec, like, **detail):
    from pybbn.graph.potential import PotentialUtil

    ids = nets.ids_of(spec)
    back = {x: i for i, x in enumerate(ids)}
    j = nets.weigh(nets.joint(spec), like)
    total = j.sum()
    if total <= 0:
        return False
    for c in jt.get_cliques():
        pot = PotentialUtil.marginalize_for(jt, c, c.nodes)
        members = sorted(back[n.id] for n in c.nodes)
        axes = tuple(a for a in range(j.ndim) if a not in members)
        want = j.sum(axis=axes) / total
        got = np.zeros(want.shape)
        for e in pot.entries:
            at = tuple(nets.values_of(spec, i).index(e.entries[ids[i]]) for i in members)
            got[at] += e.value
        if len(pot.entries) != want.size:
            rec.fail("a clique table has the wrong number of entries", clique=c.id, **detail)
        s = got.sum()
        if not s > 0 or not np.allclose(got / s, want, rtol=1e-9, atol=1e-15):
            rec.fail(
                "a clique table is not the posterior joint of its variables",
                clique=c.id,
                got=(got / s if s else got).ravel().tolist(),
                want=want.ravel().tolist(),
                **detail,
            )
    return True


def evidences(spec):
    n = spec["n"]
    yield {}
    yield {0: ("OBSERVATION", {1: 1.0}), n - 1: evid.soft(spec["arity"][n - 1])[1]}
    yield {i: ("VIRTUAL", {v: 1.0 - 1e-5 * (v + i % 2) for v in range(spec["arity"][i])}) for i in range(n)}


def run(case, rec):
    if "hashseed" in case:
        return run_seed(case, rec)
    from pybbn.pptc.inferencecontroller import InferenceController

    spec, cap = case["net"], case["cap"]
    jt = InferenceController.apply(nets.build(spec))
    rec.step()
    query = jt.get_neighbors
    near = {x.id: sorted(query(x.id)) for x in list(jt.get_nodes())}
    total, combos = schedules(near, cap)
    if total > cap:
        rec.count("networks_capped")
    order, asked = {}, []

    def answer(id):
        asked.append(id)
        return Ordered(order.get(id) or near[id])

    jt.get_neighbors = answer
    for order in combos:
        for given in evidences(spec):
            like = {i: evid.meaning(*x, spec["arity"][i]) for i, x in given.items()}
            del asked[:]
            jt.unobserve_all()
            jt.update_evidences([evid.make(jt, spec, 0, ("OBSERVATION", {0: 1.0}))])
            jt.unobserve_all()
            if given:
                jt.update_evidences([evid.make(jt, spec, i, x) for i, x in given.items()])
            rec.step(3)
            rec.state((spec, tuple(asked), bool(given)))
            if check_cliques(rec, jt, spec, like, order=order, evidence=given):
                want = nets.marginals(nets.weigh(nets.joint(spec), like))
                nets.compare_marginals(rec, nets.observed_marginals(jt, spec), want, spec, order=order)
                rec.trace()
                rec.outcome([[round(x, 9) for x in v] for v in want])
    rec.count("schedules", min(total, cap))
    if total > 3:
        rec.sample({"network": spec, "order": {k: list(v) for k, v in order.items()}, "of": total})


def run_seed(case, rec):
    env = dict(os.environ, PYTHONHASHSEED=str(case["hashseed"]))
    p = subprocess.run(
        [sys.executable, "-W", "ignore", "-m", "mc.checks.c06"],
        env=env,
        capture_output=True,
        text=True,
        cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))),
    )
    if p.returncode != 0:
        rec.fail("fails under this hash seed", out=p.stdout[-1500:], err=p.stderr[-1500:])
    r = json.loads(p.stdout.strip().splitlines()[-1])
    rec.step(r["steps"])
    rec.trace(r["traces"])
    rec.state(("hashseed", case["hashseed"]))
    rec.count("hash_seeds")


def seed_main():
    from mc.core import Recorder, use_repo

    use_repo()
    from pybbn.pptc.inferencecontroller import InferenceController

    rec = Recorder()
    specs = [nets.spec(n, e, "generic", ids=nets.GAPPED[:n]) for n, e in nets.BIG.values()]
    specs += [nets.spec(4, e, "mixed") for e in nets.all_dags(4)[::7]]
    for spec in specs:
        jt = InferenceController.apply(nets.build(spec))
        for given in evidences(spec):
            like = {i: evid.meaning(*x, spec["arity"][i]) for i, x in given.items()}
            if given:
                jt.update_evidences([evid.make(jt, spec, i, x) for i, x in given.items()])
            rec.step()
            if check_cliques(rec, jt, spec, like):
                rec.trace()
    print(json.dumps({"steps": rec.counts["transitions"], "traces": rec.counts["traces"]}))


if __name__ == "__main__":
    seed_main()
