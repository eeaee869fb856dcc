"""C15: every sequence of sampling calls up to a depth; each call must return what the same
call returns on its own, and leave everything else as it was."""
import copy
import itertools
import json
import os
import subprocess
import sys

import numpy as np

from mc import nets, world

PROPERTY = "C15"
CHUNK = 1
BOUNDS = {
    "quick": "8 networks: every sequence of 2 (half of them: 3) calls over 2 samplers x 2 evidences x counts 0, 1, 5 x 2 seeds, with the "
    "global generators disturbed in between and results and arguments modified afterwards; the same calls in fresh processes with 3 hash seeds; one history with every ordered pair of calls",
    "thorough": "every sequence of 3 calls on all, and of 4 calls on two networks",
}
NETS = [
    (2, [[0, 1]]),
    (2, [[1, 0]]),
    (3, [[0, 2], [1, 2]]),
    (3, [[2, 1], [1, 0]]),
    (3, [[0, 1]]),
    (4, [[0, 1], [0, 2], [1, 3], [2, 3]]),
    (5, [[4, 3], [3, 2], [4, 2], [2, 0], [1, 0]]),
    (1, []),
]


def spec_of(k):
    n, edges = NETS[k]
    return nets.spec(n, edges, "generic", nets.MIXED[:n], ids=nets.GAPPED[:n] if k % 2 else None)


def alphabet(spec):
    ids, n = nets.ids_of(spec), spec["n"]
    evs = [{}, {ids[n - 1]: "s0"}]
    return [
        (who, e, count, seed)
        for who in (0, 1)
        for e in range(len(evs))
        for count in (0, 1, 5)
        for seed in (37, 5)
    ], evs


def cases(tier):
    for k in range(len(NETS)):
        yield {"net": k, "mode": "processes"}
        yield {"net": k, "mode": "long", "first": 0}
        calls, _ = alphabet(spec_of(k))
        depth = 3 if tier == "thorough" or k < 4 else 2
        if tier == "thorough" and k in (1, 2):
            depth = 4
        for first in range(len(calls)):
            yield {"net": k, "mode": "calls", "first": first, "depth": depth}


def reference(spec, evs):
    """The longest result for every evidence and seed, each from a fresh network and sampler."""
    from pybbn.sampling.sampling import LogicSampler

    return {
        (e, seed): LogicSampler(nets.build(spec)).get_samples(dict(ev), 5, seed)
        for e, ev in enumerate(evs)
        for seed in (37, 5)
    }


def run(case, rec):
    from pybbn.sampling.sampling import LogicSampler

    spec = spec_of(case["net"])
    calls, evs = alphabet(spec)
    if case["mode"] == "processes":
        return processes(spec, evs, rec)
    ref = reference(spec, evs)
    import random

    rests = [world.pairs(len(calls))] if case["mode"] == "long" else itertools.product(range(len(calls)), repeat=case["depth"] - 1)
    for rest in rests:
        path = [calls[case["first"]]] + [calls[i] for i in rest]
        bbn = nets.build(spec)
        before = world.snapshot(bbn)
        samplers = [LogicSampler(bbn), None]
        returned = []
        for step, (who, e, count, seed) in enumerate(path):
            if samplers[who] is None:
                samplers[who] = LogicSampler(bbn)
            np.random.seed(1000 + step)  # whatever the generators were used for before
            random.seed(step)
            np.random.rand(step + 1)
            given = dict(evs[e])
            if not given and seed == 37:
                got = samplers[who].get_samples(n_samples=count)  # the defaults
            else:
                got = samplers[who].get_samples(given, count, seed)
            rec.step()
            if given != evs[e]:
                rec.fail("the evidence passed in was changed", calls=path[: step + 1], got=given)
            if got != ref[e, seed][:count]:
                rec.fail(
                    f"call {step + 1} returns {got}, alone it returns {ref[e, seed][:count]}",
                    calls=path[max(0, step - 20) : step + 1],
                )
            for old, kept in returned:
                if old != kept:
                    rec.fail("an earlier result was changed", calls=path[: step + 1])
            returned.append((got, copy.deepcopy(got)))
            if step % 2 == 0 and got:  # what the caller does with a result is the caller's business
                got[0][nets.ids_of(spec)[0]] = "mine"
                returned.pop()
        if world.snapshot(bbn) != before:
            rec.fail("the network was changed", calls=path)
        rec.state((spec, path))
        rec.trace()
    rec.outcome(ref)
    if case["first"] == 3:
        rec.sample({"network": spec, "calls": calls[:4]})


CHILD = """
import json, sys
sys.path.insert(0, {verif!r})
from mc import core
core.use_repo()
from mc.checks import c15
spec = json.loads(sys.argv[1])
calls, evs = c15.alphabet(spec)
ref = c15.reference(spec, evs)
print(json.dumps(sorted([[k, [sorted(s.items()) for s in v]] for k, v in ref.items()])))
"""


def processes(spec, evs, rec):
    from mc import core

    ref = reference(spec, evs)
    want = json.dumps(sorted([[k, [sorted(s.items()) for s in v]] for k, v in ref.items()]))
    for seed in ("0", "1", "12345"):
        env = dict(os.environ, PYTHONHASHSEED=seed)
        code = CHILD.format(verif=core.VERIF)
        p = subprocess.run([sys.executable, "-c", code, json.dumps(spec)], env=env, capture_output=True, text=True)
        if p.returncode != 0:
            rec.fail("sampling fails in a fresh process", stderr=p.stderr[-1000:])
        if p.stdout.strip() != want:
            rec.fail("another process returns other samples", hash_seed=seed, got=p.stdout, want=want)
        rec.step()
        rec.trace()
        rec.state((spec, "process", seed))
