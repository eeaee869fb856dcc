"""C24: every listing order and every ordered grouping of every observation set."""
import itertools

import numpy as np

from mc import gauss

PROPERTY = "C24"
CHUNK = 4
BOUNDS = {
    "quick": "every Gaussian of 2 and 3 variables (every 29th of 4) x 2 mean vectors and 2 scales x every observation set x every order x every "
    "ordered partition into successive inferences; branching of several inferences from one object",
    "thorough": "every 3rd Gaussian of 4 variables, every 9973rd of 5 variables",
}
ASSUMPTIONS = ["covariances are positive definite and well conditioned"]


def cases(tier):
    deep = tier == "thorough"
    for dim in (2, 3, 4, 5):
        step = {4: 3 if deep else 29, 5: 9973 if deep else 10**9}.get(dim, 1)
        every = list(range(0, gauss.codes(dim), step))
        for mean in ("distinct", "large", "tiny", "wide"):
            for k in range(0, len(every), 8):
                yield {"dim": dim, "codes": every[k : k + 8], "mean": mean}
    for dim, code in gauss.MANY:
        for mean in ("distinct", "large", "tiny", "wide"):
            yield {"dim": dim, "codes": [code], "mean": mean}


def groupings(items):
    """Every way to split a sequence into successive non-empty groups."""
    n = len(items)
    for cuts in itertools.product((0, 1), repeat=n - 1):
        groups, current = [], [items[0]]
        for item, cut in zip(items[1:], cuts):
            if cut:
                groups.append(current)
                current = []
            current.append(item)
        yield groups + [current]


def few(items):
    for size in (len(items), 1, 2, 5):
        yield [items[k : k + size] for k in range(0, len(items), size)]


def run(case, rec):
    dim, mean = case["dim"], case["mean"]
    names = gauss.NAMES
    values = gauss.values(mean)
    s = gauss.units(mean)
    unit = dict(zip(names, s))
    for code in case["codes"]:
        root = gauss.make(dim, code, mean)
        before = gauss.facts(root)
        for chosen in gauss.subsets(dim, proper=True) if dim < 6 else gauss.runs(dim, proper=True):
            if not chosen or len(chosen) > 4 and dim < 6:
                continue
            obs = [(names[i], values[i]) for i in chosen]
            base = None
            for order in itertools.permutations(obs) if dim < 6 else (obs, obs[::-1], obs[1::2] + obs[::2]):
                for groups in groupings(list(order)) if dim < 6 else few(list(order)):
                    gi = root
                    for g in groups:
                        given = [tuple(x) for x in g]
                        held = gauss.facts(gi)
                        nxt = gi.do_inferences(given)
                        rec.step()
                        if gauss.facts(gi) != held:
                            rec.fail("the object inferred on was changed", code=code, groups=groups)
                        if given != [tuple(x) for x in g]:
                            rec.fail("the observations passed in were changed", groups=groups)
                        gi = nxt
                    what = dict(dim=dim, code=code, mean=mean, groups=groups)
                    got = (list(gi.H), np.array(gi.E, dtype=float), dict(gi.meta))
                    if base is None:
                        base = got + (np.array(gi.M, dtype=float), reported(gi))
                    if got[0] != base[0]:
                        rec.fail(f"the remaining variables are {got[0]}, in another order {base[0]}", **what)
                    left = [unit[n] for n in base[0]]
                    if not gauss.close(got[1], base[1], unit=np.outer(left, left)):
                        rec.fail(f"the covariance is {got[1].tolist()}, in another order {base[1].tolist()}", **what)
                    if got[2] != dict(obs):
                        rec.fail(f"the observations recorded are {got[2]}", **what)
                    rep = reported(gi)
                    for i in chosen:
                        if rep[names[i]] != (values[i], 0.0):
                            rec.fail(f"observed {names[i]} is reported as {rep[names[i]]}", **what)
                    if len(groups) == 1:
                        for k in rep:
                            if not gauss.close(rep[k], base[4][k], unit=np.array([unit[k], unit[k] ** 2])):
                                rec.fail(f"{k} is reported as {rep[k]}, in another order {base[4][k]}", **what)
                    rec.state((what,))
                    rec.trace()
            rec.outcome(np.round(base[1], 6).tolist())
            if gauss.facts(root) != before:
                rec.fail("the first object was changed", dim=dim, code=code)
            if len(chosen) == 2:
                rec.sample(dict(dim=dim, code=code, observations=obs))


def reported(gi):
    return {x["name"]: (float(x["mean"]), float(x["var"])) for x in gi.marginals}
