"""C31: sampled marginals as a function of scripted standard normal draws."""
import contextlib
import random

import numpy as np

from mc import gauss

PROPERTY = "C31"
CHUNK = 4
BOUNDS = {
    "quick": "every Gaussian of 1..3 variables, every 29th of 4 x 2 mean vectors and 2 scales x every observation set x sizes 0, 1, 3 and 1000 (default)",
    "thorough": "every Gaussian of 4 variables, every 9973rd of 5",
}
ASSUMPTIONS = ["normal draws with mean m and deviation s are m + s times standard draws"]


def cases(tier):
    deep = tier == "thorough"
    for dim in (1, 2, 3, 4, 5):
        step = {4: 1 if deep else 29, 5: 9973 if deep else 10**9}.get(dim, 1)
        every = list(range(0, gauss.codes(dim), step))
        for mean in ("zero", "distinct", "tiny", "wide"):
            for k in range(0, len(every), 16):
                yield {"dim": dim, "codes": every[k : k + 16], "mean": mean}
    for dim, code in gauss.MANY:
        for mean in ("distinct", "wide"):
            yield {"dim": dim, "codes": [code], "mean": mean}
    for mean in ("distinct", "wide"):
        yield {"dim": 2, "codes": [3], "mean": mean, "sizes": [999, 1024, 5000, 20011]}


class Standard:
    """Distinct standard draws, handed out once each."""

    def __init__(self):
        self.next = 0

    def fill(self, size):
        count = int(np.prod(size)) if size is not None else 1
        out = np.array([self.value(self.next + k) for k in range(count)])
        self.next += count
        return out.reshape(size) if size is not None else float(out[0])

    @staticmethod
    def value(k):
        return (1 if k % 2 else -1) * (0.001 + k / 256.0)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast(loc, scale).shape
        return loc + scale * self.fill(size)

    def standard_normal(self, size=None, *a, **k):
        return self.fill(size)

    def randn(self, *shape):
        return self.fill(shape if shape else None)


    def gauss(self, mu=0.0, sigma=1.0):
        return float(mu + sigma * self.fill(None))

    normalvariate = gauss


@contextlib.contextmanager
def scripted(module):
    """Every usual source of normal draws, also where the module has imported it by name."""
    src = Standard()
    put = {}
    for owner, names in ((np.random, ("normal", "standard_normal", "randn")), (random, ("gauss", "normalvariate"))):
        for n in names:
            put[owner, n] = getattr(src, n)
    for owner, names in ((np.random, ("default_rng", "RandomState")), (random, ("Random",))):
        for n in names:
            put[owner, n] = lambda *a, **k: src
    put[np.random.mtrand, "_rand"] = src  # scipy's default
    saved = [(owner, n, getattr(owner, n)) for owner, n in put]
    for (owner, n, old), new in zip(list(saved), list(put.values())):
        for here, value in list(vars(module).items()):
            if value is old:
                saved.append((module, here, old))
                setattr(module, here, new)
        setattr(owner, n, new)
    try:
        yield src
    finally:
        for owner, name, old in saved:
            setattr(owner, name, old)


def run(case, rec):
    from pybbn.gaussian import inference

    dim, mean = case["dim"], case["mean"]
    names = gauss.NAMES
    for code in case["codes"]:
        for chosen in gauss.subsets(dim) if dim < 6 else gauss.runs(dim):
            gi = gauss.make(dim, code, mean)
            if chosen:
                gi = gi.do_inferences([(names[i], gauss.values(mean)[i]) for i in chosen])
            report = {x["name"]: (float(x["mean"]), float(x["var"])) for x in gi.marginals}
            sizes = case.get("sizes") or ((0, 1, 3, None) if code % 8 == 0 else (3,))
            for size in sizes:
                with scripted(inference) as src:
                    got = gi.sample_marginals() if size is None else gi.sample_marginals(size=size)
                rec.step()
                what = dict(dim=dim, code=code, mean=mean, observed=[names[i] for i in chosen], size=size)
                if size != 0 and not src.next and foreign(gi):
                    rec.count("draws_from_an_unknown_source")
                    continue
                judge(rec, got, report, {names[i] for i in chosen}, 1000 if size is None else size, src, what)
                rec.state(what)
                rec.trace()
    rec.sample(case)


def foreign(gi):
    """Whether the samples vary although none of the scripted sources was used."""
    one, two = gi.sample_marginals(size=8), gi.sample_marginals(size=8)
    return any(list(one[k]) != list(two[k]) for k in one)


def nearest(unit, draws):
    """For every number the index of the draw closest to it."""
    rank = np.argsort(draws)
    right = np.searchsorted(draws[rank], unit).clip(0, len(draws) - 1)
    left = (right - 1).clip(0)
    closer = np.abs(draws[rank[left]] - unit) < np.abs(draws[rank[right]] - unit)
    return rank[np.where(closer, left, right)]


def judge(rec, got, report, observed, size, src, what):
    if set(got) != set(report):
        rec.fail(f"samples are of {sorted(got)}", **what)
    used = set()
    draws = np.array([src.value(k) for k in range(src.next)])
    for name, series in got.items():
        x = np.array(series, dtype=float)
        m, v = report[name]
        if x.shape != (size,):
            rec.fail(f"{x.shape} values of {name} instead of {size}", **what)
        if not size:
            continue
        s = 0.01 if name in observed else np.sqrt(v)
        unit = (x - m) / s
        near = nearest(unit, draws) if len(draws) else None
        if near is None or (np.abs(unit - draws[near]) > 1e-6 * (1 + np.abs(draws[near]))).any():
            rec.fail(f"samples of {name} are {x[:3].tolist()}, not {m} + {s} times the draws", **what)
        near = near.tolist()
        if len(set(near)) != size or used & set(near):
            rec.fail(f"samples of {name} reuse draws", **what)
        used |= set(near)
        rec.outcome((name, round(m, 6), round(float(s), 6)))
