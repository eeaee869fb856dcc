"""C23: every observation set on every small Gaussian against the conditional Gaussian."""
import itertools

import numpy as np

from mc import gauss

PROPERTY = "C23"
CHUNK = 4
BOUNDS = {
    "quick": "every Gaussian of 1..3 variables with factor entries -1, 0, 1, 2 (and every 29th of 4 variables) x 3 mean "
    "vectors and 2 scales x every set of observed variables (none and all included) in every listing order x 2 value assignments, one call and one "
    "variable at a time",
    "thorough": "every Gaussian of 4 variables, every 9973rd of 5 variables",
}
ASSUMPTIONS = ["covariances are positive definite and well conditioned up to the units of the variables"]


def cases(tier):
    deep = tier == "thorough"
    for dim in (1, 2, 3, 4, 5):
        every = range(0, gauss.codes(dim), {4: 1 if deep else 29, 5: 9973 if deep else 10**9}.get(dim, 1))
        every = list(every)
        for mean in gauss.MEANS:
            for k in range(0, len(every), 16):
                yield {"dim": dim, "codes": every[k : k + 16], "mean": mean}
    for dim, code in gauss.MANY:
        for mean in gauss.MEANS:
            yield {"dim": dim, "codes": [code], "mean": mean}


def run(case, rec):
    dim, mean = case["dim"], case["mean"]
    m = gauss.MEANS[mean][:dim]
    for code in case["codes"]:
        e = gauss.covariance(dim, code, mean)
        every = gauss.values(mean)
        s = gauss.units(mean)
        for chosen in gauss.subsets(dim) if dim < 6 else gauss.runs(dim):
            orders = itertools.permutations(chosen) if len(chosen) <= 3 else [chosen, chosen[::-1]]
            for order in orders:
                for shift in (0, 2):
                    values = [every[(i + shift) % 5] / s[(i + shift) % 5] * s[i] for i in order]
                    one(rec, dim, code, mean, m, e, list(order), values)
        # an observation equal to the mean
        one(rec, dim, code, mean, m, e, [dim - 1], [m[dim - 1]])


def one(rec, dim, code, mean, m, e, order, values):
    names = gauss.NAMES
    s = gauss.units(mean)
    what = dict(dim=dim, code=code, mean=mean, observed=[(names[i], v) for i, v in zip(order, values)])
    y, exp_m, exp_e = gauss.condition(m, e, order, values)
    pairs = [(names[i], v) for i, v in zip(order, values)]
    ways = {"together": [pairs]}
    if len(pairs) == 1:
        ways["single"] = None
    elif 1 < len(pairs) < 4 or dim > 5:
        ways["one by one"] = [[p] for p in pairs]
    for way, groups in ways.items():
        gi = gauss.make(dim, code, mean)
        if groups is None:
            gi = gi.do_inference(*pairs[0])
            rec.step()
            groups = [pairs]
        elif pairs:
            for g in groups:
                gi = gi.do_inferences(list(g))
                rec.step()
        if list(gi.H) != [names[i] for i in y]:
            rec.fail(f"the remaining variables are {list(gi.H)}", way=way, **what)
        if y and not gauss.close(gi.E, exp_e, unit=np.outer(s[y], s[y])):
            rec.fail(f"the covariance is {np.array(gi.E).tolist()}, expected {exp_e.tolist()}", way=way, **what)
        if np.array(gi.E).shape != (len(y), len(y)):
            rec.fail(f"the covariance has shape {np.array(gi.E).shape}", way=way, **what)
        report = {x["name"]: x for x in gi.marginals}
        if len(gi.marginals) != dim or set(report) != set(names[:dim]):
            rec.fail(f"marginals are reported for {[x['name'] for x in gi.marginals]}", way=way, **what)
        params = gi.P
        if {k: (float(v[0]), float(v[1])) for k, v in params.items()} != {k: (float(r["mean"]), float(r["var"])) for k, r in report.items()}:
            rec.fail(f"the parameters are {params}, the marginals {gi.marginals}", way=way, **what)
        for i, v in zip(order, values):
            r = report[names[i]]
            if float(r["mean"]) != v or float(r["var"]) != 0.0:
                rec.fail(f"observed {names[i]} is reported as {r}", way=way, **what)
        faulty = None
        for k, i in enumerate(y):
            r = report[names[i]]
            if not gauss.close(r["var"], exp_e[k][k], unit=s[i] ** 2):
                rec.fail(f"variance of {names[i]} is {r['var']}, expected {exp_e[k][k]}", way=way, **what)
            if gauss.close(r["mean"], exp_m[k], unit=s[i]):
                continue
            if faulty is None:
                index = {n: i for i, n in enumerate(names)}
                faulty = gauss.faulty_mean(
                    m, e, [([index[n] for n, _ in g], [v for _, v in g]) for g in groups if g]
                )
            if gauss.close(r["mean"], faulty[k], unit=s[i]):
                rec.finding(
                    "mean-sign",
                    f"e.g. {what} reports mean {float(r['mean']):g} for {names[i]}, expected {exp_m[k]:g}",
                )
            else:
                rec.fail(f"mean of {names[i]} is {r['mean']}, expected {exp_m[k]}", way=way, **what)
        rec.state((what, way))
        rec.outcome(np.round(exp_m, 6).tolist())
        rec.trace()
    if len(order) == 2:
        rec.sample(what)
