"""Networks of a thousand variables: shapes of small width, and exact answers by elimination
along the shape (tables are rescaled, so no probability is too small)."""
import math

import numpy as np

from mc import nets


def shape(kind, n):
    """(edges, elimination order); parents precede children in the order."""
    if kind == "chain":
        return [[i, i + 1] for i in range(n - 1)], list(range(n))
    if kind == "backward":  # the chain, numbered against its arcs
        return [[i + 1, i] for i in range(n - 1)], list(range(n))[::-1]
    if kind == "tree":
        return [[(i - 1) // 2, i] for i in range(1, n)], dfs(n)
    if kind == "hmm":  # 2k: hidden, 2k+1: its observation
        return (
            [[2 * k, 2 * k + 2] for k in range((n - 1) // 2)] + [[2 * k, 2 * k + 1] for k in range(n // 2)],
            list(range(n)),
        )
    if kind == "star":
        return [[0, i] for i in range(1, n)], list(range(n))
    if kind == "strip":
        return [[i, i + 1] for i in range(n - 1)] + [[i, i + 2] for i in range(n - 2)], list(range(n))
    if kind == "zigzag":  # odd nodes have both neighbours as parents
        edges, order = [], []
        for i in range(0, n, 2):
            order.append(i)
            if i:
                edges += [[i - 2, i - 1], [i, i - 1]]
                order.append(i - 1)
        if n % 2 == 0:
            edges.append([n - 2, n - 1])
            order.append(n - 1)
        return edges, order
    if kind == "islands":
        return [[i, i + 1] for i in range(0, n - 1, 2)], list(range(n))
    raise KeyError(kind)


def dfs(n):
    order, stack = [], [0]
    while stack:
        i = stack.pop()
        order.append(i)
        stack += [c for c in (2 * i + 2, 2 * i + 1) if c < n]
    return order


def mass(spec, cpts, order, like):
    """log P(evidence weighted by the likelihoods), -inf if zero."""
    pas = nets.parents_of(spec)
    left = [0] * spec["n"]
    for p, _ in spec["edges"]:
        left[p] += 1
    axes, table, log = [], np.ones(()), 0.0
    for i in order:
        t = np.array(cpts[i], dtype=float).reshape([spec["arity"][a] for a in pas[i] + [i]])
        if i in like:
            t = t * np.array(like[i], dtype=float)
        # names of the axes: einsum with integers
        local = {a: k for k, a in enumerate(axes + [i])}
        for p in pas[i]:
            left[p] -= 1
        keep = [a for a in axes + [i] if left[a] > 0]
        table = np.einsum(table, [local[a] for a in axes], t, [local[a] for a in pas[i] + [i]], [local[a] for a in keep])
        axes = keep
        top = table.max() if table.size else 0.0
        if not top > 0:
            return -math.inf
        table = table / top
        log += math.log(top)
    return log + math.log(table.sum())


def posterior(spec, cpts, order, like, i):
    k = spec["arity"][i]
    base = like.get(i, [1.0] * k)
    logs = [mass(spec, cpts, order, {**like, i: [base[v] if w == v else 0.0 for w in range(k)]}) for v in range(k)]
    top = max(logs)
    w = [math.exp(x - top) for x in logs]
    return [x / sum(w) for x in w]
