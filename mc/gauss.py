"""Small multivariate Gaussians, and the textbook reference for conditioning them."""
import itertools

import numpy as np

NAMES = ["x", "a", "b10", "b9", "z z", "A", "x1", "x10", "x2", "", "y", "long name"]
MOST = len(NAMES)
# factors A; the covariance is A A^T + I/4 (positive definite, dyadic entries)
ENTRIES = (-1, 0, 1, 2)


def covariance(dim, code, mean="zero"):
    """Covariance number `code`: lower-triangular factor with entries from a small set."""
    a = np.zeros((dim, dim))
    for i in range(dim):
        for j in range(i):
            a[i, j] = ENTRIES[code % len(ENTRIES)]
            code //= len(ENTRIES)
        a[i, i] = 1 + (i % 2) * 0.5
    s = units(mean)[:dim]
    return (a.dot(a.T) + np.eye(dim) / 4) * np.outer(s, s)


def codes(dim):
    return len(ENTRIES) ** (dim * (dim - 1) // 2)


MEANS = {
    "zero": [0.0, 0.0, 0.0, 0.0, 0.0],
    "distinct": [1.0, -2.0, 0.5, 4.0, -0.25],
    "large": [1000.0, -3.0, 250.0, 0.0, 7.0],
    "tiny": [1e-4, -2e-2, 0.5, 4e-5, -2.5e-4],
    "wide": [1000.0, -2e-3, 0.5, 40.0, -0.025],
}
for _k in MEANS:
    MEANS[_k] = (MEANS[_k] * 3)[:MOST]
VALUES = [0.0, 1.5, -2.0, 7.0, 0.25, 0.5, -1.0, 3.0, -0.5, 1.0, 0.75, -4.0]
UNITS = {  # the scale on which every variable lives
    "tiny": [1e-4, 1e-2, 1.0, 1e-5, 1e-3],
    "wide": [1e3, 1e-3, 1.0, 10.0, 0.1],
}
for _k in UNITS:
    UNITS[_k] = (UNITS[_k] * 3)[:MOST]
MANY = [(8, 0x1B2D3C4E5F60718), (8, 0x6C9A3E71D4B25), (12, 0x1D2B3C4A5F6E7D8C9BA1F2E3D4C5B6A79), (12, 0x7)]  # (dimension, code)


def units(mean):
    return np.array(UNITS.get(mean, [1.0] * MOST))


def values(mean):
    return [float(v * s) for v, s in zip(VALUES, units(mean))]


def make(dim, code, mean):
    from pybbn.gaussian.inference import GaussianInference

    return GaussianInference(list(NAMES[:dim]), np.array(MEANS[mean][:dim]), covariance(dim, code, mean))


def condition(m, e, z, values):
    """Mean and covariance of the others given the coordinates z."""
    y = [i for i in range(len(m)) if i not in z]
    if not z:
        return y, np.array(m, dtype=float), np.array(e)
    k = e[np.ix_(y, z)].dot(np.linalg.inv(e[np.ix_(z, z)]))
    m = np.array(m, dtype=float)
    return y, m[y] + k.dot(np.array(values) - m[z]), e[np.ix_(y, y)] - k.dot(e[np.ix_(y, z)].T)


def faulty_mean(m, e, groups):
    """What the known finding reports: every inference computes m_Y - K (z - m_Z) from the
    stored means, and the report negates the stored means."""
    m, e = np.array(m, dtype=float), np.array(e)
    left = list(range(len(m)))
    for z, values in groups:
        at = [left.index(i) for i in z]
        y = [i for i in range(len(left)) if i not in at]
        k = e[np.ix_(y, at)].dot(np.linalg.inv(e[np.ix_(at, at)]))
        m = m[y] - k.dot(np.array(values) - m[at])
        e = e[np.ix_(y, y)] - k.dot(e[np.ix_(y, at)].T)
        left = [left[i] for i in y]
    return -m


def close(a, b, tol=1e-9, unit=1.0):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool((abs(a - b) <= tol * (unit + abs(b))).all())


def facts(gi):
    """Everything visible of an inference object."""
    return (
        list(gi.H),
        np.array(gi.M, dtype=float).tolist(),
        np.array(gi.E, dtype=float).tolist(),
        list(gi.meta.items()),
        [(x["name"], float(x["mean"]), float(x["var"])) for x in gi.marginals],
    )


def subsets(dim, proper=False):
    for k in range(0 if not proper else 1, dim + 1):
        yield from itertools.combinations(range(dim), k)


def runs(dim, proper=False):
    """Some large sets of coordinates: the first and the last ones, and every other one, of every size."""
    for k in range(0, dim + (not proper)):
        yield list(range(k))
        if k:
            yield list(range(dim - k, dim))
            yield list(range(0, dim, 2))[:k]
