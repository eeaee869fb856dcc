"""Small networks: enumeration of their structures, their CPTs, and their construction
through the public API.

A network spec is JSON-able:
  n        number of nodes (indices 0..n-1)
  edges    list of [parent, child] indices, in the order in which they are added
  arity    number of values of every node
  cpt      name of a CPT family
  ids      identifier of every node (default: the index)
  order    order in which the nodes are added (default: ascending)
"""
import hashlib
import itertools

import numpy as np

# ---------------------------------------------------------------- structures


def acyclic(n, edges):
    indeg = [0] * n
    out = [[] for _ in range(n)]
    for p, c in edges:
        indeg[c] += 1
        out[p].append(c)
    todo = [i for i in range(n) if indeg[i] == 0]
    k = 0
    while todo:
        i = todo.pop()
        k += 1
        for c in out[i]:
            indeg[c] -= 1
            if indeg[c] == 0:
                todo.append(c)
    return k == n


def all_dags(n):
    """Every labelled DAG on n nodes, fewest edges first for each pattern of pairs."""
    pairs = list(itertools.combinations(range(n), 2))
    result = []
    for choice in itertools.product((0, 1, 2), repeat=len(pairs)):
        edges = [
            [a, b] if c == 1 else [b, a] for (a, b), c in zip(pairs, choice) if c
        ]
        if acyclic(n, edges):
            result.append(edges)
    result.sort(key=len)
    return result


def topo_dags(n):
    """Every DAG on n nodes in which 0..n-1 is a topological order (hence every DAG up to
    renaming), fewest edges first."""
    pairs = list(itertools.combinations(range(n), 2))
    result = [
        [list(p) for p, c in zip(pairs, choice) if c]
        for choice in itertools.product((0, 1), repeat=len(pairs))
    ]
    result.sort(key=len)
    return result


def connected_components(n, edges):
    comp = list(range(n))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i

    for p, c in edges:
        comp[find(p)] = find(c)
    groups = {}
    for i in range(n):
        groups.setdefault(find(i), []).append(i)
    return sorted(groups.values())


def unlabelled_dags(n):
    """One representative of every DAG on n nodes up to renaming of the nodes."""
    seen = set()
    result = []
    perms = list(itertools.permutations(range(n)))
    for edges in topo_dags(n):
        es = [tuple(e) for e in edges]
        canon = min(tuple(sorted((p[a], p[b]) for a, b in es)) for p in perms)
        if canon not in seen:
            seen.add(canon)
            result.append(edges)
    return result


BIG = {
    # shapes beyond the exhaustive sizes; what each is for
    "chain12": (12, [[i, i + 1] for i in range(11)]),
    "star_out11": (11, [[0, i] for i in range(1, 11)]),
    "star_in6": (6, [[i, 5] for i in range(5)]),
    "naive_chain": (9, [[0, i] for i in range(1, 9)] + [[i, i + 1] for i in range(1, 8)]),
    "grid3x3": (
        9,
        [[3 * r + c, 3 * r + c + 1] for r in range(3) for c in range(2)]
        + [[3 * r + c, 3 * r + c + 3] for r in range(2) for c in range(3)],
    ),
    "loop8": (8, [[i, i + 1] for i in range(7)] + [[0, 7]]),
    "loop7_undirected": (
        8,
        [[0, 1], [1, 2], [2, 3], [3, 7], [0, 4], [4, 5], [5, 6], [6, 7]],
    ),
    "two_trees": (
        11,
        [[0, 1], [0, 2], [1, 3], [2, 4], [5, 6], [6, 7], [7, 8], [6, 9], [9, 10]],
    ),
    "three_parts": (10, [[0, 1], [1, 2], [3, 4], [5, 4], [5, 6], [7, 8], [8, 9], [7, 9]]),
    "huang": (
        8,
        [[0, 1], [0, 2], [1, 3], [2, 4], [3, 5], [4, 5], [2, 6], [4, 7], [6, 7]],
    ),
    "dense7": (7, [[i, j] for i in range(7) for j in range(i + 1, 7) if (i + j) % 3]),
    "ladder": (
        10,
        [[2 * i, 2 * i + 1] for i in range(5)]
        + [[2 * i, 2 * i + 2] for i in range(4)]
        + [[2 * i + 1, 2 * i + 3] for i in range(4)],
    ),
    # a variable with five neighbours has to be eliminated while they are not all connected
    "knot8": (
        8,
        [[1, 2], [0, 3], [2, 3], [1, 4], [3, 4], [0, 5], [1, 5], [4, 5], [0, 6], [2, 6], [4, 6], [3, 7], [5, 7], [6, 7]],
    ),
    "bands9": (9, [[i - d, i] for i in range(9) for d in (1, 3, 6) if i >= d]),
}


def banded(n):
    """Every network in which each variable depends on those a fixed distance before it, for every set of
    at most 4 distances: many of them need wide cliques."""
    for k in range(1, 5):
        for distances in itertools.combinations(range(1, n), k):
            yield [[i - d, i] for i in range(n) for d in distances if i >= d]


# ---------------------------------------------------------------- parameters


def weight(*key):
    """A fixed integer in 1..97 for every key (no accidental symmetries between CPTs)."""
    h = hashlib.blake2b(repr(key).encode(), digest_size=4).digest()
    return int.from_bytes(h, "big") % 97 + 1


def row(family, i, r, k, salt=0):
    """Row r of the CPT of node i, k values."""
    if k == 1:
        return [1.0]
    if family == "generic":
        w = [weight("g", salt, i, r, v) for v in range(k)]
    elif family == "det":  # every row puts all mass on one value
        hit = weight("d", salt, i, r) % k
        return [1.0 if v == hit else 0.0 for v in range(k)]
    elif family == "mixed":  # some impossible values
        w = [weight("m", salt, i, r, v) for v in range(k)]
        if weight("z", salt, i, r) % 3 != 0:
            w[weight("y", salt, i, r) % k] = 0
    elif family == "detroot":  # positive roots, deterministic children (row index decides)
        hit = (r + i + salt) % k
        return [1.0 if v == hit else 0.0 for v in range(k)]
    elif family == "uniform":
        w = [1] * k
    elif family == "skew":  # tiny probabilities
        w = [weight("s", salt, i, r, v) for v in range(k)]
        w[weight("t", salt, i, r) % k] = 1e-9
    elif family == "weak":  # variables that hardly depend on each other
        w = [1.0 + 1e-5 * weight("w", salt, i, r, v) / 97 for v in range(k)]
    elif family == "quarter":  # multiples of 1/4
        return quarter_row(i, r, k, 4, salt)
    elif family == "grid64":
        return quarter_row(i, r, k, 64, salt)
    elif family == "eighth":
        return quarter_row(i, r, k, 8, salt)
    else:
        raise KeyError(family)
    s = float(sum(w))
    return [x / s for x in w]


def quarter_row(i, r, k, q, salt=0):
    cuts = sorted(weight("q", salt, i, r, v) % (q + 1) for v in range(k - 1))
    cuts = [0] + cuts + [q]
    return [(b - a) / q for a, b in zip(cuts, cuts[1:])]


def nudged(cpt, k):
    """A CPT with rows of k values that differs little: the least probable value of every row gets three times
    as probable if it is rare, a little less probable otherwise."""
    result = []
    for at in range(0, len(cpt), k):
        r = list(cpt[at : at + k])
        if k > 1:
            least, most = min(range(k), key=lambda v: r[v]), max(range(k), key=lambda v: (r[v], v))
            if least == most:
                least = 0
            change = 2 * r[least] if r[least] < 1e-3 else -1e-5 * r[least]
            r[least] += change
            r[most] -= change
        result += r
    return result


def parents_of(spec):
    """Parents of every node in the order in which their edges are added."""
    pas = [[] for _ in range(spec["n"])]
    for p, c in spec["edges"]:
        pas[c].append(p)
    return pas


def cpts_of(spec, salt=None):
    """Flat CPT of every node: rows follow the product of the parents' values in the order
    of the parents' edges, last parent fastest; the node's own values vary fastest."""
    salt = spec.get("salt", 0) if salt is None else salt
    fam, arity = spec["cpt"], spec["arity"]
    result = []
    for i, pas in enumerate(parents_of(spec)):
        rows = 1
        for p in pas:
            rows *= arity[p]
        f = fam
        if fam == "detroot" and not pas:
            f = "generic"
        probs = []
        for r in range(rows):
            probs.extend(row(f, i, r, arity[i], salt))
        result.append(probs)
    return result


def ids_of(spec):
    """The ids; equal ids are different objects where Python allows it, as are names and values."""
    return [int(str(x)) for x in spec.get("ids") or range(spec["n"])]


def names_of(spec):
    return [fresh(x) for x in spec.get("names") or [f"n{i}" for i in range(spec["n"])]]


def fresh(text):
    return (text + "\n")[:-1]


def values_of(spec, i):
    return [fresh(v) for v in labels_of(spec, i)]


def labels_of(spec, i):
    """The same labels in every node, so that values of different nodes are easily confused."""
    k, labels = spec["arity"][i], spec.get("labels")
    if not labels:
        return [f"s{v}" for v in range(k)]
    if labels == "digits":  # one label is the beginning of another
        return ["1" * (v + 1) for v in range(k)]
    if labels == "blank":
        return [" " * v for v in range(k)]
    if labels == "case":
        return ["a", "A", "a_", "\u00e4", "A\u0308"][:k]
    if labels == "numbers":
        return ["1", "1.0", "01", "True", "None"][:k]
    # labels that spell assignments to other variables: written one after another, different assignments look the same
    sep = {"comma": ",", "bar": "|"}[labels]
    return ["v" + "".join(f"{sep}{x}=v" for x in sorted(ids_of(spec))[1 : v + 1]) if v < spec["n"] else f"w{v}" for v in range(k)]


LABELS = ("comma", "bar", "digits", "blank", "case", "numbers")


def labelled(n=3, fam="generic", labels=LABELS, arity=None, dags=None):
    """Every structure with value labels that are easily mistaken for each other."""
    for k, edges in enumerate(dags if dags is not None else all_dags(n)):
        for kind in labels:
            yield spec(n, edges, fam, arity or [[2, 3, 2], [2, 2, 3], [2, 2, 2]][k % 3][:n], ids=[None, GAPPED[:n]][k % 2], labels=kind)


GAPPED = [1000, 2, 330, 1, 7, 1001, 21, 4, 12, 3, 110, 11]


def spec(n, edges, cpt="generic", arity=None, **kw):
    s = {
        "n": n,
        "edges": [list(e) for e in edges],
        "arity": list(arity or [2] * n),
        "cpt": cpt,
    }
    s.update(kw)
    return s


WIDE = {
    # large in one respect; what each is for
    "values70": (2, [[0, 1]], [70, 2]),
    "values40": (2, [[0, 1]], [2, 40]),
    "values12": (3, [[0, 1], [1, 2]], [11, 12, 2]),
    "parents7": (8, [[i, 7] for i in range(7)], [2] * 8),
    "strata100": (5, [[0, 3], [1, 3], [2, 3], [3, 4], [0, 4]], [4, 5, 5, 2, 2]),
    "separation5": (7, [[i, j] for i in range(5) for j in range(i + 1, 7)], [2] * 7),
    "children12": (13, [[0, i] for i in range(1, 13)], [2] * 13),
}
FAR = [-7, 10**9, 0, 5, -12, 99999, 100000, 3, 65536, -1, 256, 31, 9]


def wide(cpt="generic", but=(), **kw):
    """Networks with many values, parents, children or large cliques; every other one with ids that are far apart or negative."""
    for k, (name, (n, edges, arity)) in enumerate(WIDE.items()):
        if name not in but:
            yield spec(n, edges, cpt, arity, ids=[None, FAR[:n]][k % 2], **kw)


MIXED = [2, 3, 2, 3, 2, 2, 3, 2, 2, 2, 2, 2]


# ---------------------------------------------------------------- construction


def holder(i, cpt):
    """CPTs as users give them: lists, with integers among the floats, or arrays."""
    return np.array(cpt, dtype=float) if i % 2 else [int(q) if q in (0, 1) else q for q in cpt]


def build(spec, cpts=None):
    """The network, through the public API."""
    from pybbn.graph.dag import Bbn
    from pybbn.graph.edge import Edge, EdgeType
    from pybbn.graph.node import BbnNode
    from pybbn.graph.variable import Variable

    cpts = cpts or cpts_of(spec)
    ids, names = ids_of(spec), names_of(spec)
    nodes = [
        BbnNode(Variable(ids[i], names[i], values_of(spec, i)), holder(i, cpts[i]))
        for i in range(spec["n"])
    ]
    bbn = Bbn()
    for i in spec.get("order") or range(spec["n"]):
        bbn.add_node(nodes[i])
    for p, c in spec["edges"]:
        bbn.add_edge(Edge(nodes[p], nodes[c], EdgeType.DIRECTED))
    return bbn


# ---------------------------------------------------------------- reference


def joint(spec, cpts=None):
    """P(all nodes) as an array with one axis per node index: the product of the CPTs."""
    cpts = cpts or cpts_of(spec)
    n, arity = spec["n"], spec["arity"]
    result = np.ones(arity)
    for i, pas in enumerate(parents_of(spec)):
        axes = pas + [i]
        t = np.array(cpts[i], dtype=float).reshape([arity[a] for a in axes])
        # bring the axes of t into ascending order, then broadcast over the others
        asc = sorted(range(len(axes)), key=lambda k: axes[k])
        t = t.transpose(asc)
        shape = [1] * n
        for a in axes:
            shape[a] = arity[a]
        result = result * t.reshape(shape)
    return result


def weigh(j, likelihoods):
    """joint * product of the likelihood vectors {node index: vector}."""
    for i, vec in likelihoods.items():
        shape = [1] * j.ndim
        shape[i] = len(vec)
        j = j * np.array(vec, dtype=float).reshape(shape)
    return j


def marginal(j, i):
    axes = tuple(a for a in range(j.ndim) if a != i)
    return j.sum(axis=axes) if axes else j


def marginals(j):
    """Normalised marginal of every node, or None if the total is zero."""
    total = j.sum()
    if total <= 0:
        return None
    return [marginal(j, i) / total for i in range(j.ndim)]


# ---------------------------------------------------------------- observation


def observed_marginals(jt, spec):
    """The marginal of every node as the user reads it, by node index: list of vectors in
    the order of the node's values."""
    ids = ids_of(spec)
    result = []
    for i in range(spec["n"]):
        node = jt.get_bbn_node(ids[i])
        result.append(read_potential(jt.get_bbn_potential(node), ids[i], values_of(spec, i)))
    return result


def read_potential(potential, id, values):
    got = {}
    for e in potential.entries:
        got[e.entries[id]] = e.value
    if len(potential.entries) != len(values) or set(got) != set(values):
        raise AssertionError(f"marginal of {id} is over {sorted(got)}, not {values}")
    return [float(got[v]) for v in values]


def alike(a, b, tol):
    """Also small probabilities must have the right magnitude; false for NaN."""
    return abs(a - b) <= tol and abs(a - b) <= 1e-6 * abs(b) + 1e-15


def compare_marginals(rec, got, want, spec, tol=1e-9, **detail):
    for i, (g, w) in enumerate(zip(got, want)):
        for v, (a, b) in enumerate(zip(g, w)):
            if not alike(a, b, tol):
                rec.fail(
                    f"marginal of node {i} is {[float(x) for x in g]}, "
                    f"expected {[float(x) for x in w]}",
                    got=got,
                    want=want,
                    **detail,
                )


def compare_posteriors_map(rec, jt, spec, want, tol=1e-9, **detail):
    """The name-keyed view must say the same."""
    post = jt.get_posteriors()
    names = names_of(spec)
    if set(post) != set(names):
        rec.fail(f"posteriors are over {sorted(post)}", **detail)
    for i, w in enumerate(want):
        m = post[names[i]]
        values = values_of(spec, i)
        if set(m) != set(values):
            rec.fail(f"posteriors of {names[i]} are over {sorted(m)}", **detail)
        for v, b in zip(values, w):
            if not alike(m[v], b, tol):
                rec.fail(f"posterior of {names[i]}={v} is {m[v]}, expected {b}", **detail)


def evidence(jt_or_node, id, values, kind):
    """Evidence object for the node with the id: values maps value -> likelihood."""
    from pybbn.graph.jointree import EvidenceBuilder

    node = jt_or_node.get_bbn_node(id)
    b = EvidenceBuilder().with_node(node).with_type(kind)
    for v, l in values.items():
        b = b.with_evidence(v, l)
    return b.build()
