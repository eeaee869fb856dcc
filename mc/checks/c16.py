"""C16: every small data table against every structure; the learned tables must be the
relative frequencies, attached to the right parent combination."""
import itertools

import numpy as np

from mc import nets

PROPERTY = "C16"
CHUNK = 2
BOUNDS = {
    "quick": "every data table of 1..3 rows (as a multiset) over 2 and 3 two-valued columns and 2 "
    "columns of 2 and 3 values, for every DAG; 8 kinds of names and values; every order of columns, of structure entries, of parent "
    "lists and of rows for one table per structure; 6 kinds of row index and columns; every table of 1..3 rows over 1 and 2 columns with missing "
    "values (None, NaN), and every cell and pair of cells missing in one table per 3-variable structure",
    "thorough": "tables of 1..5 rows on 3 columns, all orders for three tables per structure",
}
ASSUMPTIONS = ["every column has a value in some row; the structure has an entry for every column"]

NAMES = {
    "plain": ["a", "b", "c"],
    "reverse": ["c", "b", "a"],
    "case": ["b", "B", "A"],
    "awkward": ["x y", "1st", "a-b"],
    "attributes": ["index", "size", "T"],
    "prefix": ["x", "xx", "x1"],
    "quoted": ['q"', "q'", "q`"],
    "keywords": ["and", "in", "@x"],
}
VALUES = {
    "columns": ["a", "b", "c"],
    "plain": ["v0", "v1", "v2"],
    "ints": [0, 1, 2],
    "bigints": [9, 10, 100],
    "bools": [False, True],
    "floats": [0.5, 1.0, 1.5],
    "digits": ["10", "9", "1"],
    "quoted": ["it's", 'say "x"', "a`b"],
    "blank": ["", " ", "a b"],
    "negative": [-1, 0, 1],
}


MISSING = {"none": "plain", "nan": "plain", "floats": "floats"}  # values beside the missing ones


def tables(arity, rows, low=0):
    cells = list(itertools.product(*[range(low, k) for k in arity]))
    return itertools.combinations_with_replacement(cells, rows)


def cases(tier):
    deep = tier == "thorough"
    for n, arity in ((1, [2]), (1, [3]), (2, [2, 2]), (2, [2, 3]), (2, [3, 2])):
        for edges in nets.all_dags(n):
            for rows in (1, 2, 3):
                yield {"n": n, "edges": edges, "arity": arity, "rows": [rows], "names": "plain", "values": "plain"}
    for edges in nets.all_dags(3):
        for rows in (1, 2, 3):
            yield {"n": 3, "edges": edges, "arity": [2, 2, 2], "rows": [rows], "names": "reverse", "values": "plain"}
        if deep:
            for first in range(8):
                yield {"n": 3, "edges": edges, "arity": [2, 2, 2], "rows": [4, 5], "names": "plain", "values": "plain", "first": first}
    for edges in ([[0, 2], [1, 2]], [[2, 0], [1, 0], [2, 1]], [[0, 1]], []):
        for names in NAMES:
            yield {"n": 3, "edges": edges, "names": names, "values": "plain", "fixed": True}
        for values in VALUES:
            yield {"n": 3, "edges": edges, "names": "plain", "values": values, "fixed": True}
            yield {"n": 3, "edges": edges, "names": "case", "values": values, "fixed": True}
    for edges in nets.all_dags(3):
        yield {"n": 3, "edges": edges, "names": "reverse", "values": "plain", "orders": True, "fixed": True}
        if deep:
            yield {"n": 3, "edges": edges, "names": "case", "values": "ints", "orders": True, "fixed": True}
            yield {"n": 3, "edges": edges, "names": "plain", "values": "digits", "orders": True, "fixed": True}
    for kind in ("none", "nan", "floats"):
        for n, arity in ((1, [2]), (2, [2, 2]), (2, [2, 3])):
            for edges in nets.all_dags(n):
                for rows in (1, 2, 3):
                    yield {"n": n, "edges": edges, "arity": arity, "rows": [rows], "names": "plain", "values": MISSING[kind], "missing": kind}
    for edges in nets.all_dags(3):
        for kind in ("none", "floats"):
            yield {"n": 3, "edges": edges, "names": "reverse", "values": MISSING[kind], "missing": kind, "fixed": True}
    for which in BIGGER:
        yield {"bigger": which}
    for edges in nets.unlabelled_dags(4):
        yield {"n": 4, "edges": edges[::-1], "names": "four", "values": "plain", "fixed": True}


# large in one respect: values of one column, parents, columns, rows
BIGGER = {
    "values": (2, [[0, 1]], [11, 2], 90),
    "child": (2, [[1, 0]], [12, 3], 90),
    "parents": (6, [[i, 5] for i in range(5)], [2, 2, 3, 2, 2, 2], 300),
    "columns": (12, [[0, i] for i in range(1, 12)] + [[3, 7], [1, 2]], [2] * 12, 60),
    "rows": (3, [[0, 2], [1, 2]], [2, 3, 2], 5000),
    "rare": (2, [[0, 1]], [2, 2], 3000),
}
NAMES["many"] = [f"n{i}" for i in range(12)]
NAMES["four"] = ["d", "b", "c", "a"]
FIXED = {
    3: [(0, 0, 1), (1, 0, 1), (1, 1, 0), (0, 0, 0), (1, 0, 1), (1, 0, 0), (0, 0, 1)],
    4: [(0, 0, 1, 2), (1, 0, 1, 0), (1, 1, 0, 1), (0, 0, 0, 0), (1, 0, 1, 2), (1, 0, 0, 2), (0, 0, 1, 1), (0, 0, 1, 0)],
}


def bigger(which, rec):
    n, edges, arity, count = BIGGER[which]
    if which == "rare":
        data = [(int(k == 7), k % 2) for k in range(count)]
    else:
        data = [tuple(nets.weight("d", which, k, i) % (a if k % 3 else max(1, a - 1)) for i, a in enumerate(arity)) for k in range(count)]
    for values in (range(12), [f"v{i}" for i in range(12)], [float(i) / 8 for i in range(12)]):
        values = sorted(values)
        one(n, edges, NAMES["many"][:n], values, data, rec)
        one(n, edges[::-1], NAMES["many"][:n][::-1], values, data, rec)


def run(case, rec):
    if "bigger" in case:
        return bigger(case["bigger"], rec)
    n, edges = case["n"], case["edges"]
    names, values = NAMES[case["names"]][:n], VALUES[case["values"]]
    if "fixed" in case:
        data = [tuple(min(x, len(values) - 1) for x in row) for row in FIXED[n]]
        if case.get("orders"):
            return orders(n, edges, names, values, data, rec)
        if "missing" in case:
            cells = list(itertools.product(range(len(data)), range(n)))
            for gone in [[c] for c in cells] + list(itertools.combinations(cells, 2)):
                holes = [tuple(-1 if (r, c) in gone else x for c, x in enumerate(row)) for r, row in enumerate(data)]
                one(n, edges, names, values, holes, rec, missing=case["missing"])
            return
        one(n, edges, names, values, data, rec)
        one(n, edges, names, values, data, rec, index="dup")
        for index in ("text", "categories", "sliced", "multi"):
            one(n, edges, names, values, data, rec, index=index)
        return
    for rows in case["rows"]:
        missing = case.get("missing")
        for data in tables(case["arity"], rows, -1 if missing else 0):
            if missing and any(all(row[i] < 0 for row in data) for i in range(n)):
                continue
            if "first" in case and data[0] != tuple(int(b) for b in f"{case['first']:03b}"):
                continue
            one(n, edges, names, values, list(data), rec, missing=missing)


def orders(n, edges, names, values, data, rec):
    for cols in itertools.permutations(range(n)):
        for entries in itertools.permutations(range(n)):
            for flip in (False, True):
                one(n, edges, names, values, data, rec, cols=cols, entries=entries, flip=flip)
    for k, rows in enumerate(itertools.permutations(data)):
        if k % 100 == 0:
            one(n, edges, names, values, list(rows), rec)


def one(n, edges, names, values, data, rec, cols=None, entries=None, flip=False, index=None, missing=None):
    import pandas as pd

    from pybbn.graph.factory import Factory
    from pybbn.pptc.inferencecontroller import InferenceController

    cols, entries = cols or range(n), entries or range(n)
    pas = {i: [p for p, c in edges if c == i] for i in range(n)}
    hole = None if missing == "none" else float("nan")
    frame = {names[i]: [values[row[i]] if row[i] >= 0 else hole for row in data] for i in cols}
    df = pd.DataFrame(frame)
    if index == "dup":
        df.index = [0] * len(data)
    elif index == "text":
        df.index = [f"r{len(data) - k}" for k in range(len(data))]
    elif index == "categories":
        df = df.astype("category")
    elif index == "sliced":  # rows and columns picked from a larger table
        df = pd.concat([df, df, df])[list(frame)[::-1]][: len(data)][list(frame)]
    elif index == "multi":
        df.index = pd.MultiIndex.from_tuples([(k // 2, k) for k in range(len(data))])
    structure = {
        names[i]: [names[p] for p in (pas[i][::-1] if flip else pas[i])] for i in entries
    }
    kept = {k: list(v) for k, v in structure.items()}
    copy = df.copy()
    bbn = Factory.from_data(structure, df)
    rec.step()
    what = {"structure": kept, "data": frame, "row_index": index}
    if structure != kept or not df.equals(copy):
        rec.fail("the arguments were changed", **what)

    # what the network should be, by counting
    seen = [sorted({values[row[i]] for row in data if row[i] >= 0}) for i in range(n)]
    nodes = {node.variable.name: node for node in bbn.get_nodes()}
    if sorted(nodes) != sorted(names):
        rec.fail(f"the variables are {sorted(nodes)}", **what)
    got_edges = sorted((e.i.variable.name, e.j.variable.name) for e in bbn.get_edges())
    if got_edges != sorted((names[p], names[c]) for p, c in edges):
        rec.fail(f"the edges are {got_edges}", **what)
    at = {name: i for i, name in enumerate(names)}
    by_id = {node.id: at[node.variable.name] for node in nodes.values()}
    if len(by_id) != n:
        rec.fail("identifiers are not distinct", **what)
    want_edges = []
    for i in range(n):
        node = nodes[names[i]]
        got_values = [v.item() if hasattr(v, "item") else v for v in node.variable.values]
        if got_values != seen[i] or [type(v) for v in got_values] != [type(v) for v in seen[i]]:
            rec.fail(f"the values of {names[i]} are {got_values}, expected {seen[i]}", **what)
        order = [by_id[p] for p in bbn.parents.get(node.id, [])]
        if sorted(order) != sorted(pas[i]):
            rec.fail(f"the parents of {names[i]} are {order}", **what)
        want_edges += [[p, i] for p in order]
        want = []
        for combo in itertools.product(*[seen[p] for p in order]):
            match = [r for r in data if r[i] >= 0 and all(r[p] >= 0 and values[r[p]] == v for p, v in zip(order, combo))]
            for v in seen[i]:
                hits = sum(values[r[i]] == v for r in match)
                want.append(hits / len(match) if match else 1 / len(seen[i]))
        got = [float(x) for x in node.probs]
        if len(got) != len(want) or max(abs(a - b) for a, b in zip(got, want)) > 1e-9:
            rec.fail(f"the table of {names[i]} is {got}, expected {want}", **what)
        rec.outcome(want)
    rec.state((what, n))
    # inference must read the tables that way
    spec = nets.spec(n, want_edges, arity=[len(s) for s in seen])
    cpts = [[float(x) for x in nodes[names[i]].probs] for i in range(n)]
    want = nets.marginals(nets.joint(spec, cpts))
    jt = InferenceController.apply(bbn)
    for i in range(n):
        node = nodes[names[i]]
        post = {e.entries[node.id]: e.value for e in jt.get_bbn_potential(node).entries}
        for v, w in zip(seen[i], want[i]):
            if not abs(post[v] - w) <= 1e-9:
                rec.fail(f"P({names[i]}={v}) is {post[v]}, expected {w}", **what)
    rec.trace()
    if len(data) == 3:
        rec.sample(what)
