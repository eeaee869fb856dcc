"""C25: table algebra on every table over small domains with entries from a small set."""
import itertools

import numpy as np

from mc import nets

PROPERTY = "C25"
CHUNK = 2
VALS = (0.0, 1.0, 0.5)
ARITIES = [[1], [2], [3], [2, 2], [1, 2], [2, 3], [3, 2], [2, 2, 2], [2, 1, 3], [3, 2, 2]]
BOUNDS = {
    "quick": "10 domains of 1..3 variables with 1..3 values; every table with entries 0, 1, 0.5 up to 6 entries (also scaled by 1e-13, 1e-40 and 1e6), 200 patterns for "
    "8 to 12 entries; every choice and order of variables to keep, every order of variables of a factor; division of every "
    "pair of tables of up to 3 entries, every 7th pair of 4; messages between every pair of cliques of 2 variables with every separator",
    "thorough": "1500 patterns of the larger tables, every pair of tables of 4 entries",
}


def patterns(size, cap):
    if len(VALS) ** size <= 729:
        yield from itertools.product(VALS, repeat=size)
        return
    for k in range(cap):
        yield tuple(VALS[nets.weight("p", k, i) % 3] * (1 + nets.weight("f", k, i)) for i in range(size))


def cases(tier):
    deep = tier == "thorough"
    for arity in ARITIES:
        every = list(patterns(int(np.prod(arity)), 1500 if deep else 200))
        every += [tuple(x * f for x in t) for f in (1e-13, 1e-40, 1e6) for t in every[:: 7 if len(every) > 50 else 1]]
        for k in range(0, len(every), 60):
            yield {"mode": "table", "arity": arity, "tables": every[k : k + 60]}
    for arity in ([70], [12, 3], [2] * 6, [5, 4, 3, 2]):
        size = int(np.prod(arity))
        yield {"mode": "table", "arity": arity, "tables": [tuple(nets.weight("w", k, v) % 7 + 0.5 * k for v in range(size)) for k in range(2)]}
    for arity in ([2], [3], [2, 2]):
        every = list(patterns(int(np.prod(arity)), 0))
        every += [tuple(x * f for x in t) for f in (1e-13, 1e-40) for t in every[:: 5 if len(every) > 50 else 1]]
        for k in range(0, len(every), 9):
            yield {"mode": "divide", "arity": arity, "left": every[k : k + 9], "step": 1 if deep or len(every) < 81 else 7}
    for arity in ([2, 2, 2], [2, 3, 2], [3, 2, 2], [9, 4, 7], [2, 40, 2]):
        for fam in range(40 if deep else 12):
            yield {"mode": "message", "arity": arity, "fam": fam}


def make(ids, arity, table):
    """(nodes, potential) with the entries of the table in the nodes' order."""
    from pybbn.graph.node import BbnNode
    from pybbn.graph.potential import PotentialUtil
    from pybbn.graph.variable import Variable

    nodes = [BbnNode(Variable(i, f"n{i}", [f"s{v}" for v in range(k)]), []) for i, k in zip(ids, arity)]
    pot = PotentialUtil.get_potential_from_nodes(nodes)
    if len(pot.entries) != len(table):
        raise AssertionError(f"table has {len(pot.entries)} entries")
    put(pot, ids, arity, table)
    return nodes, pot


def put(pot, ids, arity, table):
    t = np.array(table, dtype=float).reshape(arity)
    for e in pot.entries:
        e.value = float(t[tuple(int(e.entries[i][1:]) for i in ids)])


def read(rec, pot, ids, arity, what):
    t = np.full(arity, np.nan)
    for e in pot.entries:
        if set(e.entries) != set(ids):
            rec.fail(f"{what}: an entry is over {sorted(e.entries)}, not {sorted(ids)}")
        at = tuple(int(e.entries[i][1:]) for i in ids)
        if not np.isnan(t[at]):
            rec.fail(f"{what}: entry {at} occurs twice")
        t[at] = e.value
    if np.isnan(t).any():
        rec.fail(f"{what}: entries are missing")
    return t


def clique(nodes):
    from pybbn.graph.node import Clique

    return Clique(list(nodes))


def tree_of(potentials):
    from pybbn.graph.jointree import JoinTree

    tree = JoinTree()
    for c, pot in potentials:
        tree.potentials[c.id] = pot
    return tree


def same(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=0)


def run(case, rec):
    if case["mode"] == "divide":
        return divide(case, rec)
    if case["mode"] == "message":
        return message(case, rec)
    from pybbn.graph.potential import PotentialUtil as U

    arity = case["arity"]
    n = len(arity)
    ids = nets.GAPPED[:n]
    for table in case["tables"]:
        t = np.array(table, dtype=float).reshape(arity)
        nodes, pot = make(ids, arity, table)
        home = clique(nodes)
        tree = tree_of([(home, pot)])
        for k in range(1, n + 1):
            for keep in itertools.permutations(range(n), k) if n < 5 else itertools.islice(itertools.permutations(range(n), k), 0, None, 31):
                got = U.marginalize_for(tree, home, [nodes[i] for i in keep])
                rec.step()
                want = np.einsum(t, list(range(n)), list(keep))
                if not same(read(rec, got, [ids[i] for i in keep], [arity[i] for i in keep], "marginal"), want):
                    rec.fail(f"marginal over {keep} of {table} is wrong", got=str(got))
                rec.state((arity, table, "m", keep))
                # multiply by a factor over these variables, in this order
                f = np.array([VALS[(j + len(keep)) % 3] + (j % 5) for j in range(want.size)]).reshape(want.shape)
                fnodes, factor = make([ids[i] for i in keep], [arity[i] for i in keep], f.flatten())
                _, target = make(ids, arity, table)
                U.multiply(target, factor)
                rec.step()
                want = np.einsum(t, list(range(n)), f, list(keep), list(range(n)))
                if not same(read(rec, target, ids, arity, "product"), want):
                    rec.fail(f"product of {table} with {f.tolist()} over {keep} is wrong", got=str(target))
                if not same(read(rec, factor, [ids[i] for i in keep], [arity[i] for i in keep], "factor"), f):
                    rec.fail("multiplying changed the smaller table")
                rec.trace()
        if not same(read(rec, pot, ids, arity, "table"), t):
            rec.fail("marginalising changed the table")
        _, other = make(ids, arity, table)
        got = U.normalize(other)
        rec.step()
        want = t / t.sum() if t.sum() > 0 else t
        for r in (got, other):
            if not same(read(rec, r, ids, arity, "normalised"), want):
                rec.fail(f"normalised {table} is wrong", got=str(r))
        rec.outcome(want.tolist())
        # order of variables in a CPT: parents in the order given, the node last
        node, pas = nodes[-1], nodes[:-1]
        for order in itertools.permutations(range(n - 1)):
            node.probs = list(table)
            shape = [arity[i] for i in order] + [arity[-1]]
            got = U.get_potential(node, [pas[i] for i in order])
            rec.step()
            want = np.array(table, dtype=float).reshape(shape)
            if not same(read(rec, got, [ids[i] for i in order] + [ids[n - 1]], shape, "CPT"), want):
                rec.fail(f"CPT {table} with parents {order} is wrong", got=str(got))
    rec.trace()


def divide(case, rec):
    from pybbn.graph.potential import PotentialUtil as U

    arity = case["arity"]
    ids = nets.GAPPED[: len(arity)]
    rights = list(patterns(int(np.prod(arity)), 0))[:: case["step"]]
    rights += [tuple(x * 1e-20 for x in t) for t in rights[:9]]
    for left in case["left"]:
        for right in rights:
            _, a = make(ids, arity, left)
            _, b = make(ids, arity, right)
            got = U.divide(a, b)
            rec.step()
            x, y = np.array(left).reshape(arity), np.array(right).reshape(arity)
            want = np.where((x == 0) | (y == 0), 0.0, x / np.where(y == 0, 1.0, y))
            if not same(read(rec, got, ids, arity, "quotient"), want):
                rec.fail(f"{left} / {right} is wrong", got=str(got))
            if not same(read(rec, a, ids, arity, "left"), x) or not same(read(rec, b, ids, arity, "right"), y):
                rec.fail(f"dividing {left} by {right} changed an argument")
            for e in got.entries:
                e.value = 9.0
            if not same(read(rec, a, ids, arity, "left"), x) or not same(read(rec, b, ids, arity, "right"), y):
                rec.fail("the quotient shares entries with an argument")
            rec.state((arity, left, right))
            rec.trace()


def message(case, rec):
    """Cliques {0, 1} and {1, 2} (in both orders of their variables), separator {1}; and
    cliques {0, 1, 2} and {1, 2}, separator {1, 2}, in every order."""
    from pybbn.graph.potential import PotentialUtil as U

    arity, fam = case["arity"], case["fam"]
    ids = nets.GAPPED[:3]
    shapes = [((0, 1), (1, 2), (1,)), ((0, 1, 2), (1, 2), (1, 2)), ((1, 0), (2, 1), (1,)), ((2, 0, 1), (2, 1), (1, 2))]
    shapes += [((0, 1, 2), (1, 2), (2, 1)), ((1, 2), (0, 2, 1), (2, 1))]
    for xs, ys, ss in shapes:

        def table(vars, name, positive):
            out = []
            for k in range(int(np.prod([arity[v] for v in vars]))):
                w = nets.weight(name, fam, k)
                out.append(0.0 if w % 4 == 0 and not positive else w / 16.0)
            return np.array(out).reshape([arity[v] for v in vars])

        for zeros in (False, True):
            tx, ty = table(xs, "x", not zeros), table(ys, "y", not zeros)
            tsep = table(ss, "s", True)
            nx, px = make([ids[v] for v in xs], tx.shape, tx.flatten())
            ny, py = make([ids[v] for v in ys], ty.shape, ty.flatten())
            ns, ps = make([ids[v] for v in ss], tsep.shape, tsep.flatten())
            cx, cy = clique(nx), clique(ny)
            sep = cx.get_sep_set(cy)
            sep.nodes = list(ns)
            tree = tree_of([(cx, px), (cy, py), (sep, ps)])
            U.pass_single_message(tree, cx, sep, cy)
            rec.step()
            new_s = np.einsum(tx, list(xs), list(ss))
            ratio = new_s / tsep
            got_s = read(rec, tree.potentials[sep.id], [ids[v] for v in ss], tsep.shape, "separator")
            got_y = read(rec, tree.potentials[cy.id], [ids[v] for v in ys], ty.shape, "receiver")
            got_x = read(rec, tree.potentials[cx.id], [ids[v] for v in xs], tx.shape, "sender")
            if not same(got_x, tx):
                rec.fail("a message changed its sender", shape=(xs, ys, ss))
            if not same(got_s, new_s):
                rec.fail("the separator is not the marginal of the sender", shape=(xs, ys, ss))
            if not same(got_y, np.einsum(ty, list(ys), ratio, list(ss), list(ys))):
                rec.fail("the receiver is not multiplied by the ratio", shape=(xs, ys, ss))
            before = np.einsum(tx, list(xs), ty, list(ys), 1 / tsep, list(ss), [0, 1, 2])
            inv = np.where(got_s > 0, 1 / np.where(got_s > 0, got_s, 1), 0)
            after = np.einsum(got_x, list(xs), got_y, list(ys), inv, list(ss), [0, 1, 2])
            mask = np.einsum((new_s > 0).astype(float), list(ss), np.ones(arity), [0, 1, 2], [0, 1, 2]) > 0
            if not np.allclose(before[mask], after[mask], rtol=1e-12, atol=1e-12):
                rec.fail("a message changed the represented joint table", shape=(xs, ys, ss))
            rec.state((arity, fam, xs, ys, ss, zeros))
            rec.outcome(got_y.tolist())
            rec.trace()
