"""Brute-force reference for paths and separation in directed acyclic graphs (edges as
(parent, child) pairs), straight from the definitions."""
import itertools


def adjacent(edges, a, b):
    return (a, b) in edges or (b, a) in edges


def simple_paths(n, edges, x, y):
    """Every simple path between x and y, ignoring directions."""
    result = []

    def walk(path):
        if path[-1] == y:
            result.append(tuple(path))
            return
        for z in range(n):
            if z not in path and adjacent(edges, path[-1], z):
                walk(path + [z])

    walk([x])
    return result


def descendants(n, edges, x):
    seen, todo = set(), [x]
    while todo:
        i = todo.pop()
        for a, b in edges:
            if a == i and b not in seen:
                seen.add(b)
                todo.append(b)
    return seen


def colliders(edges, path):
    return [z for w, z, y in zip(path, path[1:], path[2:]) if (w, z) in edges and (y, z) in edges]


def active(n, edges, path, evidence):
    """Definition of an active path of three or more nodes."""
    for w, z, y in zip(path, path[1:], path[2:]):
        if (w, z) in edges and (y, z) in edges:
            if not ({z} | descendants(n, edges, z)) & evidence:
                return False
        elif z in evidence:
            return False
    return True


def separated(n, edges, x, y, evidence):
    """d-separation by the moral graph of the ancestors (independent of paths)."""
    keep = {x, y} | evidence
    while True:
        more = {a for a, b in edges if b in keep} - keep
        if not more:
            break
        keep |= more
    moral = set()
    for a, b in edges:
        if a in keep and b in keep:
            moral |= {(a, b), (b, a)}
    for (a, c), (b, d) in itertools.combinations(edges, 2):
        if c == d and c in keep and a in keep and b in keep:
            moral |= {(a, b), (b, a)}
    seen, todo = {x}, [x]
    while todo:
        i = todo.pop()
        for a, b in moral:
            if a == i and b not in seen and b not in evidence:
                seen.add(b)
                todo.append(b)
    return y not in seen
