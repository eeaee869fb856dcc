"""Mutation testing of the checks (not a check itself).

  mutate.py list  OUT            writes every mutant (JSON lines)
  mutate.py tests IN OUT         keeps the mutants that pass the repository's tests
  mutate.py checks IN OUT        runs the relevant checks on each; records which one caught it

Everything happens in scratch copies of /repo under /tmp/mut.
"""
import ast
import copy
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import time

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SCRATCH = os.environ.get("SCRATCH", "/tmp/mut")

INF = "C01 C02 C03 C04 C05 C07 C08 C26 C27 C06 C29 C20 C35 C32".split()
RELEVANT = {
    "causality/ace.py": "C20 C29 C37".split(),
    "causality/do.py": "C21 C22".split(),
    "gaussian/inference.py": "C23 C24 C31".split(),
    "generator/bbngenerator.py": "C19 C18".split(),
    "sampling/sampling.py": "C13 C14 C15 C29 C32 C37".split(),
    "graph/factory.py": "C17 C16".split(),
    "graph/pdag.py": "C30 C12".split(),
    "graph/dag.py": "C09 C10 C28 C01 C11 C12 C27 C30 C29 C26 C19 C33 C34 C32".split(),
    "graph/graph.py": "C12 C11 C01 C05 C27 C26 C30 C33".split(),
    "graph/edge.py": "C12 C11 C05 C26 C01 C30 C33".split(),
    "graph/node.py": "C05 C01 C09 C26 C07 C08 C33 C34 C32".split(),
    "graph/variable.py": "C09 C26 C01 C08 C33 C34".split(),
    "graph/potential.py": "C25 C01 C02 C06 C07 C26 C32 C35".split(),
    "graph/jointree.py": "C04 C02 C03 C40 C38 C39 C05 C07 C08 C26 C27 C20 C01 C29 C06 C36 C37 C33 C34 C32".split(),
}

COST = {"C01": 11, "C02": 14, "C03": 22, "C04": 2, "C05": 20, "C06": 57, "C07": 6, "C08": 14, "C09": 3, "C10": 2, "C11": 18, "C12": 21,
       "C13": 24, "C14": 15, "C15": 6, "C16": 20, "C17": 9, "C18": 58, "C19": 8, "C20": 76, "C21": 8, "C22": 9, "C23": 9, "C24": 6, "C25": 3,
       "C26": 24, "C27": 62, "C28": 1, "C29": 23, "C30": 33, "C31": 3, "C32": 44, "C33": 9, "C34": 28, "C35": 37, "C36": 31, "C37": 70, "C38": 5,
       "C39": 10, "C40": 7}
LIMIT_S = float(os.environ.get("LIMIT_S", 900))


def files():
    for root, dirs, names in os.walk(os.path.join(REPO, "pybbn")):
        for n in sorted(names):
            p = os.path.join(root, n)
            if n.endswith(".py") and os.path.getsize(p) > 200:
                yield os.path.relpath(p, REPO)


SWAP = {
    ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
    ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot],
    ast.IsNot: [ast.Is], ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add, ast.Div], ast.Div: [ast.Mult],
    ast.And: [ast.Or], ast.Or: [ast.And], ast.BitOr: [ast.BitAnd], ast.BitAnd: [ast.BitOr],
}


def variants(node):
    """(description, replacement) for one AST node; replacement None deletes a statement."""
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for new in SWAP.get(type(node.ops[0]), []):
            n = copy.deepcopy(node)
            n.ops = [new()]
            yield f"{type(node.ops[0]).__name__}->{new.__name__}", n
    if isinstance(node, (ast.BinOp, ast.BoolOp)):
        for new in SWAP.get(type(node.op), []):
            n = copy.deepcopy(node)
            n.op = new()
            yield f"{type(node.op).__name__}->{new.__name__}", n
    if isinstance(node, ast.BoolOp):
        for k in range(len(node.values)):
            yield f"keep operand {k}", copy.deepcopy(node.values[k])
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield "drop not", copy.deepcopy(node.operand)
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        yield "drop minus", copy.deepcopy(node.operand)
    if isinstance(node, ast.Constant) and isinstance(node.value, bool):
        yield "negate", ast.Constant(not node.value)
    elif isinstance(node, ast.Constant) and isinstance(node.value, (int, float)):
        yield "+1", ast.Constant(node.value + 1)
        yield "-1", ast.Constant(node.value - 1)
    elif isinstance(node, ast.Constant) and isinstance(node.value, str) and len(node.value) < 12:
        yield "string", ast.Constant(node.value + "_")
    if isinstance(node, ast.Call):
        name = node.func.id if isinstance(node.func, ast.Name) else None
        if name in ("sorted", "list", "set", "tuple", "dict", "int", "float", "str", "deepcopy", "min", "max", "any", "all", "sum", "len") and node.args:
            other = {"min": "max", "max": "min", "any": "all", "all": "any"}.get(name)
            if other:
                n = copy.deepcopy(node)
                n.func = ast.Name(other, ast.Load())
                yield f"{name}->{other}", n
            elif name == "sorted":
                yield "sorted->list", ast.Call(ast.Name("list", ast.Load()), [copy.deepcopy(node.args[0])], [])
                n = copy.deepcopy(node)
                if not any(k.arg == "reverse" for k in n.keywords):
                    n.keywords.append(ast.keyword("reverse", ast.Constant(True)))
                    yield "sorted reverse", n
                if node.keywords:
                    n = copy.deepcopy(node)
                    n.keywords = [k for k in n.keywords if k.arg != "key"]
                    yield "sorted no key", n
            else:
                yield f"drop {name}()", copy.deepcopy(node.args[0])
        if isinstance(node.func, ast.Attribute) and not node.args and node.func.attr in ("copy", "strip", "sum", "flatten", "cumsum"):
            yield f"drop .{node.func.attr}()", copy.deepcopy(node.func.value)
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("deepcopy", "copy") and node.args:
            yield "drop deepcopy", copy.deepcopy(node.args[0])
        if len(node.args) == 2:
            n = copy.deepcopy(node)
            n.args = n.args[::-1]
            yield "swap arguments", n
        for k in range(len(node.keywords)):
            n = copy.deepcopy(node)
            del n.keywords[k]
            yield f"drop keyword {node.keywords[k].arg}", n
    if isinstance(node, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
        for k, g in enumerate(node.generators):
            if g.ifs:
                n = copy.deepcopy(node)
                n.generators[k].ifs = []
                yield "drop comprehension filter", n
    if isinstance(node, ast.IfExp):
        yield "take body", copy.deepcopy(node.body)
        yield "take else", copy.deepcopy(node.orelse)
    if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
        yield "drop slice", copy.deepcopy(node.value)
    if isinstance(node, ast.If):
        for v in (True, False):
            n = copy.deepcopy(node)
            n.test = ast.Constant(v)
            yield f"if {v}", n
    if isinstance(node, ast.While):
        pass
    if isinstance(node, ast.For):
        n = copy.deepcopy(node)
        n.iter = ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [n.iter], []), ast.Slice(None, ast.UnaryOp(ast.USub(), ast.Constant(1)), None), ast.Load())
        yield "for without last", n
        n = copy.deepcopy(node)
        n.iter = ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [n.iter], []), ast.Slice(None, None, ast.UnaryOp(ast.USub(), ast.Constant(1))), ast.Load())
        yield "for reversed", n
    if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Break, ast.Continue, ast.Raise)):
        if not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
            yield "delete statement", ast.Pass()
    if isinstance(node, ast.Break):
        yield "break->continue", ast.Continue()
    if isinstance(node, ast.Return) and node.value is not None and not isinstance(node.value, ast.Constant):
        yield "return None", ast.Return(ast.Constant(None))


def skip(node):
    return isinstance(node, ast.FunctionDef) and node.name in ("__str__", "__repr__", "get_huang_graph", "get_simple", "hash_string")


def mutants():
    for path in files():
        text = open(os.path.join(REPO, path)).read()
        tree = ast.parse(text)

        def walk(node, field, index, parent):
            if skip(node):
                return
            for what, new in variants(node):
                yield node, what, new, parent, field, index
            for f, v in ast.iter_fields(node):
                if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) and f in ("decorator_list", "returns"):
                    continue
                if isinstance(v, ast.AST):
                    yield from walk(v, f, None, node)
                elif isinstance(v, list):
                    for k, x in enumerate(v):
                        if isinstance(x, ast.AST):
                            yield from walk(x, f, k, node)

        for k, (node, what, new, parent, field, index) in enumerate(walk(tree, None, None, None)):
            if parent is None or not hasattr(node, "lineno"):
                continue
            old = node
            if index is None:
                setattr(parent, field, new)
            else:
                getattr(parent, field)[index] = new
            try:
                src = ast.unparse(ast.fix_missing_locations(tree))
                compile(src, path, "exec")
            except Exception:
                src = None
            if index is None:
                setattr(parent, field, old)
            else:
                getattr(parent, field)[index] = old
            if src and src != ast.unparse(tree):
                yield {"id": f"{path}:{node.lineno}:{k}", "path": path, "line": node.lineno, "what": what,
                       "text": text.splitlines()[node.lineno - 1].strip(), "src": src}


def worker_dir():
    d = os.path.join(SCRATCH, f"w{os.getpid()}")
    if not os.path.isdir(d):
        os.makedirs(d)
        for n in ("pybbn", "tests"):
            shutil.copytree(os.path.join(REPO, n), os.path.join(d, n), ignore=shutil.ignore_patterns("__pycache__"))
    return d


ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg",
       "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}


def put(m):
    d = worker_dir()
    p = os.path.join(d, m["path"])
    with open(p, "w") as f:
        f.write(m["src"])
    return d, p


def restore(m, p):
    shutil.copyfile(os.path.join(REPO, m["path"]), p)


def run_tests(m):
    d, p = put(m)
    try:
        r = subprocess.run([PY, "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60"], cwd=d,
                           env=ENV, capture_output=True, timeout=300)
        m["survives"] = r.returncode == 0
    except subprocess.TimeoutExpired:
        m["survives"] = False
    finally:
        restore(m, p)
    return m


def run_checks(m):
    d, p = put(m)
    short = m["path"].split("pybbn/")[1]
    m["caught"] = None
    m["odd"] = []
    try:
        spent = time.time()
        for c in sorted(RELEVANT.get(short, INF), key=lambda c: COST.get(c, 20)):
            if time.time() - spent > LIMIT_S:
                m["odd"].append("not run: " + c)
                continue
            env = {**ENV, "VERIF_REPO": d, "VERIF_RESULTS": d, "VERIF_PROCS": "1", "VERIF_SEED": "1", "VERIF_TIER": "quick"}
            try:
                r = subprocess.run(["bash", os.path.join(VERIF, "run.sh"), c, "quick"], env=env, capture_output=True, text=True, timeout=1500)
            except subprocess.TimeoutExpired:
                m["odd"].append(c + " timeout")
                continue
            if r.returncode == 1 and f"VIOLATION property={c}" in r.stdout:
                m["caught"] = c
                m["why"] = r.stdout.splitlines()[-2][:300]
                break
            if r.returncode != 0:
                m["odd"].append(f"{c} exit {r.returncode}")
    finally:
        restore(m, p)
    return m


def main():
    mode = sys.argv[1]
    if mode == "list":
        n = 0
        with open(sys.argv[2], "w") as f:
            for m in mutants():
                f.write(json.dumps(m) + "\n")
                n += 1
        print(n)
        return
    items = [json.loads(l) for l in open(sys.argv[2])]
    if mode == "checks":
        items = [m for m in items if m.get("survives", True)]
    procs = int(os.environ.get("PROCS", 8))
    with mp.Pool(procs) as pool, open(sys.argv[3], "w") as f:
        for k, m in enumerate(pool.imap_unordered(run_tests if mode == "tests" else run_checks, items)):
            f.write(json.dumps(m) + "\n")
            f.flush()
    shutil.rmtree(SCRATCH)


if __name__ == "__main__":
    main()
