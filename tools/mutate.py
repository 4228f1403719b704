"""mutate.py DIR [FILE...]: small mechanical changes to /repo's sources, each given to the contracts that reach the place.

A change counts when the repository's tests pass with it; DIR/out.jsonl tells for each whether a contract fails. Those
that none fails are for reading: equivalent, left open by the properties, or missed.
"""
import ast
import copy
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python"
OUT = sys.argv[1]
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.Div: ast.Mult,
       ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.RShift: ast.LShift, ast.LShift: ast.RShift, ast.Mod: ast.Mult}


def variants(n):
    """mutants of one node: (what, function that changes the copy in place, or returns a replacement)"""
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        t = type(n.ops[0])
        yield t.__name__, lambda m: m.ops.__setitem__(0, CMP[t]())
    if isinstance(n, ast.BinOp) and type(n.op) in BIN:
        yield type(n.op).__name__, lambda m: setattr(m, "op", BIN[type(n.op)]())
        yield "left", lambda m: m.left
    if isinstance(n, ast.BoolOp):
        yield "boolop", lambda m: setattr(m, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And())
        yield "first", lambda m: m.values[0]
        yield "last", lambda m: m.values[-1]
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        yield "not", lambda m: m.operand
    if isinstance(n, ast.Constant):
        v = n.value
        if isinstance(v, bool):
            yield "bool", lambda m: setattr(m, "value", not v)
        elif isinstance(v, int):
            yield "+1", lambda m: setattr(m, "value", v + 1)
            if v:
                yield "-1", lambda m: setattr(m, "value", v - 1)
        elif isinstance(v, str) and v:
            yield "str", lambda m: setattr(m, "value", v + "x")
            if v != v.lower():
                yield "lower", lambda m: setattr(m, "value", v.lower())
        elif isinstance(v, bytes) and v:
            yield "bytes", lambda m: setattr(m, "value", v[:-1])
    if isinstance(n, ast.Slice):
        if n.lower:
            yield "no lower", lambda m: setattr(m, "lower", None)
        if n.upper:
            yield "no upper", lambda m: setattr(m, "upper", None)
    if isinstance(n, ast.If):
        yield "true", lambda m: setattr(m, "test", ast.Constant(True))
        yield "false", lambda m: setattr(m, "test", ast.Constant(False))
    if isinstance(n, ast.IfExp):
        yield "body", lambda m: m.body
        yield "orelse", lambda m: m.orelse
    if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
        yield "none", lambda m: setattr(m, "value", ast.Constant(None))
    if isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
        yield "drop", lambda m: ast.Pass()
    if isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Tuple):
        for i in range(len(n.type.elts)):
            yield f"catch{i}", lambda m, i=i: m.type.elts.pop(i)
    if isinstance(n, ast.Call) and len(n.args) > 1:
        yield "swap", lambda m: m.args.reverse()
    if isinstance(n, ast.Call) and n.keywords:
        yield "nokw", lambda m: m.keywords.pop()
    if isinstance(n, (ast.Break, ast.Continue)):
        yield "jump", lambda m: ast.Continue() if isinstance(n, ast.Break) else ast.Break()
    if isinstance(n, (ast.List, ast.Tuple)) and len(n.elts) > 1 and isinstance(n.ctx, ast.Load):
        yield "elts", lambda m: m.elts.pop()
    if isinstance(n, ast.Dict) and len(n.keys) > 1:
        yield "entry", lambda m: (m.keys.pop(), m.values.pop()) and None
    if isinstance(n, ast.FunctionDef) and n.decorator_list and not any(
            isinstance(d, ast.Name) and d.id in ("property", "classmethod", "staticmethod") for d in n.decorator_list):
        yield "deco", lambda m: m.decorator_list.pop(0) and None


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    where = {}

    def mark(n, q):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            q = q + (n.name,)
        for c in ast.iter_child_nodes(n):
            where[id(c)] = q
            mark(c, q)
    mark(tree, ())
    skip = set()
    for n in nodes:
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise, ast.JoinedStr)):
            skip.update(id(x) for x in ast.walk(n) if x is not n)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(
                n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(id(n.body[0].value))
        if isinstance(n, ast.If) and "__main__" in ast.dump(n.test):
            skip.update(id(x) for x in ast.walk(n))
    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue
        for j, (what, _) in enumerate(variants(n)):
            new = copy.deepcopy(tree)
            ms = list(ast.walk(new))
            m = ms[i]
            _, f = list(variants(m))[j]
            r = f(m)
            if isinstance(r, ast.AST):
                for p in ms:
                    for k, v in ast.iter_fields(p):
                        if v is m:
                            setattr(p, k, r)
                        elif isinstance(v, list) and any(x is m for x in v):
                            v[[x is m for x in v].index(True)] = r
            try:
                text = ast.unparse(ast.fix_missing_locations(new))
                compile(text, path, "exec")
            except Exception:
                continue
            old = ast.unparse(n) if not isinstance(n, ast.Slice) else ast.dump(n)[:60]
            yield {"where": ".".join(where.get(id(n), ())), "line": getattr(n, "lineno", 0), "what": what,
                   "old": old[:100]}, text


def tests_pass(w):
    p = subprocess.run([PY, "-m", "pytest", "-q", "-x", "tests", "-p", "no:cacheprovider"], cwd=w, capture_output=True,
                       env={**os.environ, "PYTHONPATH": w, "PYTHONDONTWRITEBYTECODE": "1"}, timeout=120)
    return p.returncode == 0


def base(name):
    from pyvc import harness
    import contracts
    r = harness.check(contracts.BY_NAME[name])
    return name, r["functions"], r["wall_s"], r["ok"]


VERIFY = """
import sys, json; sys.path.insert(0, %r); sys.dont_write_bytecode = True
from pyvc import harness
import contracts
import time
t = time.time()
last = None
for n in sys.argv[1:]:
    if time.time() - t > 400:
        break
    c = contracts.BY_NAME[n]
    rs = []
    for a in range(1 + len(c.alt)):
        r = harness.check(c, alt=a)
        if r["ok"]:
            break
        rs.append(r)
    if not r["ok"]:
        print(json.dumps([n, rs[0]["fails"][0]["label"], str(rs[0]["fails"][0]["why"])[:200],
                          rs[0]["fails"][0]["kind"]]))
        break
else:
    print("null")
""" % HERE


def work(x):
    k, f, info, text, names = x
    w = f"/tmp/mutrun.{os.getpid()}"
    if not os.path.isdir(w):
        shutil.copytree("/repo", w, symlinks=True)
    keep = open(f"{w}/{f}").read()
    try:
        open(f"{w}/{f}", "w").write(text)
        try:
            if not tests_pass(w):
                return {**info, "file": f, "r": "tests"}
        except subprocess.TimeoutExpired:
            return {**info, "file": f, "r": "tests"}
        try:
            p = subprocess.run(["nice", "-n", "15", "python3-vt", "-c", VERIFY, *names], capture_output=True, text=True,
                               env={**os.environ, "VERIF_REPO": w}, timeout=700)
            r = json.loads(p.stdout.splitlines()[-1]) if p.stdout.strip() else ["engine", "", p.stderr[-200:], ""]
        except subprocess.TimeoutExpired:
            r = ["timeout"]
        return {**info, "file": f, "r": "missed" if r is None else r, "names": len(names)}
    finally:
        open(f"{w}/{f}", "w").write(keep)


def main():
    os.makedirs(OUT, exist_ok=True)
    import contracts
    b = OUT + "/base.json"
    if not os.path.exists(b):
        with multiprocessing.Pool(8) as pool:
            json.dump(list(pool.imap_unordered(base, list(contracts.BY_NAME))), open(b, "w"))
    B = json.load(open(b))
    used = set()
    for v in contracts.PROPS.values():
        used.update(v)
    files = sys.argv[2:] or sorted(os.path.relpath(os.path.join(d, f), "/repo") for d, _, fs in os.walk(
        "/repo/LnkParse3") for f in fs if f.endswith(".py"))
    todo = []
    for f in files:
        mod = f[:-3].replace("/", ".").removesuffix(".__init__")
        for info, text in mutants("/repo/" + f):
            full = mod + ("." + info["where"] if info["where"] else "")
            n = [(len(fs), s, c) for c, fs, s, ok in B if c in used and full in fs]
            if not n:
                n = [(len(fs), s, c) for c, fs, s, ok in B if c in used and any(
                    g.startswith(full + ".") for g in fs)]
            if not n:
                n = [(len(fs), s, c) for c, fs, s, ok in B if c in used and any(g.startswith(mod + ".") for g in fs)]
            n.sort()
            t, names = 0, []
            for _, s, c in n:
                t += s
                if t > 150 and names:
                    break
                names.append(c)
            todo.append((len(todo), f, info, text, names))
    done = set()
    if os.path.exists(OUT + "/out.jsonl"):
        for l in open(OUT + "/out.jsonl"):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["what"], d["old"], d["where"]))
    todo = [x for x in todo if (x[1], x[2]["line"], x[2]["what"], x[2]["old"], x[2]["where"]) not in done]
    random.Random(5).shuffle(todo)
    print(len(todo), "changes", flush=True)
    t = time.time()
    with multiprocessing.Pool(int(os.environ.get("JOBS", "6"))) as pool, open(OUT + "/out.jsonl", "a") as o:
        for i, r in enumerate(pool.imap_unordered(work, todo)):
            o.write(json.dumps(r) + "\n")
            o.flush()
            if i % 100 == 0:
                print(i, round(time.time() - t), flush=True)


if __name__ == "__main__":
    main()
