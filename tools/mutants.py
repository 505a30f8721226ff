#!/usr/bin/env python3
"""Small changes to the functions each property covers, and which its check misses.

mutants.py PROPERTY... [--max N per function] [--fn NAME] [--seed S]
Works on copies of /repo (or VX_REPO) under /tmp/mu; prints the survivors."""

import argparse
import ast
import copy
import os
import queue
import random
import shutil
import subprocess
import sys
import threading
import warnings

warnings.simplefilter('ignore')

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
FLIP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
        ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.Div: ast.Mult, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}


def covers(props):
    code = ("import sys,json,importlib,glob,os\nsys.path[0:0]=[%r]\nsys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')\n" % HERE +
            "from vx import harness as h\nfor f in sorted(glob.glob(%r)):\n    importlib.import_module('contracts.'+os.path.basename(f)[:-3])\n" % os.path.join(HERE, "contracts", "C*.py") +
            "print(json.dumps({p:sorted({x for c in cs for x in c.covers}) for p,cs in h.REGISTRY.items()}))")
    r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-c", code], capture_output=True, text=True, cwd=HERE)
    import json
    return json.loads(r.stdout.splitlines()[-1])


def locate(dotted):
    """(file, [qualified name parts])"""
    parts = dotted.split(".")
    for k in range(len(parts), 0, -1):
        f = os.path.join(REPO, "neutrinomass", *parts[:k]) + ".py"
        if os.path.exists(f):
            return os.path.relpath(f, REPO), parts[k:]
    return None, parts


def find(tree, parts):
    node = tree
    for p in parts:
        c = [n for n in ast.iter_child_nodes(node) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == p]
        if not c:
            return None
        node = c[-1]
    return node


def sites(fn):
    """Mutations as (description, function of the copied node list index)."""
    out = []
    docs = {id(n.value) for n in ast.walk(fn) if isinstance(n, ast.Expr)}
    for idx, n in enumerate(ast.walk(fn)):
        if id(n) in docs:
            continue
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare):
            for j, o in enumerate(n.ops):
                if type(o) in FLIP:
                    out.append((idx, ln, "cmp", j))
        elif isinstance(n, ast.BoolOp):
            out.append((idx, ln, "bool", 0))
            for j in range(len(n.values)):
                out.append((idx, ln, "boolop", j))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            out.append((idx, ln, "bin", 0))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            out.append((idx, ln, "unary", 0))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (bool, int, str)):
            if isinstance(n.value, str) and (len(n.value) > 40 or not n.value):
                continue
            out.append((idx, ln, "const", 0))
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "reversed", "set", "list", "tuple", "abs", "deepcopy") and len(n.args) >= 1:
                out.append((idx, ln, "uncall", 0))
            for j in range(len(n.keywords)):
                out.append((idx, ln, "kw", j))
        elif isinstance(n, (ast.If, ast.IfExp)):
            out.append((idx, ln, "iftrue", 0))
            out.append((idx, ln, "iffalse", 0))
        elif isinstance(n, ast.comprehension) and n.ifs:
            out.append((idx, n.ifs[0].lineno, "compif", 0))
        elif isinstance(n, (ast.Continue, ast.Break)):
            out.append((idx, ln, "pass", 0))
        if hasattr(n, "body") and isinstance(n.body, list):
            for f in ("body", "orelse"):
                for j, s in enumerate(getattr(n, f, []) or []):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    if isinstance(s, (ast.Expr, ast.AugAssign, ast.Assert)) or isinstance(s, ast.Assign) and not isinstance(s.targets[0], ast.Name):
                        out.append((idx, s.lineno, "del" + f, j))
    return out


def apply(fn, site):
    idx, ln, kind, j = site
    n = list(ast.walk(fn))[idx]
    if kind == "cmp":
        n.ops[j] = FLIP[type(n.ops[j])]()
    elif kind == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "boolop":
        del n.values[j]
        if len(n.values) == 1:
            n.op = ast.And()
    elif kind == "bin":
        n.op = BIN[type(n.op)]()
    elif kind == "const":
        n.value = (not n.value) if isinstance(n.value, bool) else n.value + 1 if isinstance(n.value, int) else "q" + n.value
    elif kind == "uncall":
        if n.func.id == "set":
            n.func = ast.Name("list", ast.Load())
        else:
            n.func = ast.Lambda(ast.arguments([], [ast.arg("x")], None, [], [], ast.arg("k"), []), ast.Name("x", ast.Load()))
    elif kind == "kw":
        del n.keywords[j]
    elif kind in ("iftrue", "iffalse"):
        n.test = ast.Constant(kind == "iftrue")
    elif kind == "compif":
        n.ifs = []
    elif kind == "pass":
        n.__class__ = ast.Pass
    elif kind == "unary":
        n.op = ast.UAdd() if isinstance(n.op, ast.USub) else None
        if n.op is None:  # not x -> bool(x)
            v = n.operand
            n.__class__ = ast.Call
            n.func, n.args, n.keywords = ast.Name("bool", ast.Load()), [v], []
    elif kind.startswith("del"):
        getattr(n, kind[3:])[j] = ast.copy_location(ast.Pass(), getattr(n, kind[3:])[j])


def main():
    p = argparse.ArgumentParser()
    p.add_argument("props", nargs="*")
    p.add_argument("--max", type=int, default=10)
    p.add_argument("--fn")
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--workers", type=int, default=4)
    a = p.parse_args()
    cov = covers(a.props)
    todo = []
    rnd = random.Random(a.seed)
    for prop in a.props or sorted(cov):
        for dotted in cov[prop]:
            if a.fn and a.fn not in dotted:
                continue
            f, parts = locate(dotted)
            if not f or not parts:
                continue
            src = open(os.path.join(REPO, f), encoding="utf-8").read()
            fn = find(ast.parse(src), parts)
            if fn is None:
                continue
            ss = sites(fn)
            rnd.shuffle(ss)
            for s in ss[: a.max]:
                tree = ast.parse(src)
                g = find(tree, parts)
                before = ast.unparse(g)
                apply(g, s)
                ast.fix_missing_locations(tree)
                try:
                    new = ast.unparse(tree)
                    after = ast.unparse(g)
                    compile(new, f, "exec")
                except Exception:
                    continue
                if before == after:
                    continue
                b, c = before.splitlines(), after.splitlines()
                d = [f"-{x.strip()}" for x in b if x not in c][:2] + [f"+{x.strip()}" for x in c if x not in b][:2]
                todo.append((prop, dotted, s, f, new, "  ".join(d)))
    print(len(todo), "mutants", flush=True)
    q = queue.Queue()
    for t in todo:
        q.put(t)
    count = {"caught": 0, "missed": 0, "odd": 0}

    def work(k):
        copy_ = f"/tmp/mu/w{os.getpid()}_{k}"
        shutil.copytree(REPO, copy_, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        try:
            while True:
                try:
                    prop, dotted, s, f, new, d = q.get_nowait()
                except queue.Empty:
                    return
                path = os.path.join(copy_, f)
                shutil.copy(os.path.join(REPO, f), path)
                old = open(path, encoding="utf-8").read()
                open(path, "w", encoding="utf-8").write(new)
                env = dict(os.environ, VX_REPO=copy_, VX_EVIDENCE=copy_ + ".ev", VERIF_SEED="1", VX_JOBS=str(max(2, 8 // a.workers)))
                try:
                    r = subprocess.run([os.path.join(HERE, "bin", "check"), prop, "--tier", "quick"], cwd=HERE, env=env, capture_output=True, text=True, timeout=600)
                    hit = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                    st = "caught" if hit and r.returncode == 1 else "missed" if r.returncode == 0 else "odd"
                except subprocess.TimeoutExpired:
                    st = "odd"
                    r = None
                open(path, "w", encoding="utf-8").write(old)
                count[st] += 1
                if st != "caught":
                    print(f"{st} {prop} {dotted}:{s[1]} {s[2]}: {d}", flush=True)
                    if st == "odd" and r is not None:
                        print("   ", r.returncode, (r.stdout + r.stderr)[-300:].replace("\n", " | "), flush=True)
        finally:
            shutil.rmtree(copy_, ignore_errors=True)
            shutil.rmtree(copy_ + ".ev", ignore_errors=True)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(a.workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    print(count, flush=True)


main()
