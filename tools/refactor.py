#!/usr/bin/env python3
"""Edits that keep the behaviour, made to every function of the package at once:
the checks have to stay quiet on them.

refactor.py KIND [ID ...]   KIND: rename, result, invert, helper, comp, loopcomp, guard, early, all
Works on a copy of /repo (or VX_REPO) under /tmp/rf; prints the checks that are not quiet."""

import ast
import glob
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
FILES = ["tensormethod/*.py", "completions/*.py", "database/*.py", "utils/*.py"]
FN = (ast.FunctionDef,)


def own(node):
    """Nodes of a function, not those of functions and classes inside it."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


def locals_of(f):
    """Names bound by plain assignment, not parameters, not shared with inner scopes."""
    if any(isinstance(x, ast.Name) and x.id in ("eval", "exec", "locals") for x in ast.walk(f)):
        return set()
    args = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs}
    if f.args.vararg:
        args.add(f.args.vararg.arg)
    if f.args.kwarg:
        args.add(f.args.kwarg.arg)
    bad = {n for x in ast.walk(f) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
    for x in ast.walk(f):
        if x is not f and isinstance(x, (ast.FunctionDef, ast.Lambda)):
            bad |= {a.arg for a in x.args.args}
            if isinstance(x, ast.FunctionDef):
                bad.add(x.name)
    got = {x.id for x in own(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    return got - args - bad


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        names = {n: n + "_value" for n in locals_of(f)}

        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                n.id = names.get(n.id, n.id)
                return n

        f.body = [R().visit(s) for s in f.body]
        return self.generic_visit(f)


class Result(ast.NodeTransformer):
    def visit_Lambda(self, n):
        return n

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        return [ast.Assign([ast.Name("the_result", ast.Store())], n.value), ast.Return(ast.Name("the_result", ast.Load()))]


class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class Helper(ast.NodeTransformer):
    """Every module-level function becomes a call of a helper with its body."""

    def visit_Module(self, m):
        out = []
        for n in m.body:
            if isinstance(n, ast.FunctionDef) and not n.decorator_list and not n.args.posonlyargs:
                h = ast.FunctionDef("_do_" + n.name, ast.arguments(posonlyargs=[], args=[ast.arg(a.arg) for a in n.args.args + n.args.kwonlyargs], kwonlyargs=[], kw_defaults=[], defaults=[],
                                                                   vararg=n.args.vararg, kwarg=n.args.kwarg), n.body, [])
                if n.args.vararg:
                    out.append(n)
                    continue
                out.append(h)
                call = ast.Call(ast.Name("_do_" + n.name, ast.Load()), [ast.Name(a.arg, ast.Load()) for a in n.args.args + n.args.kwonlyargs],
                                [ast.keyword(None, ast.Name(n.args.kwarg.arg, ast.Load()))] if n.args.kwarg else [])
                n = ast.FunctionDef(n.name, n.args, ([n.body[0]] if ast.get_docstring(n) else []) + [ast.Return(call)], [], n.returns)
            out.append(n)
        m.body = out
        return m


class Comp(ast.NodeTransformer):
    """x = [f(a) for a in b if c] becomes a loop that appends."""

    def visit_Assign(self, n):
        v = n.value
        if (isinstance(v, ast.ListComp) and len(v.generators) == 1 and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name)
                and not self.uses(v, n.targets[0].id) and self.depth):
            g = v.generators[0]
            body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(n.targets[0].id, ast.Load()), "append", ast.Load()), [v.elt], []))]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            ren = {x.id: x.id + "_it" for x in ast.walk(g.target) if isinstance(x, ast.Name)}

            class R(ast.NodeTransformer):
                def visit_Name(self, q):
                    q.id = ren.get(q.id, q.id)
                    return q

            it = g.iter
            loop = ast.For(R().visit(g.target), it, [R().visit(b) for b in body], [])
            return [ast.Assign([n.targets[0]], ast.List([], ast.Load())), loop]
        return n

    depth = 0

    def uses(self, v, name):
        return any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(v)) or any(isinstance(x, ast.Lambda) for x in ast.walk(v))

    def visit_FunctionDef(self, f):
        self.depth += 1
        self.generic_visit(f)
        self.depth -= 1
        return f

    def visit_ClassDef(self, c):
        d, self.depth = self.depth, 0
        self.generic_visit(c)
        self.depth = d
        return c


class LoopComp(ast.NodeTransformer):
    """A loop that only appends becomes a comprehension."""

    def block(self, stmts):
        out, k = [], 0
        while k < len(stmts):
            s, n = stmts[k], stmts[k + 1] if k + 1 < len(stmts) else None
            if (isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)
                    and isinstance(n, ast.For) and not n.orelse and len(n.body) == 1):
                name, b, ifs = s.targets[0].id, n.body[0], []
                while isinstance(b, ast.If) and not b.orelse and len(b.body) == 1:
                    ifs.append(b.test)
                    b = b.body[0]
                if (isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and b.value.func.attr == "append"
                        and isinstance(b.value.func.value, ast.Name) and b.value.func.value.id == name
                        and not any(isinstance(x, ast.Name) and x.id == name for y in [n.iter, *ifs, *b.value.args] for x in ast.walk(y))
                        and not any(isinstance(x, ast.Name) and x.id in {t.id for t in ast.walk(n.target) if isinstance(t, ast.Name)} for y in stmts[k + 2:] for x in ast.walk(y))):
                    out.append(ast.Assign([s.targets[0]], ast.ListComp(b.value.args[0], [ast.comprehension(n.target, n.iter, ifs, 0)])))
                    k += 2
                    continue
            out.append(s)
            k += 1
        return out

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            if isinstance(getattr(n, f, None), list):
                setattr(n, f, self.block(getattr(n, f)))
        return n


class Guard(ast.NodeTransformer):
    """for x in xs: if c: A   becomes   for x in xs: if not c: continue; A"""

    def visit_For(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
            i = n.body[0]
            n.body = [ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Continue()], []), *i.body]
        return n


class Early(ast.NodeTransformer):
    """if c: return A; rest   becomes   if c: return A else: rest"""

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        for k, s in enumerate(f.body[:-1]):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                s.orelse, f.body = f.body[k + 1:], f.body[:k + 1]
                break
        return f


KINDS = {"rename": Rename, "result": Result, "invert": Invert, "helper": Helper, "comp": Comp, "loopcomp": LoopComp, "guard": Guard, "early": Early}


def make(kinds, dst):
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(REPO, dst, symlinks=True)
    for pat in FILES:
        for p in glob.glob(os.path.join(dst, "neutrinomass", pat)):
            if p.endswith("_test.py") or "/tests/" in p:
                continue
            t = ast.parse(open(p, encoding="utf-8").read())
            for k in kinds:
                t = ast.fix_missing_locations(KINDS[k]().visit(t))
            open(p, "w", encoding="utf-8").write(ast.unparse(t) + "\n")


def run(dst, pid):
    env = dict(os.environ, VX_REPO=dst, VX_EVIDENCE=os.path.join(dst + ".ev", pid), VERIF_SEED="1")
    r = subprocess.run([os.path.join(HERE, "bin", "check"), pid, "--tier", "quick"], cwd=HERE, env=env, capture_output=True, text=True, timeout=1800)
    und = [l for l in r.stdout.splitlines() if "undecided" in l or "VIOL" in l or "error" in l.lower()]
    return pid, r.returncode, und


if __name__ == "__main__":
    kinds = list(KINDS) if sys.argv[1] == "all" else sys.argv[1].split(",")
    dst = f"/tmp/rf/{'_'.join(kinds)[:40]}{os.getpid()}"
    make(kinds, dst)
    ids = sys.argv[2:] or sorted({os.path.basename(p)[:3] for p in glob.glob(os.path.join(HERE, "contracts", "C*.py"))})
    with ThreadPoolExecutor(3) as ex:
        for pid, rc, und in ex.map(lambda i: run(dst, i), ids):
            print(pid, "quiet" if rc == 0 else f"NOT QUIET rc={rc}", *und[:6], sep="\n    " if und else " ", flush=True)
    shutil.rmtree(dst)
    shutil.rmtree(dst + ".ev", ignore_errors=True)
