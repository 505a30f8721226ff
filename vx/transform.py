"""The mechanical rewriting of /repo's source before symbolic execution.

Every statement and expression of the original is kept; what changes is which
runtime entry points it goes through, so that symbolic values get a say:

  f"..."             -> _vx_fmt(...)            (str.__format__ must return str)
  "lit".join(x)      -> _vx_join("lit", x)
  "lit" % x          -> _vx_mod("lit", x)
  a in b             -> _vx_in(a, b)
  a[b] (load)        -> _vx_get(a, b)
  [e for t in it]    -> natively, unless ``it`` is unbounded
  for t in it: body  -> natively, unless ``it`` is unbounded (then the loop rule)
  str, int, len, ... -> the builtins of vx.runtime, through ``__builtins__``

On concrete values each entry point does exactly what Python does;
'bin/conformance' runs the contracts both ways and compares.
"""

import ast

SKIP_FUNCS = set()


class Own(ast.NodeTransformer):
    """The yields of a function, not those of functions inside it."""

    def __init__(self):
        self.n, self.odd = 0, False

    def visit_FunctionDef(self, node):
        return node

    visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Expr(self, node):
        if isinstance(node.value, (ast.Yield, ast.YieldFrom)):
            self.n += 1
            meth = "append" if isinstance(node.value, ast.Yield) else "extend"
            arg = node.value.value or ast.Constant(None)
            return ast.Expr(ast.Call(ast.Attribute(ast.Name("yielded__", ast.Load()), meth, ast.Load()), [arg], []))
        return self.generic_visit(node)

    def visit_Yield(self, node):
        self.odd = True
        return node

    visit_YieldFrom = visit_Yield

    def visit_Return(self, node):
        self.n += 0
        return ast.Return(call("_vx_iter", ast.Name("yielded__", ast.Load())))


def eager(node):
    """A generator function as one that runs to its end and gives an iterator over
    what it yielded (laziness is dropped; see DESIGN.md)."""
    import copy

    own = Own()
    body = [own.visit(copy.deepcopy(s)) for s in node.body]
    if not own.n or own.odd:
        return
    node.body = (
        [ast.Assign([ast.Name("yielded__", ast.Store())], ast.List([], ast.Load()))]
        + body
        + [ast.Return(call("_vx_iter", ast.Name("yielded__", ast.Load())))]
    )


class Mutated(ast.NodeVisitor):
    METHODS = {
        "append", "add", "update", "pop", "extend", "insert", "remove",
        "setdefault", "discard", "clear", "sort", "reverse",
    }

    def __init__(self):
        self.names = []
        self.roots = []

    def name(self, n):
        if n not in self.names and not n.startswith("_vx"):
            self.names.append(n)

    def root(self, node):
        if isinstance(node, (ast.Name, ast.Attribute)):
            s = ast.unparse(node)
            if s not in self.roots:
                self.roots.append(s)
        elif isinstance(node, ast.Subscript):
            self.root(node.value)

    def visit_Name(self, node):
        if isinstance(node.ctx, ast.Store):
            self.name(node.id)

    def visit_Call(self, node):
        if isinstance(node.func, ast.Attribute) and node.func.attr in self.METHODS:
            self.root(node.func.value)
        self.generic_visit(node)

    def visit_Subscript(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.root(node.value)
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Name):
            self.name(node.target.id)
            self.root(node.target)
        self.generic_visit(node)

    def visit_Attribute(self, node):
        if isinstance(node.ctx, ast.Store):
            self.root(node)
        self.generic_visit(node)

    def visit_FunctionDef(self, node):
        self.name(node.name)

    def visit_Lambda(self, node):
        pass

    def visit_ListComp(self, node):
        for g in node.generators:
            self.visit(g.iter)

    visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp


def call(name, *args):
    return ast.Call(ast.Name(name, ast.Load()), list(args), [])


def local_names(fn):
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    outer = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store):
                out.add(n.id)

        def visit_Global(self, n):
            outer.update(n.names)

        visit_Nonlocal = visit_Global

        def visit_FunctionDef(self, n):
            out.add(n.name)

        visit_ClassDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

    for s in fn.body:
        V().visit(s)
    return out - outer


class Transform(ast.NodeTransformer):
    def __init__(self, modname, ghost=False):
        self.modname = modname
        self.ghost = ghost
        self.n = 0
        self.func = []
        self.locals = []
        self.whiles = []

    def fresh(self, p):
        self.n += 1
        return f"_vx_{p}{self.n}"

    # sympy's tensors, in the ghost world only ------------------------------------
    def visit_Import(self, node):
        if self.ghost:
            out = []
            for a in node.names:
                if a.name == "sympy.tensor.tensor":
                    assert a.asname
                    out.append(ast.Assign([ast.Name(a.asname, ast.Store())], call("_vx_tensor")))
                else:
                    out.append(ast.Import([a]))
            return out
        return node

    def visit_ImportFrom(self, node):
        if self.ghost and node.module == "sympy.tensor.tensor":
            return [
                ast.Assign(
                    [ast.Name(a.asname or a.name, ast.Store())],
                    ast.Attribute(call("_vx_tensor"), a.name, ast.Load()),
                )
                for a in node.names
            ]
        return node

    # strings -----------------------------------------------------------------
    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                s = ast.Constant(None) if spec is None else self.visit(spec)
                parts.append(
                    ast.Tuple(
                        [self.visit(v.value), ast.Constant(v.conversion), s], ast.Load()
                    )
                )
        return call("_vx_fmt", *parts)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id == "eval" and len(node.args) == 1 and not node.keywords and self.func:
            return call("_vx_eval", node.args[0], ast.Call(ast.Name("globals", ast.Load()), [], []), ast.Call(ast.Name("locals", ast.Load()), [], []))
        if (
            isinstance(f, ast.Attribute)
            and f.attr == "join"
            and len(node.args) == 1
            and not node.keywords
            and isinstance(f.value, (ast.Constant, ast.Name))
        ):
            return call("_vx_join", f.value, node.args[0])
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return call("_vx_mod", node.left, node.right)
        return node

    # containers --------------------------------------------------------------
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = call("_vx_in", node.left, node.comparators[0])
            return ast.UnaryOp(ast.Not(), r) if isinstance(node.ops[0], ast.NotIn) else r
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and self.func and not isinstance(node.slice, ast.Slice):
            return call("_vx_get", node.value, node.slice)
        return node

    # annotations and defaults stay as they are
    def visit_arg(self, node):
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_FunctionDef(self, node):
        eager(node)
        node.decorator_list = list(node.decorator_list)
        self.func.append(node)
        self.locals.append(local_names(node))
        self.whiles.append(0)
        node.body = self.block(node.body)
        node.args.defaults = [d for d in node.args.defaults]
        self.func.pop()
        self.locals.pop()
        self.whiles.pop()
        if node.name == "__hash__":
            node.decorator_list.append(ast.Name("_vx_hashm", ast.Load()))
        return node

    def visit_Lambda(self, node):
        self.func.append(node)
        node.body = self.visit(node.body)
        self.func.pop()
        return node

    def block(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    # comprehensions ----------------------------------------------------------
    def comp(self, node, kind):
        g0 = node.generators[0]
        simple = len(node.generators) == 1 and not g0.is_async
        node = self.generic_visit(node)
        if not self.func or not simple:
            return node
        g0 = node.generators[0]
        t = self.fresh("t")
        if isinstance(node, ast.DictComp):
            elt = ast.Tuple([node.key, node.value], ast.Load())
        else:
            elt = node.elt
        cond = ast.Constant(True)
        if g0.ifs:
            cond = g0.ifs[0] if len(g0.ifs) == 1 else ast.BoolOp(ast.And(), list(g0.ifs))

        def lam(body):
            # (lambda t: [body for T in (t,)][0])
            inner = ast.ListComp(
                body,
                [
                    ast.comprehension(
                        g0.target,
                        ast.Tuple([ast.Name(t, ast.Load())], ast.Load()),
                        [],
                        0,
                    )
                ],
            )
            return ast.Lambda(
                ast.arguments([], [ast.arg(t)], None, [], [], None, []),
                ast.Subscript(inner, ast.Constant(0), ast.Load()),
            )

        has_cond = ast.Constant(bool(g0.ifs))
        it = self.fresh("it")
        native = type(node)(
            **{
                **{
                    k: getattr(node, k)
                    for k in node._fields
                    if k not in ("generators",)
                },
                "generators": [
                    ast.comprehension(g0.target, ast.Name(it, ast.Load()), g0.ifs, 0)
                ],
            }
        )
        # (lambda it: native if conc(it) else comp(kind, it, cond, elt))(ITER)
        return ast.Call(
            ast.Lambda(
                ast.arguments([], [ast.arg(it)], None, [], [], None, []),
                ast.IfExp(
                    call("_vx_conc", ast.Name(it, ast.Load())),
                    native,
                    call(
                        "_vx_comp",
                        ast.Constant(kind),
                        ast.Name(it, ast.Load()),
                        has_cond,
                        lam(cond),
                        lam(elt),
                    ),
                ),
            ),
            [g0.iter],
            [],
        )

    def visit_ListComp(self, node):
        return self.comp(node, "list")

    def visit_SetComp(self, node):
        return self.comp(node, "set")

    def visit_GeneratorExp(self, node):
        return self.comp(node, "gen")

    def visit_DictComp(self, node):
        return self.comp(node, "dict")

    # loops -------------------------------------------------------------------
    def changed(self, m, target=()):
        """Variables a loop body changes: assigned, or changed in place (those that
        are local are bound anew as well), and attributes."""
        loc = self.locals[-1] if self.locals else set()
        names = [n for n in m.names if n not in target]
        names += [r for r in m.roots if r not in names and r in loc and r not in target]
        roots = [r for r in m.roots if r not in names and r.split(".")[0] not in target]
        return names, roots

    def getters(self, names):
        return ast.Dict(
            [ast.Constant(n) for n in names],
            [
                ast.Lambda(ast.arguments([], [], None, [], [], None, []), ast.parse(n, mode="eval").body)
                for n in names
            ],
        )

    def visit_While(self, node):
        m = Mutated()
        for s in node.body:
            m.visit(s)
        m.visit(node.test)
        names, roots = self.changed(m)
        loc = self.locals[-1] if self.locals else set()
        reads = sorted({x.id for b in [node.test] + node.body for x in ast.walk(b) if isinstance(x, ast.Name)} & loc - set(names))
        order = self.whiles[-1] if self.whiles else 0
        if self.whiles:
            self.whiles[-1] += 1
        node.test = self.visit(node.test)
        node.body = self.block(node.body)
        if not self.func or node.orelse or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for b in node.body for x in ast.walk(b)):
            node.orelse = self.block(node.orelse)
            return node
        st = self.fresh("ws")
        site = f"{self.modname}:{'.'.join(getattr(f, 'name', '<lambda>') for f in self.func)}"

        def meth(name, *a):
            return ast.Call(ast.Attribute(ast.Name(st, ast.Load()), name, ast.Load()), list(a), [])

        def tup():
            return ast.Tuple([ast.Constant(n) for n in names], ast.Load())

        every = names + [r for r in roots if r not in reads] + reads
        head = meth("head", tup(), self.getters(every))
        asg = ast.Assign([ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())], head) if names else ast.Expr(head)
        active = ast.Attribute(ast.Name(st, ast.Load()), "active", ast.Load())
        setup = ast.Assign([ast.Name(st, ast.Store())], call("_vx_while", ast.Constant(site), ast.Constant(order)))
        body = [
            ast.If(active, [asg], []),
            ast.If(ast.UnaryOp(ast.Not(), node.test), [ast.Expr(meth("leave")), ast.Break()], []),
            ast.Expr(meth("enter")),
        ] + node.body
        return [setup, ast.While(meth("go", tup(), self.getters(every)), body, [])]

    def visit_For(self, node):
        m = Mutated()
        for s in node.body:
            m.visit(s)
        tm = Mutated()
        tm.visit(node.target)
        names, roots = self.changed(m, tm.names)
        node.iter = self.visit(node.iter)
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse)
        if not self.func or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for b in node.body for x in ast.walk(b)):
            return node
        st = self.fresh("st")

        def getters():
            return self.getters(names + roots)

        def havoc(meth):
            c = ast.Call(
                ast.Attribute(ast.Name(st, ast.Load()), meth, ast.Load()),
                [ast.Tuple([ast.Constant(n) for n in names], ast.Load()), getters()],
                [],
            )
            if names:
                asg = ast.Assign(
                    [ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())], c
                )
            else:
                asg = ast.Expr(c)
            test = ast.Attribute(ast.Name(st, ast.Load()), "active", ast.Load())
            return ast.If(test, [asg], [])

        setup = ast.Assign(
            [ast.Name(st, ast.Store())],
            call(
                "_vx_for",
                node.iter,
                ast.Constant(f"{self.modname}:{'.'.join(getattr(f, 'name', '<lambda>') for f in self.func)}"),
            ),
        )
        node.iter = ast.Name(st, ast.Load())
        node.body = [havoc("head")] + node.body
        node.orelse = [havoc("exit")] + node.orelse
        return [setup, node]


