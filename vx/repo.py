"""Loading of /repo: as it is ('native'), or instrumented ('sym').

Nothing is copied or edited on disk.  neutrinomass/__init__.py imports the
database package, which unpickles a file (democratic.p) that is not in the
repository; so, as in /opt/vp/plugin/nm_scope.py, the packages neutrinomass and
neutrinomass.database are put in place without running their __init__.py, and
database/database.py is loaded up to the statements that read that file.
"""

import ast
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("VX_REPO", "/repo")
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")

BARE = ("neutrinomass", "neutrinomass.database")
DATA_NAMES = {"DATA", "EXOTICS", "TERMS", "MVDF"}
SPECIAL = {
    # statements dropped at load: they read democratic.p / exotics.p / terms.p
    "neutrinomass.database.database": DATA_NAMES,
}


def source(modname):
    base = os.path.join(REPO, *modname.split("."))
    for p in (base + ".py", os.path.join(base, "__init__.py")):
        if os.path.exists(p):
            with open(p, encoding="utf-8") as f:
                return p, f.read()
    raise ImportError(modname)


def _drop(tree, modname):
    drop = SPECIAL.get(modname, set())
    keep = []
    for s in tree.body:
        if isinstance(s, ast.Assign) and any(
            isinstance(t, ast.Name) and t.id in drop for t in s.targets
        ):
            continue
        keep.append(s)
    tree.body = keep
    return tree


class Loader(importlib.abc.Loader):
    def __init__(self, modname, path, sym):
        self.modname, self.path, self.sym = modname, path, sym

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        if self.modname in BARE:
            return
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        import warnings

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = _drop(ast.parse(src, self.path), self.modname)
            if self.sym:
                from vx.transform import Transform
                from vx.runtime import make_builtins

                tree = Transform(self.modname, self.sym == "ghost").visit(tree)
                ast.fix_missing_locations(tree)
                module.__dict__["__builtins__"] = make_builtins()
            code = compile(tree, self.path, "exec", dont_inherit=True)
        exec(code, module.__dict__)
        if self.sym:
            from vx import ghosts

            ghosts.patch(self.modname, module)
        if self.modname == "neutrinomass.database.closures":
            pkg = sys.modules["neutrinomass.database"]
            for n in ("neutrino_mass_estimate", "numerical_np_scale_estimate", "numerical_mv"):
                if hasattr(module, n):
                    setattr(pkg, n, getattr(module, n))


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, sym):
        self.sym = sym

    def find_spec(self, name, path=None, target=None):
        if name != "neutrinomass" and not name.startswith("neutrinomass."):
            return None
        base = os.path.join(REPO, *name.split("."))
        if os.path.isdir(base):
            p = os.path.join(base, "__init__.py")
            spec = importlib.machinery.ModuleSpec(
                name, Loader(name, p, self.sym), origin=p, is_package=True
            )
            spec.submodule_search_locations = [base]
        else:
            p = base + ".py"
            if not os.path.exists(p):
                return None
            spec = importlib.machinery.ModuleSpec(name, Loader(name, p, self.sym), origin=p)
        spec.has_location = True
        return spec


class World:
    """One loaded instance of the package: False native, True instrumented,
    "ghost" instrumented with the assumed interface of sympy's tensors."""

    def __init__(self, sym):
        self.sym = sym
        self.finder = Finder(sym)
        self.modules = {}
        self.active = 0

    def __enter__(self):
        if self.active == 0:
            self.saved = {
                k: v
                for k, v in sys.modules.items()
                if k == "neutrinomass" or k.startswith("neutrinomass.")
            }
            for k in self.saved:
                del sys.modules[k]
            sys.modules.update(self.modules)
            sys.meta_path.insert(0, self.finder)
        self.active += 1
        return self

    def __exit__(self, *a):
        self.active -= 1
        if self.active == 0:
            self.modules = {
                k: v
                for k, v in sys.modules.items()
                if k == "neutrinomass" or k.startswith("neutrinomass.")
            }
            for k in self.modules:
                del sys.modules[k]
            sys.modules.update(self.saved)
            sys.meta_path.remove(self.finder)

    def mod(self, name):
        with self:
            return importlib.import_module("neutrinomass." + name if name else "neutrinomass")


_worlds = {}


def world(sym):
    if sym not in _worlds:
        _worlds[sym] = World(sym)
    return _worlds[sym]
