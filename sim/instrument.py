"""Loads the package under test from the repository's working tree, with simulation points.

Every function body of every module of the package is compiled with a call to the simulator
before each statement, after each call, and after each attribute or subscript read.  Nothing else
is changed: the real code runs, the simulator only gets control (to switch threads, to raise an
asynchronous exception, to count steps) at these points.  The repository is not modified.

A "world" is a fresh execution of all modules (a fresh process as far as module state goes).
"""
import ast
import importlib
import importlib.abc
import importlib.machinery
import os
import sys

PKG = "planegeometry"


def repo_root():
    return os.environ.get("VERIF_REPO", "/repo")


class _Points(ast.NodeTransformer):
    def __init__(self, table, modname):
        self.table = table
        self.mod = modname
        self.depth = 0          # >0 inside a function body

    def site(self, node, kind):
        self.table.append((self.mod, getattr(node, "lineno", 0), kind))
        return len(self.table) - 1

    # -- statements
    def _stmt_point(self, node):
        e = ast.Expr(ast.Call(ast.Name("__sim_s__", ast.Load()),
                              [ast.Constant(self.site(node, "s"))], []))
        ast.copy_location(e, node)
        for sub in ast.walk(e):
            ast.copy_location(sub, node)
        return e

    def _body(self, stmts):
        out = []
        for st in stmts:
            if self.depth:
                plain = isinstance(st, (ast.Global, ast.Nonlocal, ast.ImportFrom)) and \
                    not isinstance(st, ast.ImportFrom)
                doc = isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)
                if not plain and not doc:
                    out.append(self._stmt_point(st))
            out.append(self.visit(st))
        return out

    def generic_visit(self, node):
        for field, old in ast.iter_fields(node):
            if field in ("body", "orelse", "finalbody") and isinstance(old, list) and old \
                    and isinstance(old[0], ast.stmt):
                setattr(node, field, self._body(old))
            elif isinstance(old, list):
                new = []
                for v in old:
                    new.append(self.visit(v) if isinstance(v, ast.AST) else v)
                old[:] = new
            elif isinstance(old, ast.AST):
                setattr(node, field, self.visit(old))
        return node

    def _func(self, node):
        # decorators, defaults and annotations belong to the enclosing scope: leave them alone
        self.depth += 1
        node.body = self._body(node.body)
        self.depth -= 1
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        node.body = [self.visit(s) for s in node.body]
        self.depth = d
        return node

    def visit_Lambda(self, node):
        self.depth += 1
        node.body = self.visit(node.body)
        self.depth -= 1
        return node

    # -- expressions
    def _wrap(self, node, kind):
        if not self.depth:
            return node
        new = ast.Call(ast.Name("__sim_v__", ast.Load()),
                       [node, ast.Constant(self.site(node, kind))], [])
        ast.copy_location(new, node)
        ast.copy_location(new.func, node)
        ast.copy_location(new.args[1], node)
        return new

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute):
            f.value = self.visit(f.value)
        elif not isinstance(f, ast.Name):
            node.func = self.visit(f)
        node.args = [self.visit(a) for a in node.args]
        for k in node.keywords:
            k.value = self.visit(k.value)
        return self._wrap(node, "c")

    def visit_Attribute(self, node):
        node.value = self.visit(node.value)
        return self._wrap(node, "a") if isinstance(node.ctx, ast.Load) else node

    def visit_Subscript(self, node):
        node.value = self.visit(node.value)
        node.slice = self.visit(node.slice)
        return self._wrap(node, "i") if isinstance(node.ctx, ast.Load) else node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_JoinedStr(self, node):
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return node


class Package:
    """Compiled (instrumented) modules of the package under test."""

    def __init__(self, instrumented=True, root=None):
        self.root = root or repo_root()
        self.sites = [("<sim>", 0, "out"), ("<sim>", 0, "rng"), ("<sim>", 0, "lock"), ("<sim>", 0, "io")]
        self.codes, self.trees = {}, {}
        self.optimized = {}     # (module, level) -> code, as under -O / -OO
        self.optimize = None
        base = os.path.join(self.root, PKG)
        for dirpath, dirs, files in os.walk(base):
            dirs.sort()
            dirs[:] = [d for d in dirs if d != "__pycache__"]
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dirpath, f)
                rel = os.path.relpath(path, self.root)[:-3].replace(os.sep, ".")
                is_pkg = rel.endswith(".__init__")
                name = rel[:-9] if is_pkg else rel
                with open(path, "rb") as fh:
                    src = fh.read()
                tree = ast.parse(src, path)
                if instrumented:
                    t = _Points(self.sites, name)
                    tree.body = [t.visit(s) for s in tree.body]
                    ast.fix_missing_locations(tree)
                self.trees[name] = tree
                self.codes[name] = (compile(tree, path, "exec"), is_pkg, path)
        self.n_sites = len(self.sites)
        self.stmt_sites = [i for i, s in enumerate(self.sites) if s[2] == "s"]


    def code(self, name):
        if self.optimize is None:
            return self.codes[name][0]
        key = (name, self.optimize)
        if key not in self.optimized:
            self.optimized[key] = compile(self.trees[name], self.codes[name][2], "exec", optimize=self.optimize)
        return self.optimized[key]


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, package, s, v, names):
        self.package, self.s, self.v, self.names = package, s, v, names

    def find_spec(self, name, path=None, target=None):
        ent = self.package.codes.get(name)
        if ent is None:
            return None
        spec = importlib.machinery.ModuleSpec(name, self, origin=ent[2], is_package=ent[1])
        if ent[1]:
            spec.submodule_search_locations = [os.path.dirname(ent[2])]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = self.package.code(module.__name__)
        module.__file__ = self.package.codes[module.__name__][2]
        module.__dict__["__sim_s__"] = self.s
        module.__dict__["__sim_v__"] = self.v
        module.__dict__.update(self.names)
        exec(code, module.__dict__)


_installed = None


def install(package, s, v, names=None):
    global _installed
    _installed = _Finder(package, s, v, names or {})
    sys.meta_path.insert(0, _installed)


def _ours(name):
    return name == PKG or name.startswith(PKG + ".")


class World:
    """A fresh execution of all modules of the package (no module state shared with other worlds)."""

    current = None
    importing = False

    def __init__(self, optimize=None):
        """optimize: the code as under python -O (1) or -OO (2)."""
        World.deactivate()
        _installed.package.optimize = optimize
        World.importing = True
        try:
            importlib.import_module(PKG + ".geometry")
        finally:
            World.importing = False
            _installed.package.optimize = None
        self.modules = {k: m for k, m in sys.modules.items() if _ours(k)}
        self.g = self.modules[PKG + ".geometry"]
        World.current = self

    @staticmethod
    def deactivate():
        for k in [k for k in sys.modules if _ours(k)]:
            del sys.modules[k]
        World.current = None

    def activate(self):
        if World.current is not self:
            if World.current is not None:   # keep modules imported lazily while it was active
                World.current.modules = {k: m for k, m in sys.modules.items() if _ours(k)}
            World.deactivate()
            sys.modules.update(self.modules)
            World.current = self
        return self
