"""Program model: parses every non-test module of the analysed package and resolves names.

Nothing from the analysed repository is imported or executed; everything is derived from the
syntax trees of the files found in the working tree at the time of the run.
"""
from __future__ import annotations

import ast
import hashlib
import os
from typing import Dict, List, Optional, Tuple

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "riptable"
EXCLUDE_DIRS = {"tests", "hypothesis_tests", "test_tooling_integration", "benchmarks", "__pycache__"}


class AnalysisBroken(Exception):
    """An anchor vanished or the analysis cannot be carried out: neither a pass nor a violation."""


class FuncInfo:
    __slots__ = ("name", "qual", "node", "module", "cls", "kind", "parent", "decorators", "_assigned", "_isgen")

    def __init__(self, name, qual, node, module, cls=None, kind="func", parent=None, decorators=()):
        self.name = name
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls
        self.kind = kind  # func | method | static | class | property | setter
        self.parent = parent
        self.decorators = decorators
        self._isgen = None

    @property
    def file(self):
        return self.module.relpath

    @property
    def loc(self):
        return f"{self.module.relpath}:{self.node.lineno}"

    def is_generator(self):
        if self._isgen is None:
            self._isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(self.node))
        return self._isgen

    def params(self):
        a = self.node.args
        return [p.arg for p in a.posonlyargs + a.args] + [p.arg for p in a.kwonlyargs]

    def __repr__(self):
        return f"<Func {self.qual}>"


def walk_own(fnode):
    """Walk a function's own nodes, not nested function/class bodies."""
    stack = list(fnode.body) if isinstance(fnode.body, list) else [fnode.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class ClassInfo:
    def __init__(self, name, node, module):
        self.name = name
        self.qual = f"{module.name}.{name}"
        self.node = node
        self.module = module
        self.base_exprs = node.bases
        self.bases: List[object] = []  # ClassInfo | str (external dotted)
        self.methods: Dict[str, FuncInfo] = {}
        self.setters: Dict[str, FuncInfo] = {}
        self.attrs: Dict[str, ast.AST] = {}  # class-level assignments (last one)
        self.subclasses: List["ClassInfo"] = []
        self._mro = None

    @property
    def mro(self) -> List[object]:
        if self._mro is None:
            out = []

            def add(c):
                if c not in out:
                    out.append(c)
                    if isinstance(c, ClassInfo):
                        for b in c.bases:
                            add(b)

            # left-to-right depth first with late placement of shared bases (enough for this repo)
            seqs = []

            def lin(c):
                if not isinstance(c, ClassInfo):
                    return [c]
                parents = [lin(b) for b in c.bases]
                return [c] + _merge(parents + [list(c.bases)])

            try:
                out = lin(self)
            except ValueError:
                add(self)
            self._mro = out
        return self._mro

    def find(self, name) -> Optional[FuncInfo]:
        for c in self.mro:
            if isinstance(c, ClassInfo) and name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, name):
        for c in self.mro:
            if isinstance(c, ClassInfo) and name in c.setters:
                return c.setters[name]
        return None

    def find_attr(self, name):
        for c in self.mro:
            if isinstance(c, ClassInfo) and name in c.attrs:
                return c, c.attrs[name]
        return None

    def lookup(self, name):
        """first definition in mro: ('m', FuncInfo) | ('a', ClassInfo, node) | None"""
        for c in self.mro:
            if isinstance(c, ClassInfo):
                if name in c.methods:
                    return ("m", c.methods[name])
                if name in c.attrs:
                    return ("a", c, c.attrs[name])
        return None

    def is_subclass_of(self, other) -> bool:
        return other in self.mro

    def all_subclasses(self):
        out = []
        todo = [self]
        while todo:
            c = todo.pop()
            for s in c.subclasses:
                if s not in out:
                    out.append(s)
                    todo.append(s)
        return out

    def __repr__(self):
        return f"<Class {self.qual}>"


def _merge(seqs):
    res = []
    seqs = [list(s) for s in seqs if s]
    while seqs:
        for s in seqs:
            cand = s[0]
            if not any(cand in t[1:] for t in seqs):
                break
        else:
            raise ValueError("inconsistent MRO")
        res.append(cand)
        for s in seqs:
            if s and s[0] == cand:
                del s[0]
        seqs = [s for s in seqs if s]
    return res


class ModuleInfo:
    def __init__(self, name, path, relpath, src, tree):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.src = src
        self.tree = tree
        self.imports: Dict[str, Tuple] = {}
        self.funcs: Dict[str, FuncInfo] = {}
        self.classes: Dict[str, ClassInfo] = {}
        self.assigns: Dict[str, List[ast.AST]] = {}
        self.is_pkg = os.path.basename(path) == "__init__.py"

    def __repr__(self):
        return f"<Module {self.name}>"


class Program:
    def __init__(self, repo=REPO):
        self.repo = repo
        self.modules: Dict[str, ModuleInfo] = {}
        self.classes_by_name: Dict[str, List[ClassInfo]] = {}
        self.all_funcs: Dict[str, FuncInfo] = {}
        self.registry: Dict[str, ClassInfo] = {}
        self.digest = hashlib.sha256()
        self._load()
        self._resolve_bases()
        self._index_registry()

    # ---------------------------------------------------------------- loading
    def _load(self):
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken(f"package directory {root} not found")
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d not in EXCLUDE_DIRS)
            for f in sorted(fn):
                if not f.endswith(".py") or f == "conftest.py":
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, self.repo)
                mod = rel[:-3].replace(os.sep, ".")
                if mod.endswith(".__init__"):
                    mod = mod[: -len(".__init__")]
                with open(path, encoding="utf-8-sig") as fh:
                    src = fh.read()
                self.digest.update(rel.encode() + b"\0" + src.encode() + b"\0")
                try:
                    tree = ast.parse(src, filename=rel)
                except SyntaxError as e:
                    raise AnalysisBroken(f"cannot parse {rel}: {e}")
                m = ModuleInfo(mod, path, rel, src, tree)
                self.modules[mod] = m
        for m in self.modules.values():
            self._index_module(m)

    def _index_module(self, m: ModuleInfo):
        self._index_body(m, m.tree.body)

    def _index_body(self, m, body):
        for n in body:
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                self.index_import(m, n, m.imports)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._add_func(m, n, f"{m.name}.{n.name}", None, m.funcs)
            elif isinstance(n, ast.ClassDef):
                self._add_class(m, n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        m.assigns.setdefault(t.id, []).append(n.value)
                    elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                        m.assigns.setdefault(f"{t.value.id}.{t.attr}", []).append(n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                m.assigns.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, ast.If):
                self._index_body(m, n.body)
                self._index_body(m, n.orelse)
            elif isinstance(n, ast.Try):
                self._index_body(m, n.body)
                for h in n.handlers:
                    self._index_body(m, h.body)
                self._index_body(m, n.orelse)
                self._index_body(m, n.finalbody)
            elif isinstance(n, (ast.With, ast.For, ast.While)):
                self._index_body(m, n.body)

    def index_import(self, m: ModuleInfo, n, table):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    table[a.asname] = ("mod", a.name)
                else:
                    table[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
        else:
            if n.level:
                pk = m.name.split(".")
                if not m.is_pkg:
                    pk = pk[:-1]
                if n.level > 1:
                    pk = pk[: -(n.level - 1)]
                base = ".".join(pk)
                mod = base + ("." + n.module if n.module else "")
            else:
                mod = n.module
            for a in n.names:
                if a.name == "*":
                    table.setdefault("*", []).append(mod) if isinstance(table.get("*", []), list) else None
                    continue
                full = f"{mod}.{a.name}"
                if full in self.modules or (n.level and not n.module):
                    table[a.asname or a.name] = ("mod", full)
                else:
                    table[a.asname or a.name] = ("sym", mod, a.name)

    def _add_func(self, m, n, qual, cls, table, parent=None):
        decs = []
        kind = "method" if cls else "func"
        is_setter = False
        is_overload = False
        for d in n.decorator_list:
            s = dotted(d.func if isinstance(d, ast.Call) else d) or "?"
            decs.append(s)
            if s == "staticmethod":
                kind = "static"
            elif s == "classmethod":
                kind = "class"
            elif s in ("property", "cached_property", "functools.cached_property"):
                kind = "property"
            elif s.endswith(".setter"):
                is_setter = True
                kind = "setter"
            elif s.split(".")[-1] == "overload":
                is_overload = True
        fi = FuncInfo(n.name, qual, n, m, cls, kind, parent, tuple(decs))
        if is_overload:
            return fi
        if is_setter and cls is not None:
            cls.setters[n.name] = fi
            self.all_funcs[qual + ".setter"] = fi
            return fi
        if table is not None:
            table[n.name] = fi
        self.all_funcs[qual] = fi
        return fi

    def _add_class(self, m, n):
        c = ClassInfo(n.name, n, m)
        m.classes[n.name] = c
        self.classes_by_name.setdefault(n.name, []).append(c)
        self._class_body(m, c, n.body)

    def _class_body(self, m, c, body):
        for b in body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._add_func(m, b, f"{c.qual}.{b.name}", c, c.methods)
            elif isinstance(b, ast.Assign):
                for t in b.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = b.value
                        # alias of a method defined above: name = othermethod
                        if isinstance(b.value, ast.Name) and b.value.id in c.methods:
                            c.methods[t.id] = c.methods[b.value.id]
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                c.attrs[e.id] = b.value
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                if b.value is not None:
                    c.attrs[b.target.id] = b.value
            elif isinstance(b, ast.If):
                self._class_body(m, c, b.body)
                self._class_body(m, c, b.orelse)
            elif isinstance(b, ast.ClassDef):
                ic = ClassInfo(b.name, b, m)
                ic.qual = f"{c.qual}.{b.name}"
                c.attrs.setdefault(b.name, b)
                m.classes.setdefault(f"{c.name}.{b.name}", ic)
                self._class_body(m, ic, b.body)

    # ------------------------------------------------------------ resolution
    def _resolve_bases(self):
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.base_exprs:
                    r = self.resolve_expr(m, b)
                    if r and r[0] == "cls":
                        c.bases.append(r[1])
                        r[1].subclasses.append(c)
                    elif r and r[0] == "ext":
                        c.bases.append(r[1])
                    else:
                        c.bases.append(dotted(b) or "?")

    def _index_registry(self):
        for m in self.modules.values():
            for k, vs in m.assigns.items():
                if k.startswith("TypeRegister.") and vs:
                    r = self.resolve_expr(m, vs[-1])
                    if r and r[0] == "cls":
                        self.registry[k.split(".", 1)[1]] = r[1]

    def resolve_global(self, m: ModuleInfo, name: str, _seen=None):
        """-> ('cls',ClassInfo) ('func',FuncInfo) ('mod',ModuleInfo) ('ext',dotted) ('val',ModuleInfo,node) or None"""
        _seen = _seen or set()
        key = (m.name, name)
        if key in _seen:
            return None
        _seen.add(key)
        if name in m.classes:
            return ("cls", m.classes[name])
        if name in m.funcs:
            return ("func", m.funcs[name])
        if name in m.imports and name != "*":
            im = m.imports[name]
            if im[0] == "mod":
                if im[1] in self.modules:
                    return ("mod", self.modules[im[1]])
                return ("ext", im[1])
            _, mod, sym = im
            if mod in self.modules:
                r = self.resolve_global(self.modules[mod], sym, _seen)
                if r:
                    return r
                if f"{mod}.{sym}" in self.modules:
                    return ("mod", self.modules[f"{mod}.{sym}"])
                return None
            return ("ext", f"{mod}.{sym}")
        if name in m.assigns:
            node = m.assigns[name][-1]
            # plain alias
            if len(m.assigns[name]) == 1 and isinstance(node, (ast.Name, ast.Attribute)):
                r = self.resolve_expr(m, node, _seen)
                if r:
                    return r
            return ("val", m, name)
        stars = m.imports.get("*")
        if isinstance(stars, list):
            for mod in stars:
                if mod in self.modules:
                    r = self.resolve_global(self.modules[mod], name, _seen)
                    if r:
                        return r
        return None

    def resolve_expr(self, m, e, _seen=None):
        if isinstance(e, ast.Name):
            return self.resolve_global(m, e.id, _seen)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value, _seen)
            if b is None:
                return None
            if b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
            if b[0] == "mod":
                return self.resolve_global(b[1], e.attr, _seen)
            if b[0] == "cls":
                if b[1].name == "TypeRegister" and e.attr in self.registry:
                    return ("cls", self.registry[e.attr])
                l = b[1].lookup(e.attr)
                if l and l[0] == "m":
                    return ("func", l[1])
                if l and l[0] == "a":
                    return ("clsattr", l[1], e.attr)
        if isinstance(e, ast.Subscript):
            return self.resolve_expr(m, e.value, _seen)
        return None

    # --------------------------------------------------------------- lookups
    def cls(self, name, module=None) -> ClassInfo:
        c = self.classes_by_name.get(name, [])
        if module:
            c = [x for x in c if x.module.name.endswith(module)]
        if not c:
            raise AnalysisBroken(f"class {name} not found")
        return c[0]

    def func(self, qual) -> FuncInfo:
        q = qual if qual.startswith(PKG) else f"{PKG}.{qual}"
        if q in self.all_funcs:
            return self.all_funcs[q]
        raise AnalysisBroken(f"function {qual} not found")

    def method(self, cls, name) -> FuncInfo:
        c = self.cls(cls) if isinstance(cls, str) else cls
        f = c.find(name)
        if f is None:
            raise AnalysisBroken(f"method {c.name}.{name} not found")
        return f

    def enum_members(self, cls) -> Dict[str, object]:
        c = self.cls(cls) if isinstance(cls, str) else cls
        out = {}
        for b in c.node.body:
            if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name):
                try:
                    out[b.targets[0].id] = ast.literal_eval(b.value)
                except Exception:
                    if isinstance(b.value, ast.Name) and b.value.id in out:
                        out[b.targets[0].id] = out[b.value.id]
                    else:
                        v = const_eval(b.value, out)
                        if v is not None:
                            out[b.targets[0].id] = v
        return out


def const_eval(n, env):
    try:
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            return env.get(n.id)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            v = const_eval(n.operand, env)
            return None if v is None else -v
        if isinstance(n, ast.BinOp):
            a, b = const_eval(n.left, env), const_eval(n.right, env)
            if a is None or b is None:
                return None
            ops = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.LShift: lambda: a << b,
                   ast.BitOr: lambda: a | b, ast.Pow: lambda: a ** b, ast.FloorDiv: lambda: a // b, ast.Div: lambda: a / b}
            f = ops.get(type(n.op))
            return f() if f else None
    except Exception:
        return None
    return None


def dotted(n) -> Optional[str]:
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return None if b is None else b + "." + n.attr
    return None


def straight(node, limit, branches=False):
    """a short body that only computes and returns a value: assignments to local names and returns (and, if asked for, branches), no stores to objects"""
    if isinstance(node, ast.Lambda):
        return False
    size, rets = 0, 0

    def ok(body):
        nonlocal rets
        for b in body:
            if isinstance(b, ast.Pass) or isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                continue
            if isinstance(b, ast.Return):
                if b.value is None:
                    return False
                rets += 1
            elif isinstance(b, ast.Assign):
                if not all(isinstance(t, ast.Name) for t in b.targets):
                    return False
            elif isinstance(b, ast.AnnAssign):
                if not isinstance(b.target, ast.Name):
                    return False
            elif branches and isinstance(b, ast.If):
                if not ok(b.body) or not ok(b.orelse):
                    return False
            else:
                return False
        return True

    if not ok(node.body) or not rets:
        return False
    for b in node.body:
        if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant)):
            size += sum(1 for _ in ast.walk(b))
    return size < limit
