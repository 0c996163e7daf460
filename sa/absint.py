"""Path-sensitive abstract interpreter over the syntax tree (value-flow + type + typestate facts).

Values are hash-consed *value numbers* (T): constants, references to resolved program entities, parameters and
bounded derivation terms.  Branches are decided from constants, class facts and previously taken branches; undecided
branches are followed both ways.  Loop bodies are analysed once with loop-carried variables widened.  States whose
variables, heap and typestate marks agree are joined (facts intersected); beyond a bound states are widened.
No repository code is executed and no solver is involved.
"""
from __future__ import annotations

import ast
import sys
import time
from typing import Any, Callable, Dict, List, Optional, Tuple

from .prog import AnalysisBroken, ClassInfo, FuncInfo, ModuleInfo, Program, dotted, walk_own

sys.setrecursionlimit(20000)

_INTERN: Dict[tuple, "T"] = {}
MAXSIZE = 60


class T:
    __slots__ = ("op", "args", "size", "_leaves", "__weakref__")

    def __init__(self, op, args, size):
        self.op = op
        self.args = args
        self.size = size
        self._leaves = None

    def __repr__(self):
        return show(self)


def mk(op, *args) -> T:
    key = (op,) + args
    t = _INTERN.get(key)
    if t is None:
        size = 1
        for a in args:
            if isinstance(a, T):
                size += a.size
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, T):
                        size += b.size
                    elif isinstance(b, tuple):
                        size += sum(c.size for c in b if isinstance(c, T))
        if size > MAXSIZE and op not in ("top", "obj", "c", "tup", "cmp", "not", "isinst", "boolop", "super", "bm"):
            lv = frozenset()
            for a in args:
                if isinstance(a, T):
                    lv |= leaves(a)
                elif isinstance(a, tuple):
                    for b in a:
                        if isinstance(b, T):
                            lv |= leaves(b)
                        elif isinstance(b, tuple):
                            for c in b:
                                if isinstance(c, T):
                                    lv |= leaves(c)
            t = mk("top", op, tuple(sorted(lv, key=lambda x: (x.op, str(x.args)))))
            _INTERN[key] = t
            return t
        t = T(op, args, min(size, MAXSIZE // 2) if op == "top" else size)
        _INTERN[key] = t
    return t


def subterms(t: T):
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for a in x.args:
            if isinstance(a, T):
                stack.append(a)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, T):
                        stack.append(b)
                    elif isinstance(b, tuple):
                        stack.extend(c for c in b if isinstance(c, T))


def leaves(t: T) -> frozenset:
    """parameters (and unknown leaves) a value is derived from"""
    if t._leaves is None:
        if t.op in ("p", "phi", "glob", "obj"):
            r = frozenset([t])
        elif t.op == "top":
            r = frozenset(t.args[-1])
        else:
            r = frozenset()
            for a in t.args:
                if isinstance(a, T):
                    r |= leaves(a)
                elif isinstance(a, tuple):
                    for b in a:
                        if isinstance(b, T):
                            r |= leaves(b)
                        elif isinstance(b, tuple):
                            for c in b:
                                if isinstance(c, T):
                                    r |= leaves(c)
        t._leaves = r
    return t._leaves


def C(v) -> T:
    return mk("c", type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def is_const(t):
    return t.op == "c"


def cval(t):
    return t.args[1]


def show(t, d=0) -> str:
    if not isinstance(t, T):
        return str(t)
    if d > 6:
        return "…"
    if t.op == "c":
        return repr(t.args[1])
    if t.op == "p":
        return t.args[0]
    if t.op == "attr":
        return f"{show(t.args[0], d+1)}.{t.args[1]}"
    if t.op in ("fn", "cls"):
        return getattr(t.args[0], "qual", str(t.args[0])).replace("riptable.", "")
    if t.op == "bm":
        return f"{show(t.args[0], d+1)}.{t.args[1].name}"
    if t.op == "ext":
        return t.args[0]
    if t.op == "enum":
        return f"{t.args[0]}.{t.args[1]}"
    if t.op in ("call", "inst"):
        f = show(t.args[0], d + 1) if isinstance(t.args[0], T) else getattr(t.args[0], "name", str(t.args[0]))
        a = [show(x, d + 1) for x in t.args[1]] + [f"{k}={show(v, d+1)}" for k, v in t.args[2]]
        return f"{f}({', '.join(a)})"
    if t.op == "bin":
        return f"({show(t.args[1], d+1)} {t.args[0]} {show(t.args[2], d+1)})"
    if t.op == "sub":
        return f"{show(t.args[0], d+1)}[{show(t.args[1], d+1)}]"
    if t.op == "phi":
        return f"φ{t.args[1]}"
    if t.op == "obj":
        return f"<{t.args[0]}#{t.args[1]}>"
    parts = []
    for a in t.args:
        if isinstance(a, tuple):
            parts.append("[" + ",".join(show(x, d + 1) if isinstance(x, T) else str(x) for x in a) + "]")
        else:
            parts.append(show(a, d + 1) if isinstance(a, T) else getattr(a, "name", str(a)))
    return f"{t.op}({', '.join(parts)})"


BUILTIN_TYPES = {"int", "float", "str", "bytes", "bool", "list", "dict", "tuple", "set", "frozenset", "slice", "type", "object",
                 "NoneType", "complex", "range", "ndarray", "number"}
EXC = {"Exception", "ValueError", "TypeError", "KeyError", "IndexError", "AttributeError", "NotImplementedError", "RuntimeError",
       "AssertionError", "StopIteration", "NameError", "FileExistsError", "FileNotFoundError", "OSError", "IOError", "ImportError",
       "ModuleNotFoundError", "ZeroDivisionError", "OverflowError", "UnicodeDecodeError", "UnicodeEncodeError", "LookupError",
       "ArithmeticError", "BaseException", "KeyboardInterrupt", "MemoryError", "DeprecationWarning", "UserWarning", "FutureWarning",
       "RuntimeWarning", "Warning", "ResourceWarning", "PermissionError", "TimeoutError", "GeneratorExit", "SystemExit"}
EXC_PARENT = {"KeyError": "LookupError", "IndexError": "LookupError", "FileExistsError": "OSError", "FileNotFoundError": "OSError",
              "IOError": "OSError", "PermissionError": "OSError", "ModuleNotFoundError": "ImportError", "NotImplementedError": "RuntimeError",
              "UnicodeDecodeError": "ValueError", "UnicodeEncodeError": "ValueError", "ZeroDivisionError": "ArithmeticError",
              "OverflowError": "ArithmeticError"}


class Frame:
    __slots__ = ("id", "func", "parent", "module", "cls", "globals_decl", "selfterm", "locals_", "keep")

    def __init__(self, id, func, parent, module, cls):
        self.id = id
        self.func = func
        self.parent = parent
        self.module = module
        self.cls = cls
        self.globals_decl = set()
        self.keep = False


class State:
    __slots__ = ("vars", "heap", "types", "facts", "marks", "trace")

    def __init__(self):
        self.vars: Dict[tuple, T] = {}
        self.heap: Dict[tuple, Any] = {}
        self.types: Dict[T, Tuple[frozenset, frozenset]] = {}
        self.facts: Dict[T, bool] = {}
        self.marks: frozenset = frozenset()
        self.trace = None

    def copy(self):
        s = State.__new__(State)
        s.vars = dict(self.vars)
        s.heap = dict(self.heap)
        s.types = dict(self.types)
        s.facts = dict(self.facts)
        s.marks = self.marks
        s.trace = self.trace
        return s

    def mark(self, *m):
        s = self.copy()
        s.marks = s.marks | frozenset(m)
        return s

    def unmark(self, *m):
        s = self.copy()
        s.marks = s.marks - frozenset(m)
        return s

    def key(self):
        return (frozenset(self.vars.items()), frozenset(self.heap.items()), self.marks)

    def note(self, txt):
        self.trace = (txt, self.trace)

    def trace_list(self, n=40):
        out = []
        t = self.trace
        while t is not None and len(out) < n:
            out.append(t[0])
            t = t[1]
        return list(reversed(out))


class Outcome:
    __slots__ = ("kind", "state", "value", "node")

    def __init__(self, kind, state, value=None, node=None):
        self.kind = kind
        self.state = state
        self.value = value
        self.node = node


class Budget(Exception):
    pass


class Hooks:
    """Rule callbacks.  Every hook may return None for the default behaviour."""

    def cannot_raise(self, an, st, n, body) -> bool:
        """the try body was followed exactly: no exception other than the ones found"""
        return False

    def on_call(self, an, st, node, f, args, kwargs):
        return None

    def on_setattr(self, an, st, node, base, name, value):
        return None

    def on_setitem(self, an, st, node, base, idx, value):
        return None

    def on_delitem(self, an, st, node, base, idx):
        return None

    def on_delattr(self, an, st, node, base, name):
        return None

    def on_getattr(self, an, st, node, base, name):
        return None

    def on_getitem(self, an, st, node, base, idx):
        return None

    def on_binop(self, an, st, node, op, a, b):
        return None

    def on_unary(self, an, st, node, op, a):
        return None

    def on_compare(self, an, st, node, op, a, b):
        return None

    def on_aug(self, an, st, node, target, op, a, b):
        return None

    def inline(self, an, st, node, fn: FuncInfo, args, kwargs) -> Optional[bool]:
        return None

    def on_raise(self, an, st, node, value):
        return None

    def on_cond(self, an, st, node, cond):
        """decide an otherwise undecided branch: True/False/None"""
        return None


BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.MatMult: "@"}
CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not",
          ast.In: "in", ast.NotIn: "not in"}
NEG = {"!=": "==", "is not": "is", "not in": "in"}


class Interp:
    unroll = 10  # loops over at most this many known elements are executed element by element
    deadline = None  # wall-clock bound of the whole check: what is left is undecided, never an alarm
    expired = False

    def __init__(self, prog: Program, hooks: Hooks = None, max_depth=8, max_states=48, max_steps=400000, inline_default=True,
                 max_inline_stmts=400):
        self.prog = prog
        self.hooks = hooks or Hooks()
        self.max_depth = max_depth
        self.max_states = max_states
        self.max_steps = max_steps
        self.inline_default = inline_default
        self.max_inline_stmts = max_inline_stmts
        self.max_recursion = 1
        self.steps = 0
        self.frame_counter = 0
        self.stack: List[FuncInfo] = []
        self.frames: List[Frame] = []
        self.closures: Dict[int, tuple] = {}
        self.widened = 0
        self.visited_funcs = set()
        self.opaque_calls = set()
        self.paths = 0
        self._mutated_attrs = None
        self._const_cache = prog.__dict__.setdefault('_const_cache', {})
        self.exc_snapshots: List[Optional[list]] = []

    # ------------------------------------------------------------------ types
    def type_of(self, st: State, t: T):
        """(pos, neg) class facts; classes are ClassInfo or builtin/external names"""
        r = st.types.get(t)
        if t.op == "inst":
            return (frozenset([("exact", t.args[0])]) | (r[0] if r else frozenset()), r[1] if r else frozenset())
        if t.op == "c":
            return (frozenset([("exact", t.args[0])]), frozenset())
        if t.op == "obj":
            return (frozenset([("exact", t.args[0])]) | (r[0] if r else frozenset()), frozenset())
        if t.op == "tup":
            return (frozenset([("exact", "tuple")]), frozenset())
        if t.op in ("fstr",):
            return (frozenset([("exact", "str")]), frozenset())
        if t.op == "enum":
            return (frozenset([("exact", t.args[0]), ("is", "int")]), frozenset())
        if t.op == "cls":
            return (frozenset([("is", "type")]), frozenset())
        if t.op == "slice":
            return (frozenset([("exact", "slice")]), frozenset())
        return r or (frozenset(), frozenset())

    def cls_of(self, st, t):
        """a single resolved class (ClassInfo) of the value, or None"""
        pos, _ = self.type_of(st, t)
        best = None
        for k, c in pos:
            if isinstance(c, ClassInfo):
                if best is None or c.is_subclass_of(best):
                    best = c
        return best

    def subclass(self, a, b) -> bool:
        if a == b:
            return True
        if isinstance(a, ClassInfo):
            if b in a.mro:
                return True
            for m in a.mro:
                if isinstance(m, str) and self._ext_sub(m, b):
                    return True
            return False
        if isinstance(a, str):
            return self._ext_sub(a, b)
        return False

    @staticmethod
    def _ext_sub(a, b):
        if not isinstance(b, str):
            return False
        a = a.split(".")[-1]
        b = b.split(".")[-1]
        if a == b or b == "object":
            return True
        if a == "bool" and b == "int":
            return True
        if a in EXC and b in EXC:
            x = a
            while x:
                if x == b:
                    return True
                x = EXC_PARENT.get(x, None if x in ("BaseException",) else ("Exception" if x not in ("Exception", "KeyboardInterrupt", "SystemExit", "GeneratorExit") else "BaseException"))
            return False
        num = {"int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64", "integer", "signedinteger"}
        if a in num and b in ("integer", "number", "generic", "signedinteger"):
            return True
        if a in ("float64", "float32", "floating") and b in ("floating", "number", "generic"):
            return True
        if a == "float64" and b == "float":
            return True
        if b in ("Iterable", "Sequence", "Collection", "Sized", "Container") and a in ("list", "tuple", "dict", "set", "str", "ndarray", "range", "bytes", "frozenset"):
            return b != "Sequence" or a in ("list", "tuple", "str", "range", "bytes")
        if b in ("Mapping", "MutableMapping") and a == "dict":
            return True
        if b in ("Number", "Real") and a in ("int", "float", "bool", "int64", "int32", "float64"):
            return True
        if b in ("Integral",) and a in ("int", "bool", "int64", "int32"):
            return True
        return False

    def disjoint(self, a, b) -> bool:
        """no class can be a subclass of both"""
        if self.subclass(a, b) or self.subclass(b, a):
            return False
        if isinstance(a, ClassInfo) and isinstance(b, ClassInfo):
            sa = set(a.all_subclasses()) | {a}
            sb = set(b.all_subclasses()) | {b}
            return not (sa & sb)
        if isinstance(a, str) and isinstance(b, str):
            return a.split(".")[-1] in BUILTIN_TYPES and b.split(".")[-1] in BUILTIN_TYPES
        if isinstance(a, str):
            a, b = b, a
        # a ClassInfo, b builtin
        for s in [a] + a.all_subclasses():
            if self.subclass(s, b):
                return False
        return b.split(".")[-1] in BUILTIN_TYPES or b.split(".")[-1] in ("Iterable", "Mapping", "Enum", "EnumMeta", "Number", "generic", "integer", "datetime", "date", "timedelta", "Sequence")

    def isinst(self, st, t, c) -> Optional[bool]:
        if c == "object":
            return True
        pos, neg = self.type_of(st, t)
        for k, p in pos:
            if k == "oneof":
                if all(self.subclass(q, c) for q in p):
                    return True
            elif self.subclass(p, c):
                return True
        for n in neg:
            if self.subclass(c, n):
                return False
        for k, p in pos:
            if k == "exact":
                if isinstance(p, ClassInfo) and isinstance(c, str) and any(isinstance(b, str) for b in p.mro) and c.split(".")[-1] not in BUILTIN_TYPES and not self.disjoint(p, c):
                    return None
                return False
            if k == "oneof":
                left = [q for q in p if not any(self.subclass(q, x) for x in neg)]
                if left and all(self.disjoint(q, c) for q in left):
                    return False
                if left and len(left) < len(p) and all(self.subclass(q, c) for q in left):
                    return True
                continue
            if self.disjoint(p, c):
                return False
        return None

    def assume_type(self, st, t, classes, val) -> Optional[State]:
        """refine: t is (not) an instance of any of classes"""
        s = st.copy()
        pos, neg = s.types.get(t, (frozenset(), frozenset()))
        if val:
            cs = [c for c in classes if self.isinst(st, t, c) is not False]
            if len(cs) == 1:
                pos = pos | {("is", cs[0])}
            elif cs:
                # keep the disjunction out of the lattice: common superclass if any
                commons = None
                for c in cs:
                    sup = set(c.mro) if isinstance(c, ClassInfo) else {c}
                    commons = sup if commons is None else commons & sup
                for c in commons or ():
                    pos = pos | {("is", c)}
                if len(cs) <= 4:
                    pos = pos | {("oneof", tuple(sorted(cs, key=str)))}
        else:
            neg = neg | frozenset(classes)
        s.types[t] = (pos, neg)
        return s

    # -------------------------------------------------------------- frames
    def new_frame(self, func, parent, module, cls):
        self.frame_counter += 1
        return Frame(self.frame_counter, func, parent, module, cls)

    def lookup_var(self, st, fr: Frame, name):
        f = fr
        first = True
        while f is not None:
            if name in f.globals_decl:
                break
            v = st.vars.get((f.id, name))
            if v is not None:
                return v
            f = f.parent
        return None

    def set_var(self, st, fr: Frame, name, v):
        f = fr
        if name in fr.globals_decl:
            st.vars[("g", fr.module.name, name)] = v
            return
        # nonlocal handled via declared set
        st.vars[(f.id, name)] = v

    # ------------------------------------------------------------- globals
    def global_term(self, st, m: ModuleInfo, name) -> T:
        gv = st.vars.get(("g", m.name, name))
        if gv is not None:
            return gv
        r = self.prog.resolve_global(m, name)
        return self._res_term(r, name)

    def _res_term(self, r, name):
        if r is None:
            return mk("ext", "builtins." + name)
        k = r[0]
        if k == "cls":
            return mk("cls", r[1])
        if k == "func":
            return mk("fn", r[1])
        if k == "mod":
            return mk("mod", r[1])
        if k == "ext":
            return mk("ext", r[1])
        if k == "clsattr":
            return self.class_attr(r[1], r[2])
        if k == "val":
            return self.module_const(r[1], r[2])
        raise AssertionError(r)

    def module_const(self, m: ModuleInfo, name) -> T:
        key = ("m", m.name, name)
        if key in self._const_cache:
            return self._const_cache[key]
        out = mk("glob", m.name, name)
        self._const_cache[key] = out
        nodes = m.assigns.get(name, [])
        if len(nodes) == 1 and not self._reassigned_global(m, name):
            v = self.fold(m, None, nodes[0])
            if v is not None:
                out = v
        self._const_cache[key] = out
        return out

    def _reassigned_global(self, m, name):
        for f in ast.walk(m.tree):
            if isinstance(f, ast.Global) and name in f.names:
                return True
        return False

    def mutated_attr_names(self):
        if self._mutated_attrs is None:
            self._mutated_attrs = self.prog.__dict__.get("_mutated_attrs")
        if self._mutated_attrs is None:
            s = set()
            for m in self.prog.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        s.add(n.attr)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        s.add(n.args[1].value)
            self._mutated_attrs = self.prog._mutated_attrs = s
        return self._mutated_attrs

    def is_enum_class(self, c: ClassInfo):
        return any(isinstance(b, str) and b.split(".")[-1] in ("IntEnum", "Enum", "IntFlag", "Flag") for b in c.mro)

    def class_attr(self, c: ClassInfo, name) -> T:
        key = ("c", c.qual, name)
        if key in self._const_cache:
            return self._const_cache[key]
        out = mk("attr", mk("cls", c), name)
        self._const_cache[key] = out
        node = c.attrs.get(name)
        if node is not None:
            if self.is_enum_class(c):
                mem = self.prog.enum_members(c)
                if name in mem:
                    out = mk("enum", c.name, name, mem[name])
            elif name not in self.mutated_attr_names():
                v = self.fold(c.module, c, node)
                if v is not None:
                    out = v
        self._const_cache[key] = out
        return out

    def _mutated_containers(self):
        """names (variables or attributes) whose subscripts/contents are changed somewhere in the program"""
        v = self.prog.__dict__.get("_mutated_cont")
        if v is None:
            v = set()

            def nm(x):
                return x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
            for m in self.prog.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        v.add(nm(n.value))
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                            "update", "pop", "setdefault", "clear", "append", "extend", "insert", "remove", "popitem", "add", "discard"):
                        v.add(nm(n.func.value))
            v.discard(None)
            self.prog._mutated_cont = v
        return v

    def static_table(self, t):
        """literal dict/list/set/tuple initialiser behind a module- or class-level name that is never changed:
        ('dict', {key term: value term}) or ('seq', [terms]); None otherwise"""
        if t.op == "glob":
            m = self.prog.modules.get(t.args[0])
            c, name = None, t.args[1]
            nodes = m.assigns.get(name, []) if m else []
            if len(nodes) != 1 or self._reassigned_global(m, name):
                return None
            node = nodes[0]
        elif t.op == "attr" and t.args[0].op == "cls":
            c, name = t.args[0].args[0], t.args[1]
            m = c.module
            node = c.attrs.get(name)
            if node is None or name in self.mutated_attr_names():
                return None
        else:
            return None
        key = ("tab", t)
        if key in self._const_cache:
            return self._const_cache[key]
        out = None
        if name not in self._mutated_containers():
            if isinstance(node, ast.Dict):
                d = {}
                for k, v in zip(node.keys, node.values):
                    kt = self.fold(m, c, k) if k is not None else None
                    if kt is None:
                        d = None
                        break
                    vt = self.fold(m, c, v)
                    d[kt] = vt if vt is not None else mk("sub", t, kt)
                out = ("dict", d) if d is not None else None
            elif isinstance(node, (ast.List, ast.Tuple, ast.Set)):
                es = [self.fold(m, c, e) for e in node.elts]
                out = ("seq", es) if all(e is not None for e in es) else None
        self._const_cache[key] = out
        return out

    def fold(self, m, c, node) -> Optional[T]:
        """fold a module/class level initialiser to a constant term; None when it is not a plain constant"""
        if isinstance(node, ast.Constant):
            return C(node.value)
        if isinstance(node, ast.Name):
            if c is not None and node.id in c.attrs:
                return self.class_attr(c, node.id)
            r = self.prog.resolve_global(m, node.id)
            t = self._res_term(r, node.id)
            return t if t.op in ("c", "enum", "cls", "fn", "ext") else None
        if isinstance(node, ast.Attribute):
            r = self.prog.resolve_expr(m, node)
            if r is None:
                return None
            t = self._res_term(r, node.attr)
            return t if t.op in ("c", "enum", "cls", "fn", "ext") else None
        if isinstance(node, ast.UnaryOp):
            v = self.fold(m, c, node.operand)
            if v is not None and v.op == "c":
                try:
                    if isinstance(node.op, ast.USub):
                        return C(-cval(v))
                    if isinstance(node.op, ast.Not):
                        return C(not cval(v))
                except Exception:
                    return None
            return None
        if isinstance(node, ast.BinOp):
            a, b = self.fold(m, c, node.left), self.fold(m, c, node.right)
            if a is not None and b is not None and a.op in ("c", "enum") and b.op in ("c", "enum"):
                return self._fold_bin(BINOPS[type(node.op)], a, b)
            return None
        if isinstance(node, (ast.Tuple,)):
            es = [self.fold(m, c, e) for e in node.elts]
            if all(e is not None for e in es):
                return mk("tup", *es)
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("int", "float", "str") and len(node.args) == 1:
            v = self.fold(m, c, node.args[0])
            if v is not None and v.op == "c":
                try:
                    return C({"int": int, "float": float, "str": str}[node.func.id](cval(v)))
                except Exception:
                    return None
        return None

    @staticmethod
    def _num(t):
        return t.args[2] if t.op == "enum" else t.args[1]

    def _fold_bin(self, op, a, b):
        x, y = self._num(a), self._num(b)
        try:
            if op == "+":
                r = x + y
            elif op == "-":
                r = x - y
            elif op == "*":
                r = x * y
            elif op == "/":
                r = x / y
            elif op == "//":
                r = x // y
            elif op == "%":
                r = x % y
            elif op == "**":
                r = x ** y if abs(y) < 200 else None
            elif op == "<<":
                r = x << y
            elif op == ">>":
                r = x >> y
            elif op == "|":
                r = x | y
            elif op == "&":
                r = x & y
            elif op == "^":
                r = x ^ y
            else:
                return None
            if r is None:
                return None
            if isinstance(r, (int, float, str, bytes, bool, tuple)):
                return C(r)
        except Exception:
            return None
        return None

    # -------------------------------------------------------------- truth
    def truth(self, st, t: T) -> Optional[bool]:
        if t.op == "c":
            return bool(cval(t))
        if t.op == "enum":
            return bool(t.args[2])
        if t in st.facts:
            return st.facts[t]
        if t.op == "not":
            r = self.truth(st, t.args[0])
            return None if r is None else not r
        if t.op in ("cls", "fn", "bm", "mod", "lam", "clo"):
            return True
        if t.op == "tup":
            return len(t.args) > 0 if not any(x.op == "star" for x in t.args) else None
        if t.op == "obj":
            c = st.heap.get(("content", t))
            if c is not None:
                if c[0] == "list":
                    if len(c[1]) > 0:
                        return True
                    return False if c[2] else None
                if c[0] == "dict":
                    if len(c[1]) > 0:
                        return True
                    return None if c[2] is not None else False
        return None

    def cmp_const(self, st, op, a, b) -> Optional[bool]:
        if op in ("is", "=="):
            if a is b and a.op in ("c", "enum", "cls", "fn"):
                return True
            if a.op == "c" and b.op == "c":
                if op == "is" and (cval(a) is None or cval(b) is None or isinstance(cval(a), bool) or isinstance(cval(b), bool)):
                    return cval(a) is cval(b) if type(cval(a)) is type(cval(b)) else False
                try:
                    return cval(a) == cval(b)
                except Exception:
                    return None
            if a.op == "enum" and b.op == "enum" and a.args[0] == b.args[0]:
                return a.args[2] == b.args[2]
            if {a.op, b.op} == {"enum", "c"}:
                x, y = (a, b) if a.op == "enum" else (b, a)
                if isinstance(cval(y), (int, float)):
                    return x.args[2] == cval(y)
                return False
            if (a is NONE or b is NONE):
                o = b if a is NONE else a
                if o.op in ("obj", "inst", "tup", "cls", "fn", "bm", "fstr", "enum", "mod", "lam", "clo", "comp", "slice", "bin"):
                    return False
                pos, neg = self.type_of(st, o)
                if op == "is" or True:
                    for k, p in pos:
                        if p != "NoneType" and p != "object" and not (k == "oneof" and "NoneType" in p):
                            if op == "is" or not isinstance(p, ClassInfo):
                                return False
                    if "NoneType" in neg:
                        return False
            if a.op == "cls" and b.op == "cls":
                return a is b
            # known distinct constant
            for x, y in ((a, b), (b, a)):
                if y.op == "c" and x.op not in ("c", "enum"):
                    for f, v in st.facts.items():
                        if f.op == "cmp" and f.args[0] == "==" and v and f.args[1] is x and f.args[2].op == "c":
                            return cval(f.args[2]) == cval(y)
        if op in ("<", "<=", ">", ">=") and a.op in ("c", "enum") and b.op in ("c", "enum"):
            x, y = self._num(a), self._num(b)
            try:
                return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
            except Exception:
                return None
        if op == "in":
            elts = self.known_elts(st, b)
            if elts is not None:
                rs = [self.cmp_const(st, "==", a, e) for e in elts]
                if any(r is True for r in rs):
                    return True
                if all(r is False for r in rs):
                    return False
            if a.op == "c" and b.op == "c" and isinstance(cval(a), str) and isinstance(cval(b), str):
                return cval(a) in cval(b)
            if b.op == "obj" and b.args[0] == "dict" and a.op == "c":
                cont = st.heap.get(("content", b))
                if cont is not None:
                    ks = dict(cont[1])
                    if a in ks:
                        return True
                    if cont[2] is None and all(k.op == "c" for k in ks):
                        return False
        return None

    def known_elts(self, st, t) -> Optional[list]:
        if t.op == "tup":
            if any(x.op == "star" for x in t.args):
                return None
            return list(t.args)
        if t.op == "obj":
            c = st.heap.get(("content", t))
            if c is not None and c[0] == "list" and c[2]:
                return list(c[1])
            if c is not None and c[0] == "dict" and c[2] is None:
                return [k for k, _ in c[1]]
        if t.op == "c" and isinstance(cval(t), (tuple, frozenset)):
            return [C(x) for x in cval(t)]
        if t.op in ("glob", "attr"):
            tab = self.static_table(t)
            if tab is not None:
                return list(tab[1])
        if t.op == "call" and t.args[0].op == "ext" and not t.args[2]:
            nm, a = t.args[0].args[0], t.args[1]
            if nm == "builtins.range" and 1 <= len(a) <= 3 and all(x.op == "c" and type(cval(x)) is int for x in a):
                try:
                    r = range(*[cval(x) for x in a])
                except ValueError:
                    return None
                return [C(i) for i in r] if len(r) <= 40 else None
            if nm == "builtins.enumerate" and len(a) == 1:
                e = self.known_elts(st, a[0])
                return None if e is None else [mk("tup", C(i), x) for i, x in enumerate(e)]
            if nm == "builtins.zip" and a:
                es = [self.known_elts(st, x) for x in a]
                return None if any(e is None for e in es) else [mk("tup", *x) for x in zip(*es)]
            if nm == "builtins.reversed" and len(a) == 1:
                e = self.known_elts(st, a[0])
                return None if e is None else e[::-1]
        return None

    def mk_cmp(self, op, a, b):
        """-> (term, negated)"""
        neg = False
        if op in NEG:
            op, neg = NEG[op], True
        if op == ">":
            op, a, b = "<", b, a
        elif op == ">=":
            op, a, b = "<=", b, a
        if op in ("==", "is"):
            if a.op in ("c", "enum") and b.op not in ("c", "enum"):
                a, b = b, a
        return mk("cmp", op, a, b), neg

    def decide(self, st, node, t: T) -> List[Tuple[State, bool]]:
        """split on the truth of t"""
        neg = False
        while t.op == "not":
            t = t.args[0]
            neg = not neg
        if t.op == "boolop":
            # value-level boolean combination (e.g. stored in a variable)
            op, parts = t.args[0], t.args[1]
            outs = []
            pend = [st]
            for i, p in enumerate(parts):
                nxt = []
                for s in pend:
                    for s2, v in self.decide(s, node, p):
                        if op == "and" and not v or op == "or" and v:
                            outs.append((s2, v))
                        else:
                            nxt.append(s2)
                pend = nxt
            outs += [(s, op == "and") for s in pend]
            return [(s, (not v) if neg else v) for s, v in outs]
        r = self.truth(st, t)
        if r is None:
            if t.op == "isinst":
                rs = [self.isinst(st, t.args[0], c) for c in t.args[1]]
                if any(x is True for x in rs):
                    r = True
                elif rs and all(x is False for x in rs):
                    r = False
            elif t.op == "cmp":
                r = self.cmp_const(st, *t.args)
        if r is None:
            r = self.hooks.on_cond(self, st, node, t)
        if r is not None:
            return [(st, (not r) if neg else r)]
        out = []
        for v in (True, False):
            s = self.assume(st, t, v)
            if s is not None:
                if node is not None:
                    s.note(f"line {getattr(node, 'lineno', '?')}: assume {'' if v else 'not '}{show(t)[:110]}")
                out.append((s, (not v) if neg else v))
        return out

    def assume(self, st, t, v) -> Optional[State]:
        neg = False
        while t.op == "not":
            t = t.args[0]
            v = not v
        if t.op == "isinst":
            s = self.assume_type(st, t.args[0], t.args[1], v)
        else:
            s = st.copy()
        s.facts[t] = v
        if t.op == "cmp" and t.args[0] in ("is", "==") and t.args[2] is NONE:
            x = t.args[1]
            pos, ng = s.types.get(x, (frozenset(), frozenset()))
            if v:
                s.types[x] = (pos | {("exact", "NoneType")}, ng)
            elif t.args[0] == "is":
                s.types[x] = (pos, ng | {"NoneType"})
        elif t.op in ("p", "attr", "phi") and v:
            pos, ng = s.types.get(t, (frozenset(), frozenset()))
            s.types[t] = (pos, ng | {"NoneType"})
        return s

    # ---------------------------------------------------------------- merging
    def merge(self, states: List[State]) -> List[State]:
        if len(states) <= 1:
            return states
        groups: Dict[Any, State] = {}
        order = []
        for s in states:
            k = s.key()
            o = groups.get(k)
            if o is None:
                groups[k] = s
                order.append(k)
            else:
                n = o.copy()
                n.facts = {f: v for f, v in o.facts.items() if s.facts.get(f) == v and f in s.facts}
                n.types = self._join_types(o, s)
                groups[k] = n
        out = [groups[k] for k in order]
        if len(out) > self.max_states:
            out = self.widen(out)
        return out

    def _join_types(self, a, b):
        r = {}
        for t, (p, n) in a.types.items():
            o = b.types.get(t)
            if o is None:
                continue
            pos = frozenset(x for x in p if x in o[0])
            if not pos and p and o[0]:
                # weaken to common superclass
                sup = None
                for side in (p, o[0]):
                    cs = set()
                    for k, c in side:
                        if k == "oneof":
                            continue
                        cs |= set(c.mro) if isinstance(c, ClassInfo) else {c}
                    sup = cs if sup is None else sup & cs
                pos = frozenset(("is", c) for c in sup or ())
            if p and o[0] and not any(k != "oneof" for k, _ in pos):
                a1 = self._alternatives(p)
                alt = a1 + [c for c in self._alternatives(o[0]) if c not in a1]
                if a1 and 1 < len(alt) <= 4:
                    pos = pos | {("oneof", tuple(sorted(alt, key=str)))}
            r[t] = (pos, n & o[1])
        return r

    def _alternatives(self, pos):
        """classes of which the value is an instance of at least one"""
        one = None
        for k, c in pos:
            if k != "oneof" and (one is None or self.subclass(c, one) or (not isinstance(one, ClassInfo) and isinstance(c, ClassInfo) and not self.subclass(one, c))):
                one = c
        if one is not None:
            return [one]
        return list(min((c for k, c in pos if k == "oneof"), key=len, default=()))

    def widen(self, states):
        self.widened += 1
        groups = {}
        for s in states:
            groups.setdefault(s.marks, []).append(s)
        out = []
        for mk_, ss in groups.items():
            if len(ss) <= max(2, self.max_states // max(1, len(groups))):
                out.extend(ss)
                continue
            b = ss[0].copy()
            for s in ss[1:]:
                for k in list(b.vars):
                    v2 = s.vars.get(k)
                    if v2 is None:
                        b.vars[k] = b.vars[k]
                    elif v2 is not b.vars[k]:
                        lv = leaves(b.vars[k]) | leaves(v2)
                        b.vars[k] = mk("top", "widen", tuple(sorted(lv, key=lambda x: (x.op, str(x.args)))))
                for k in s.vars:
                    if k not in b.vars:
                        b.vars[k] = s.vars[k]
                for k in list(b.heap):
                    if s.heap.get(k) != b.heap[k]:
                        if k[0] == "content":
                            b.heap.pop(k)
                        else:
                            v1, v2 = b.heap[k], s.heap.get(k)
                            lv = leaves(v1) | (leaves(v2) if isinstance(v2, T) else frozenset())
                            b.heap[k] = mk("top", "widen", tuple(sorted(lv, key=lambda x: (x.op, str(x.args)))))
                b.facts = {f: v for f, v in b.facts.items() if s.facts.get(f) == v and f in s.facts}
                b.types = self._join_types(b, s)
            out.append(b)
        return out

    # ------------------------------------------------------------- statements
    def run_function(self, fn: FuncInfo, args: Dict[str, T], st: State = None, selfcls: ClassInfo = None, site=None) -> List[Outcome]:
        """analyse fn as an entry point. args: bound parameter terms (missing -> ('p', name))"""
        st = st or State()
        a = fn.node.args
        bind = {}
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            bind[p.arg] = args.get(p.arg, mk("p", p.arg))
        if a.vararg:
            bind[a.vararg.arg] = args.get(a.vararg.arg, mk("p", "*" + a.vararg.arg))
            if a.vararg.arg not in args:
                st.types[bind[a.vararg.arg]] = (frozenset([("exact", "tuple")]), frozenset())
        if a.kwarg:
            if a.kwarg.arg in args:
                bind[a.kwarg.arg] = args[a.kwarg.arg]
            else:
                o = self.new_obj(st, "dict", fn.node)
                st.heap[("content", o)] = ("dict", (), mk("p", "**" + a.kwarg.arg))
                bind[a.kwarg.arg] = o
        return self.exec_function(fn, bind, st, None)

    def exec_function(self, fn: FuncInfo, bind, st, parent_frame) -> List[Outcome]:
        self.visited_funcs.add(fn.qual)
        fr = self.new_frame(fn, parent_frame, fn.module, fn.cls)
        st = st.copy()
        for k, v in bind.items():
            st.vars[(fr.id, k)] = v
        self.stack.append(fn)
        self.frames.append(fr)
        try:
            outs = self.exec_block(fn.node.body, st, fr)
        finally:
            self.stack.pop()
            self.frames.pop()
        res = []
        for o in outs:
            if o.kind == "next":
                o = Outcome("return", o.state, NONE, fn.node)
            s = o.state
            if not fr.keep:
                s = s.copy()
                for k in [k for k in s.vars if k[0] == fr.id]:
                    del s.vars[k]
            res.append(Outcome(o.kind, s, o.value, o.node))
        return res

    def exec_block(self, stmts, st, fr) -> List[Outcome]:
        cur = [st]
        outs: List[Outcome] = []
        for s in stmts:
            nxt = []
            for c in cur:
                for o in self.exec_stmt(s, c, fr):
                    if o.kind == "next":
                        nxt.append(o.state)
                    else:
                        outs.append(o)
            cur = self.merge(nxt)
            if not cur:
                break
        outs.extend(Outcome("next", c) for c in cur)
        return self.merge_outcomes(outs)

    def merge_outcomes(self, outs):
        groups = {}
        for o in outs:
            groups.setdefault((o.kind, o.value), []).append(o)
        res = []
        for (k, v), os in groups.items():
            if len(os) == 1:
                res.append(os[0])
            else:
                for s in self.merge([o.state for o in os]):
                    res.append(Outcome(k, s, v, os[0].node))
        return res

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()
        if Interp.deadline is not None and not self.steps & 63 and time.monotonic() > Interp.deadline:
            Interp.expired = True
            raise Budget()

    def exec_stmt(self, n, st, fr) -> List[Outcome]:
        self.tick()
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise AnalysisBroken(f"unsupported statement {type(n).__name__} at {fr.module.relpath}:{n.lineno}")
        if self.exc_snapshots and self.exc_snapshots[-1] is not None and not isinstance(n, (ast.If, ast.Try, ast.For, ast.While, ast.With, ast.Pass, ast.FunctionDef)):
            self.exc_snapshots[-1].append(st)
        return m(n, st, fr)

    def s_Pass(self, n, st, fr):
        return [Outcome("next", st)]

    def s_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return [Outcome("next", st)]
        return self._ev_stmt(n.value, st, fr, lambda s, v: [Outcome("next", s)])

    def _ev_stmt(self, e, st, fr, k):
        outs = []
        pend, raises = self.ev_r(e, st, fr)
        for s, v in pend:
            outs.extend(k(s, v))
        outs.extend(raises)
        return outs

    def ev_r(self, e, st, fr):
        """evaluate; explicit raises inside inlined callees come back as outcomes"""
        self._raise_sink.append([])
        try:
            vals = self.ev(e, st, fr)
        finally:
            r = self._raise_sink.pop()
        return vals, r

    _raise_sink: List[list] = [[]]

    def s_Assign(self, n, st, fr):
        def k(s, v):
            cur = [s]
            for t in n.targets:
                nx = []
                for c in cur:
                    nx.extend(self.assign(t, v, c, fr, n))
                cur = nx
            return [Outcome("next", c) for c in cur]

        return self._ev_stmt2(n.value, st, fr, k)

    def _ev_stmt2(self, e, st, fr, k):
        """as _ev_stmt, but raises produced while running k are collected too"""
        self._raise_sink.append([])
        try:
            outs = []
            for s, v in self.ev(e, st, fr):
                outs.extend(k(s, v))
        finally:
            r = self._raise_sink.pop()
        outs.extend(r)
        return outs

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [Outcome("next", st)]
        return self._ev_stmt2(n.value, st, fr, lambda s, v: [Outcome("next", c) for c in self.assign(n.target, v, s, fr, n)])

    def s_AugAssign(self, n, st, fr):
        op = BINOPS[type(n.op)]
        load = _as_load(n.target)

        self._raise_sink.append([])
        try:
            outs = []
            for s, cur in self.ev(load, st, fr):
                for s2, v in self.ev(n.value, s, fr):
                    h = self.hooks.on_aug(self, s2, n, n.target, op, cur, v)
                    if h is not None:
                        rs = h
                    else:
                        rs = self.binop(s2, n, op, cur, v)
                    for s3, r in rs:
                        for s4 in self.assign(n.target, r, s3, fr, n, aug=True):
                            outs.append(Outcome("next", s4))
        finally:
            r = self._raise_sink.pop()
        outs.extend(r)
        return outs

    def assign(self, t, v, st, fr, n, aug=False) -> List[State]:
        if isinstance(t, ast.Name):
            s = st.copy()
            self.set_var(s, fr, t.id, v)
            return [s]
        if isinstance(t, (ast.Tuple, ast.List)):
            elts = self.known_elts(st, v)
            cur = [st]
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if elts is not None and not star and len(elts) == len(t.elts):
                vals = elts
            elif star:
                vals = [mk("rest", v, i) if i in star else mk("sub", v, C(i)) for i in range(len(t.elts))]
            else:
                vals = [self.mk_sub(v, C(i)) for i in range(len(t.elts))]
            for e, x in zip(t.elts, vals):
                e2 = e.value if isinstance(e, ast.Starred) else e
                nx = []
                for c in cur:
                    nx.extend(self.assign(e2, x, c, fr, n))
                cur = nx
            return cur
        if isinstance(t, ast.Attribute):
            out = []
            for s, b in self.ev(t.value, st, fr):
                out.extend(self.set_attr(s, n, b, t.attr, v))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, b in self.ev(t.value, st, fr):
                for s2, i in self.ev(t.slice, s, fr):
                    out.extend(self.set_item(s2, n, b, i, v))
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr, n)
        raise AnalysisBroken(f"assign target {type(t).__name__}")

    def set_attr(self, st, n, b, name, v) -> List[State]:
        h = self.hooks.on_setattr(self, st, n, b, name, v)
        if h is not None:
            return h
        c = self.cls_of(st, b)
        if c is not None:
            setter = c.find_setter(name)
            if setter is not None:
                r = self.call_fn(st, n, setter, [b, v], {}, None)
                return [s for s, _ in r]
        s = st.copy()
        s.heap[(b, name)] = v
        return [s]

    def set_item(self, st, n, b, i, v) -> List[State]:
        h = self.hooks.on_setitem(self, st, n, b, i, v)
        if h is not None:
            return h
        s = st.copy()
        if b.op == "obj":
            c = s.heap.get(("content", b))
            if c is not None and c[0] == "dict":
                if i.op in ("c", "enum"):
                    if any(k is i for k, _ in c[1]):
                        items = tuple((k, v if k is i else x) for k, x in c[1])
                    else:
                        items = c[1] + ((i, v),)
                    s.heap[("content", b)] = ("dict", items, c[2])
                else:
                    s.heap[("content", b)] = ("dict", c[1], mk("top", "dictrest", tuple(sorted(leaves(v) | leaves(i) | (leaves(c[2]) if c[2] is not None else frozenset()), key=lambda x: (x.op, str(x.args))))))
            elif c is not None and c[0] == "list":
                if i.op == "c" and isinstance(cval(i), int) and c[2] and 0 <= cval(i) < len(c[1]):
                    l = list(c[1])
                    l[cval(i)] = v
                    s.heap[("content", b)] = ("list", tuple(l), True)
                else:
                    s.heap[("content", b)] = ("list", c[1] + ((v,) if v not in c[1] else ()), False)
            return [s]
        c = self.cls_of(st, b)
        if c is not None:
            f = c.find("__setitem__")
            if f is not None and self.should_inline(st, n, f, [b, i, v], {}):
                return [s2 for s2, _ in self.call_fn(st, n, f, [b, i, v], {}, None)]
        return [s]

    def s_Delete(self, n, st, fr):
        cur = [st]
        self._raise_sink.append([])
        try:
            for t in n.targets:
                nx = []
                for c in cur:
                    if isinstance(t, ast.Name):
                        s = c.copy()
                        s.vars.pop((fr.id, t.id), None)
                        nx.append(s)
                    elif isinstance(t, ast.Attribute):
                        for s, b in self.ev(t.value, c, fr):
                            h = self.hooks.on_delattr(self, s, n, b, t.attr)
                            if h is not None:
                                nx.extend(h)
                                continue
                            s = s.copy()
                            s.heap.pop((b, t.attr), None)
                            nx.append(s)
                    elif isinstance(t, ast.Subscript):
                        for s, b in self.ev(t.value, c, fr):
                            for s2, i in self.ev(t.slice, s, fr):
                                h = self.hooks.on_delitem(self, s2, n, b, i)
                                if h is not None:
                                    nx.extend(h)
                                    continue
                                s3 = s2.copy()
                                cont = s3.heap.get(("content", b))
                                if cont is not None and cont[0] == "dict":
                                    s3.heap[("content", b)] = ("dict", tuple((k, x) for k, x in cont[1] if k is not i), cont[2])
                                elif cont is not None:
                                    s3.heap[("content", b)] = ("list", cont[1], False)
                                else:
                                    cc = self.cls_of(s3, b)
                                    f = cc.find("__delitem__") if cc is not None else None
                                    if f is not None and self.should_inline(s3, n, f, [b, i], {}):
                                        nx.extend(x for x, _ in self.call_fn(s3, n, f, [b, i], {}, None))
                                        continue
                                nx.append(s3)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        nx.append(c)
                cur = nx
        finally:
            r = self._raise_sink.pop()
        return [Outcome("next", c) for c in cur] + r

    def s_Return(self, n, st, fr):
        if n.value is None:
            return [Outcome("return", st, NONE, n)]
        return self._ev_stmt2(n.value, st, fr, lambda s, v: [Outcome("return", s, v, n)])

    def s_Raise(self, n, st, fr):
        if n.exc is None:
            return [Outcome("raise", st, mk("exc", "reraise"), n)]

        def k(s, v):
            self.hooks.on_raise(self, s, n, v)
            return [Outcome("raise", s, v, n)]

        return self._ev_stmt2(n.exc, st, fr, k)

    def s_Assert(self, n, st, fr):
        outs = []
        self._raise_sink.append([])
        try:
            for s, v in self.branch(n.test, st, fr):
                if v:
                    outs.append(Outcome("next", s))
                else:
                    outs.append(Outcome("raise", s, mk("exc", "AssertionError"), n))
        finally:
            r = self._raise_sink.pop()
        return outs + r

    def s_Break(self, n, st, fr):
        return [Outcome("break", st)]

    def s_Continue(self, n, st, fr):
        return [Outcome("continue", st)]

    def s_Global(self, n, st, fr):
        fr.globals_decl |= set(n.names)
        return [Outcome("next", st)]

    def s_Nonlocal(self, n, st, fr):
        return [Outcome("next", st)]

    def s_Import(self, n, st, fr):
        tab = {}
        self.prog.index_import(fr.module, n, tab)
        s = st.copy()
        for k, v in tab.items():
            if k == "*":
                continue
            s.vars[(fr.id, k)] = self._import_term(v)
        return [Outcome("next", s)]

    s_ImportFrom = s_Import

    def _import_term(self, im):
        if im[0] == "mod":
            if im[1] in self.prog.modules:
                return mk("mod", self.prog.modules[im[1]])
            return mk("ext", im[1])
        _, mod, sym = im
        if mod in self.prog.modules:
            r = self.prog.resolve_global(self.prog.modules[mod], sym)
            return self._res_term(r, sym) if r else mk("ext", f"{mod}.{sym}")
        return mk("ext", f"{mod}.{sym}")

    def s_FunctionDef(self, n, st, fr):
        fi = FuncInfo(n.name, f"{fr.func.qual}.<locals>.{n.name}" if fr.func else n.name, n, fr.module, fr.cls, "func", fr.func)
        fr.keep = True
        t = mk("clo", n, fr)
        self.closures[id(n)] = (fi, fr)
        s = st.copy()
        s.vars[(fr.id, n.name)] = t
        return [Outcome("next", s)]

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, st, fr):
        s = st.copy()
        s.vars[(fr.id, n.name)] = mk("localcls", n)
        return [Outcome("next", s)]

    def s_If(self, n, st, fr):
        outs = []
        self._raise_sink.append([])
        try:
            br = self.branch(n.test, st, fr)
        finally:
            r = self._raise_sink.pop()
        outs.extend(r)
        ts = self.merge([s for s, v in br if v])
        fs = self.merge([s for s, v in br if not v])
        for s in ts:
            outs.extend(self.exec_block(n.body, s, fr))
        for s in fs:
            outs.extend(self.exec_block(n.orelse, s, fr) if n.orelse else [Outcome("next", s)])
        return outs

    def _loop_carried(self, body_nodes, st, fr):
        """names read in the body before (or without) being definitely written, and written somewhere in it"""
        written, read = set(), set()

        for b in body_nodes:
            for x in ast.walk(b):
                if isinstance(x, ast.Name):
                    if isinstance(x.ctx, ast.Store):
                        written.add(x.id)
                    elif isinstance(x.ctx, ast.Load):
                        read.add(x.id)
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                    read.add(x.target.id)
                    written.add(x.target.id)
        first_write = _definitely_first_written(body_nodes)
        return {w for w in written if w in read and w not in first_write}

    def _havoc(self, st, names, fr, site):
        s = st.copy()
        for nm in names:
            old = s.vars.get((fr.id, nm))
            if old is not None:
                s.vars[(fr.id, nm)] = mk("phi", (getattr(site, "lineno", 0), fr.module.name), nm, old)
        return s

    def _havoc_heap(self, st, body_nodes, fr, site):
        """widen content of container objects mutated in the loop"""
        s = st
        names = set()
        for b in body_nodes:
            for x in ast.walk(b):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.attr in (
                        "append", "extend", "insert", "pop", "remove", "update", "add", "setdefault", "clear", "reverse"):
                    names.add(x.func.value.id)
                elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name):
                    names.add(x.value.id)
                elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                    names.add(x.target.id)
        for nm in names:
            v = self.lookup_var(s, fr, nm)
            if v is not None and v.op == "obj":
                c = s.heap.get(("content", v))
                if c is not None:
                    s = s.copy()
                    if c[0] == "list":
                        s.heap[("content", v)] = ("list", c[1], False)
                    else:
                        s.heap[("content", v)] = ("dict", c[1], c[2] if c[2] is not None else mk("phi", (site.lineno, fr.module.name), nm, NONE))
        return s

    def s_For(self, n, st, fr):
        outs = []
        self._raise_sink.append([])
        try:
            its = self.ev(n.iter, st, fr)
        finally:
            outs.extend(self._raise_sink.pop())
        for s, it in its:
            elts = self.known_elts(s, it)
            if elts is not None and len(elts) <= self.unroll:
                cur = [s]
                brk = []
                for e in elts:
                    nx = []
                    for c in cur:
                        for c2 in self.assign(n.target, e, c, fr, n):
                            for o in self.exec_block(n.body, c2, fr):
                                if o.kind in ("next", "continue"):
                                    nx.append(o.state)
                                elif o.kind == "break":
                                    brk.append(o.state)
                                else:
                                    outs.append(o)
                    cur = self.merge(nx)
                    if not cur:
                        break
                for c in cur:
                    outs.extend(self.exec_block(n.orelse, c, fr) if n.orelse else [Outcome("next", c)])
                outs.extend(Outcome("next", b) for b in brk)
                continue
            carried = self._loop_carried(n.body, s, fr)
            s1 = self._havoc(s, carried, fr, n)
            s1 = self._havoc_heap(s1, n.body, fr, n)
            after = [s]
            for s2 in self.assign(n.target, self.elem_of(it), s1, fr, n):
                for o in self.exec_block(n.body, s2, fr):
                    if o.kind in ("next", "continue"):
                        after.append(o.state)
                    elif o.kind == "break":
                        outs.append(Outcome("next", o.state))
                    else:
                        outs.append(o)
            for c in self.merge(after):
                outs.extend(self.exec_block(n.orelse, c, fr) if n.orelse else [Outcome("next", c)])
        return outs

    def elem_of(self, it):
        if it.op == "call" and it.args[0].op == "ext":
            nm = it.args[0].args[0]
            if nm == "builtins.enumerate" and it.args[1]:
                return mk("tup", mk("idx", it.args[1][0]), self.elem_of(it.args[1][0]))
            if nm == "builtins.zip":
                return mk("tup", *[self.elem_of(a) for a in it.args[1]])
        if it.op == "call" and it.args[0].op == "attr" and it.args[0].args[1] == "items" and not it.args[1]:
            b = it.args[0].args[0]
            return mk("tup", mk("keyof", b), mk("valof", b))
        if it.op == "call" and it.args[0].op == "attr" and it.args[0].args[1] == "values" and not it.args[1]:
            return mk("valof", it.args[0].args[0])
        if it.op == "call" and it.args[0].op == "attr" and it.args[0].args[1] == "keys" and not it.args[1]:
            return mk("keyof", it.args[0].args[0])
        return mk("iter", it)

    def _while_exact(self, n, st, fr):
        """unroll while every test is decided; None when one is not"""
        cur, outs = [st], []
        for _ in range(max(self.unroll, 10) + 1):
            nx = []
            for c in cur:
                self._raise_sink.append([])
                try:
                    br = self.branch(n.test, c, fr)
                finally:
                    raised = self._raise_sink.pop()
                if len(br) + len(raised) != 1:
                    return None
                outs.extend(raised)
                for s, v in br:
                    if not v:
                        outs.extend(self.exec_block(n.orelse, s, fr) if n.orelse else [Outcome("next", s)])
                        continue
                    for o in self.exec_block(n.body, s, fr):
                        if o.kind in ("next", "continue"):
                            nx.append(o.state)
                        elif o.kind == "break":
                            outs.append(Outcome("next", o.state))
                        else:
                            outs.append(o)
            cur = self.merge(nx)
            if not cur:
                return outs
            if len(cur) > 64:
                return None
        return None

    def s_While(self, n, st, fr):
        outs = self._while_exact(n, st, fr)
        if outs is not None:
            return outs
        outs = []
        carried = self._loop_carried([n.test] + n.body, st, fr)
        s1 = self._havoc(st, carried, fr, n)
        s1 = self._havoc_heap(s1, n.body, fr, n)
        self._raise_sink.append([])
        try:
            br0 = self.branch(n.test, st, fr)
            br = self.branch(n.test, s1, fr)
        finally:
            outs.extend(self._raise_sink.pop())
        after = [s for s, v in br0 if not v]
        for s, v in br:
            if v:
                for o in self.exec_block(n.body, s, fr):
                    if o.kind in ("next", "continue"):
                        if not (isinstance(n.test, ast.Constant) and n.test.value):
                            after.append(o.state)
                    elif o.kind == "break":
                        outs.append(Outcome("next", o.state))
                    else:
                        outs.append(o)
        for c in self.merge(after):
            outs.extend(self.exec_block(n.orelse, c, fr) if n.orelse else [Outcome("next", c)])
        return outs

    def s_With(self, n, st, fr):
        cur = [st]
        outs = []
        ctxs = []
        self._raise_sink.append([])
        try:
            for it in n.items:
                nx = []
                for c in cur:
                    for s, v in self.ev(it.context_expr, c, fr):
                        if it.optional_vars is not None:
                            nx.extend(self.assign(it.optional_vars, mk("enter", v), s, fr, n))
                        else:
                            nx.append(s)
                cur = nx
        finally:
            outs.extend(self._raise_sink.pop())
        for c in cur:
            outs.extend(self.exec_block(n.body, c, fr))
        return outs

    def exc_name(self, v: T):
        if v.op == "exc":
            return v.args[0]
        if v.op == "call" and v.args[0].op == "ext":
            return v.args[0].args[0].split(".")[-1]
        if v.op == "ext":
            return v.args[0].split(".")[-1]
        if v.op == "inst":
            return v.args[0]
        return None

    def handler_matches(self, h, name, fr):
        """True/False/None(maybe)"""
        if h.type is None:
            return True
        names = []
        for t in h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]:
            d = dotted(t)
            names.append(d.split(".")[-1] if d else None)
        if "Exception" in names or "BaseException" in names:
            return True
        if name is None or name == "reraise":
            return None
        if isinstance(name, ClassInfo):
            return None
        for x in names:
            if x and self._ext_sub(name, x):
                return True
        return False

    def s_Try(self, n, st, fr):
        outs = []
        if n.handlers:
            self.exc_snapshots.append([])
        else:
            self.exc_snapshots.append(None)
        try:
            body = self.exec_block(n.body, st, fr)
        finally:
            snaps = self.exc_snapshots.pop()
        pend_raise = [o for o in body if o.kind == "raise"]
        normal = [o for o in body if o.kind == "next"]
        rest = [o for o in body if o.kind not in ("next", "raise")]
        res: List[Outcome] = list(rest)
        for o in normal:
            res.extend(self.exec_block(n.orelse, o.state, fr) if n.orelse else [o])
        if n.handlers:
            if self.hooks.cannot_raise(self, st, n, body):
                entries = []
            else:
                entries = [(s, None, None) for s in self.merge(snaps)] if snaps else [(st, None, None)]
            for o in pend_raise:
                entries.append((o.state, self.exc_name(o.value), o))
            for s, nm, orig in entries:
                handled = False
                for h in n.handlers:
                    mt = True if orig is None else self.handler_matches(h, nm, fr)
                    if mt is False:
                        continue
                    s2 = s.copy()
                    if h.name:
                        s2.vars[(fr.id, h.name)] = orig.value if orig is not None else mk("exc", "implicit")
                    s2.note(f"line {h.lineno}: except handler")
                    for o in self.exec_block(h.body, s2, fr):
                        if o.kind == "raise" and o.value is not None and o.value.op == "exc" and o.value.args[0] == "reraise" and orig is not None:
                            o = Outcome("raise", o.state, orig.value, orig.node)
                        res.append(o)
                    if mt is True and orig is not None:
                        handled = True
                        break
                if orig is not None and not handled:
                    res.append(orig)
            res = self.merge_outcomes(res)
        else:
            res.extend(pend_raise)
        if n.finalbody:
            fin = []
            for o in res:
                for f in self.exec_block(n.finalbody, o.state, fr):
                    if f.kind == "next":
                        fin.append(Outcome(o.kind, f.state, o.value, o.node))
                    else:
                        fin.append(f)
            res = fin
        return res

    # ------------------------------------------------------------ expressions
    def branch(self, e, st, fr) -> List[Tuple[State, bool]]:
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            pend = [st]
            outs = []
            for i, v in enumerate(e.values):
                nx = []
                for s in pend:
                    for s2, b in self.branch(v, s, fr):
                        if isand and not b:
                            outs.append((s2, False))
                        elif not isand and b:
                            outs.append((s2, True))
                        else:
                            nx.append(s2)
                pend = self.merge(nx)
            outs.extend((s, isand) for s in pend)
            return outs
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, not b) for s, b in self.branch(e.operand, st, fr)]
        out = []
        for s, v in self.ev(e, st, fr):
            out.extend(self.decide(s, e, v))
        return out

    def ev(self, e, st, fr) -> List[Tuple[State, T]]:
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisBroken(f"unsupported expression {type(e).__name__}")
        return m(e, st, fr)

    def ev_list(self, es, st, fr) -> List[Tuple[State, list]]:
        cur = [(st, [])]
        for e in es:
            nx = []
            for s, vs in cur:
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s, fr):
                        elts = self.known_elts(s2, v)
                        if elts is not None:
                            nx.append((s2, vs + elts))
                        else:
                            nx.append((s2, vs + [mk("star", v)]))
                else:
                    for s2, v in self.ev(e, s, fr):
                        nx.append((s2, vs + [v]))
            cur = nx
        return cur

    def e_Constant(self, e, st, fr):
        v = e.value
        if v is Ellipsis:
            return [(st, mk("ext", "builtins.Ellipsis"))]
        return [(st, C(v))]

    def e_Name(self, e, st, fr):
        v = self.lookup_var(st, fr, e.id)
        if v is None and e.id == "__class__" and getattr(fr.func, "cls", None) is not None:
            return [(st, mk("cls", fr.func.cls))]
        if v is None:
            if fr.func is not None and _is_local(fr.func.node, e.id) and e.id not in fr.globals_decl:
                # possibly unbound on this path
                return [(st, mk("unbound", e.id))]
            v = self.global_term(st, fr.module, e.id)
        return [(st, v)]

    def e_NamedExpr(self, e, st, fr):
        out = []
        for s, v in self.ev(e.value, st, fr):
            for s2 in self.assign(e.target, v, s, fr, e):
                out.append((s2, v))
        return out

    def e_Starred(self, e, st, fr):
        return [(s, mk("star", v)) for s, v in self.ev(e.value, st, fr)]

    def e_Attribute(self, e, st, fr):
        out = []
        for s, b in self.ev(e.value, st, fr):
            out.extend(self.get_attr(s, e, b, e.attr))
        return out

    def get_attr(self, st, n, b, name) -> List[Tuple[State, T]]:
        h = self.hooks.on_getattr(self, st, n, b, name)
        if h is not None:
            return h
        hv = st.heap.get((b, name))
        if hv is not None:
            return [(st, hv)]
        if b.op == "mod":
            r = self.prog.resolve_global(b.args[0], name)
            if r is None:
                sub = f"{b.args[0].name}.{name}"
                if sub in self.prog.modules:
                    return [(st, mk("mod", self.prog.modules[sub]))]
                return [(st, mk("attr", b, name))]
            return [(st, self._res_term(r, name))]
        if b.op == "ext":
            return [(st, mk("ext", b.args[0] + "." + name))]
        if b.op == "cls":
            c = b.args[0]
            if c.name == "TypeRegister" and name in self.prog.registry:
                return [(st, mk("cls", self.prog.registry[name]))]
            l = c.lookup(name)
            if l is None:
                if name == "__name__":
                    return [(st, C(c.name))]
                return [(st, mk("attr", b, name))]
            if l[0] == "m":
                f = l[1]
                if f.kind == "class":
                    return [(st, mk("bm", b, f))]
                return [(st, mk("fn", f))]
            return [(st, self.class_attr(l[1], name))]
        if b.op == "super":
            c, selft, cls = b.args
            mro = c.mro if c is not None else []
            start = mro.index(cls) + 1 if cls in mro else 0
            for k in mro[start:]:
                if isinstance(k, ClassInfo):
                    if name in k.methods:
                        f = k.methods[name]
                        if f.kind == "property":
                            return self.call_fn(st, n, f, [selft], {}, None)
                        if f.kind == "static":
                            return [(st, mk("fn", f))]
                        return [(st, mk("bm", selft, f))]
                    if name in k.attrs:
                        return [(st, self.class_attr(k, name))]
            return [(st, mk("attr", mk("extsuper", selft), name))]
        if b.op == "enum" and name in ("value", "name"):
            return [(st, C(b.args[2] if name == "value" else b.args[1]))]
        c = self.cls_of(st, b)
        if c is not None:
            l = c.lookup(name)
            if l is not None:
                if l[0] == "m":
                    f = l[1]
                    if f.kind == "property":
                        if self.should_inline(st, n, f, [b], {}):
                            return self.call_fn(st, n, f, [b], {}, None)
                        return [(st, mk("attr", b, name))]
                    if f.kind == "static":
                        return [(st, mk("fn", f))]
                    if f.kind == "class":
                        return [(st, mk("bm", mk("cls", c), f))]
                    return [(st, mk("bm", b, f))]
                # class-level default: instance attributes may shadow
                if name not in self.mutated_attr_names():
                    return [(st, self.class_attr(l[1], name))]
            if name == "__class__":
                return [(st, mk("cls", c))]
        return [(st, mk("attr", b, name))]

    def mk_sub(self, b, i):
        if b.op == "tup" and i.op == "c" and isinstance(cval(i), int) and not any(x.op == "star" for x in b.args):
            if -len(b.args) <= cval(i) < len(b.args):
                return b.args[cval(i)]
        return mk("sub", b, i)

    def e_Subscript(self, e, st, fr):
        out = []
        for s, b in self.ev(e.value, st, fr):
            for s2, i in self.ev(e.slice, s, fr):
                out.extend(self.get_item(s2, e, b, i))
        return out

    def get_item(self, st, n, b, i):
        h = self.hooks.on_getitem(self, st, n, b, i)
        if h is not None:
            return h
        if b.op == "obj":
            c = st.heap.get(("content", b))
            if c is not None:
                if c[0] == "dict" and i.op in ("c", "enum"):
                    d = dict(c[1])
                    if i in d:
                        return [(st, d[i])]
                    if c[2] is not None:
                        return [(st, mk("sub", c[2], i))]
                elif c[0] == "list" and c[2] and i.op == "c" and isinstance(cval(i), int) and -len(c[1]) <= cval(i) < len(c[1]):
                    return [(st, c[1][cval(i)])]
        if b.op == "tup" or (b.op == "c" and isinstance(cval(b), tuple)):
            if i.op == "c" and isinstance(cval(i), (int, bool)):
                e = self.known_elts(st, b)
                if e is not None and -len(e) <= int(cval(i)) < len(e):
                    return [(st, e[int(cval(i))])]
            if i.op == "slice" and all(x.op == "c" and (cval(x) is None or type(cval(x)) is int) for x in i.args):
                e = self.known_elts(st, b)
                if e is not None and cval(i.args[2]) != 0:
                    return [(st, mk("tup", *e[slice(*(cval(x) for x in i.args))]))]
        if b.op == "c" and isinstance(cval(b), (str, bytes)) and i.op == "c" and isinstance(cval(i), int):
            try:
                return [(st, C(cval(b)[cval(i)]))]
            except Exception:
                pass
        if b.op in ("glob", "attr") and i.op in ("c", "enum"):
            tab = self.static_table(b)
            if tab is not None and tab[0] == "dict" and i in tab[1]:
                return [(st, tab[1][i])]
            if tab is not None and tab[0] == "dict" and i.op == "c" and all(k.op == "c" for k in tab[1]):
                self._raise_sink[-1].append(Outcome("raise", st, mk("call", mk("ext", "builtins.KeyError"), (i,), ()), n))
                return []
            if tab is not None and tab[0] == "seq" and i.op == "c" and isinstance(cval(i), int) and -len(tab[1]) <= cval(i) < len(tab[1]):
                return [(st, tab[1][cval(i)])]
        c = self.cls_of(st, b)
        if c is not None and b.op != "cls":
            f = c.find("__getitem__")
            if f is not None and self.should_inline(st, n, f, [b, i], {}):
                return self.call_fn(st, n, f, [b, i], {}, None)
        return [(st, self.mk_sub(b, i))]

    def e_Slice(self, e, st, fr):
        parts = [e.lower, e.upper, e.step]
        cur = [(st, [])]
        for p in parts:
            nx = []
            for s, vs in cur:
                if p is None:
                    nx.append((s, vs + [NONE]))
                else:
                    for s2, v in self.ev(p, s, fr):
                        nx.append((s2, vs + [v]))
            cur = nx
        return [(s, mk("slice", *vs)) for s, vs in cur]

    def e_Tuple(self, e, st, fr):
        return [(s, mk("tup", *vs)) for s, vs in self.ev_list(e.elts, st, fr)]

    def new_obj(self, st, kind, node):
        key = tuple(f.qual.split(".")[-1] for f in self.stack[-3:])
        i = 0
        while True:
            o = mk("obj", kind, (getattr(node, "lineno", 0), getattr(node, "col_offset", 0)) + key, i)
            if ("content", o) not in st.heap:
                return o
            i += 1
            if i > 6:
                return o

    def e_List(self, e, st, fr):
        out = []
        for s, vs in self.ev_list(e.elts, st, fr):
            s = s.copy()
            o = self.new_obj(s, "list", e)
            s.heap[("content", o)] = ("list", tuple(vs), not any(v.op == "star" for v in vs))
            out.append((s, o))
        return out

    def e_Set(self, e, st, fr):
        return [(s, mk("call", mk("ext", "builtins.set"), (mk("tup", *vs),), ())) for s, vs in self.ev_list(e.elts, st, fr)]

    def e_Dict(self, e, st, fr):
        cur = [(st, [], None)]
        for k, v in zip(e.keys, e.values):
            nx = []
            for s, items, rest in cur:
                if k is None:
                    for s2, d in self.ev(v, s, fr):
                        c = s2.heap.get(("content", d)) if d.op == "obj" else None
                        if c is not None and c[0] == "dict":
                            its = [x for x in items if x[0] not in dict(c[1])] + list(c[1])
                            nx.append((s2, its, c[2] if c[2] is not None else rest))
                        else:
                            nx.append((s2, items, d))
                else:
                    for s2, kk in self.ev(k, s, fr):
                        for s3, vv in self.ev(v, s2, fr):
                            nx.append((s3, [x for x in items if x[0] is not kk] + [(kk, vv)], rest))
            cur = nx
        out = []
        for s, items, rest in cur:
            s = s.copy()
            o = self.new_obj(s, "dict", e)
            s.heap[("content", o)] = ("dict", tuple(items), rest)
            out.append((s, o))
        return out

    def e_BinOp(self, e, st, fr):
        out = []
        for s, a in self.ev(e.left, st, fr):
            for s2, b in self.ev(e.right, s, fr):
                out.extend(self.binop(s2, e, BINOPS[type(e.op)], a, b))
        return out

    def binop(self, st, n, op, a, b):
        h = self.hooks.on_binop(self, st, n, op, a, b)
        if h is not None:
            return h
        if a.op in ("c", "enum") and b.op in ("c", "enum"):
            r = self._fold_bin(op, a, b)
            if r is not None:
                return [(st, r)]
        if op == "+":
            ea, eb = self.known_elts(st, a), self.known_elts(st, b)
            if a.op == "tup" and b.op == "tup":
                return [(st, mk("tup", *(a.args + b.args)))]
            if a.op == "obj" and ea is not None and eb is not None and a.args[0] == "list":
                s = st.copy()
                o = self.new_obj(s, "list", n)
                s.heap[("content", o)] = ("list", tuple(ea + eb), True)
                return [(s, o)]
        return [(st, mk("bin", op, a, b))]

    def e_UnaryOp(self, e, st, fr):
        out = []
        for s, a in self.ev(e.operand, st, fr):
            h = self.hooks.on_unary(self, s, e, type(e.op).__name__, a)
            if h is not None:
                out.extend(h)
                continue
            if isinstance(e.op, ast.Not):
                r = self.truth(s, a)
                if r is not None:
                    out.append((s, C(not r)))
                elif a.op == "not":
                    out.append((s, a.args[0]))
                else:
                    out.append((s, mk("not", a)))
            elif a.op in ("c", "enum") and isinstance(e.op, (ast.USub, ast.UAdd, ast.Invert)):
                try:
                    v = self._num(a)
                    out.append((s, C(-v if isinstance(e.op, ast.USub) else (~v if isinstance(e.op, ast.Invert) else +v))))
                except Exception:
                    out.append((s, mk("un", type(e.op).__name__, a)))
            else:
                out.append((s, mk("un", type(e.op).__name__, a)))
        return out

    def e_BoolOp(self, e, st, fr):
        """value of a boolean combination"""
        isand = isinstance(e.op, ast.And)
        pend = [(st, None)]
        outs = []
        for i, v in enumerate(e.values):
            nx = []
            last = i == len(e.values) - 1
            for s, _ in pend:
                for s2, x in self.ev(v, s, fr):
                    if last:
                        outs.append((s2, x))
                    else:
                        for s3, b in self.decide(s2, v, x):
                            if (isand and not b) or (not isand and b):
                                outs.append((s3, x if self.truth(s3, x) is None or x.op not in ("cmp", "isinst", "not") else C(b)))
                            else:
                                nx.append((s3, None))
            pend = nx
        return self._merge_vals(outs)

    def _merge_vals(self, outs):
        g = {}
        for s, v in outs:
            g.setdefault(v, []).append(s)
        r = []
        for v, ss in g.items():
            for s in self.merge(ss):
                r.append((s, v))
        return r

    def e_IfExp(self, e, st, fr):
        outs = []
        for s, b in self.branch(e.test, st, fr):
            outs.extend(self.ev(e.body if b else e.orelse, s, fr))
        return self._merge_vals(outs)

    def e_Compare(self, e, st, fr):
        ops = e.ops
        if len(ops) == 1:
            outs = []
            for s, a in self.ev(e.left, st, fr):
                for s2, b in self.ev(e.comparators[0], s, fr):
                    outs.extend(self.compare(s2, e, CMPOPS[type(ops[0])], a, b))
            return outs
        # chained: a < b < c
        outs = []
        for s, vs in self.ev_list([e.left] + e.comparators, st, fr):
            parts = []
            for i, op in enumerate(ops):
                r = self.compare(s, e, CMPOPS[type(op)], vs[i], vs[i + 1])
                parts.append(r[0][1])
            if all(p.op == "c" for p in parts):
                outs.append((s, C(all(cval(p) for p in parts))))
            else:
                outs.append((s, mk("boolop", "and", tuple(parts))))
        return outs

    def compare(self, st, n, op, a, b):
        h = self.hooks.on_compare(self, st, n, op, a, b)
        if h is not None:
            return h
        # type(x) ==/is cls
        for x, y in ((a, b), (b, a)):
            if x.op == "typeof" and y.op in ("cls", "ext") and op in ("is", "==", "is not", "!="):
                pos, neg = self.type_of(st, x.args[0])
                want = y.args[0] if y.op == "cls" else y.args[0].split(".")[-1]
                for k, p in pos:
                    if k == "exact":
                        r = p == want
                        return [(st, C(r if op in ("is", "==") else not r))]
        t, neg = self.mk_cmp(op, a, b)
        r = self.cmp_const(st, *t.args)
        if r is not None:
            return [(st, C((not r) if neg else r))]
        return [(st, mk("not", t) if neg else t)]

    def e_Lambda(self, e, st, fr):
        fr.keep = True
        return [(st, mk("lam", e, fr))]

    def e_JoinedStr(self, e, st, fr):
        cur = [(st, [])]
        for v in e.values:
            nx = []
            for s, vs in cur:
                if isinstance(v, ast.Constant):
                    nx.append((s, vs + [C(v.value)]))
                else:
                    for s2, x in self.ev(v.value, s, fr):
                        nx.append((s2, vs + [x]))
            cur = nx
        out = []
        for s, vs in cur:
            if all(v.op == "c" and isinstance(cval(v), (str, int)) for v in vs) and all(not isinstance(v, ast.FormattedValue) or (v.conversion == -1 and v.format_spec is None) for v in e.values):
                out.append((s, C("".join(str(cval(v)) for v in vs))))
            else:
                out.append((s, mk("fstr", tuple(vs))))
        return out

    def e_FormattedValue(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        if e.value is None:
            return [(st, mk("yielded"))]
        return [(s, mk("yielded")) for s, v in self.ev(e.value, st, fr)]

    e_YieldFrom = e_Yield

    exact_sets = False  # set comprehensions over known elements become set objects

    def _comp(self, e, kind, elts, st, fr):
        # comprehension scope: own frame
        f = self.new_frame(fr.func, fr, fr.module, fr.cls)
        f.globals_decl = set(fr.globals_decl)
        if kind in ("list", "gen", "dictc") or kind == "set" and self.exact_sets:
            r = self._comp_exact(e, kind, elts, st, f)
            if r is not None:
                return r
        cur = [st]
        iters = []
        for g in e.generators:
            nx = []
            for s in cur:
                for s2, it in self.ev(g.iter, s, f):
                    iters.append(it)
                    for s3 in self.assign(g.target, self.elem_of(it), s2, f, e):
                        conds = [s3]
                        for c in g.ifs:
                            conds = [x for y in conds for x, b in self.branch(c, y, f) if b]
                        nx.extend(conds)
            cur = self.merge(nx)
        vals = []
        marks = st.marks
        outst = st
        for s in cur:
            for s2, vs in self.ev_list(elts, s, f):
                vals.append(tuple(vs))
                marks = marks | s2.marks
        vals = tuple(dict.fromkeys(vals))
        s = st.copy()
        s.marks = marks
        fv = mk("comp", kind, tuple(mk("tup", *v) if len(v) > 1 else v[0] for v in vals[:6]), tuple(dict.fromkeys(iters)))
        return [(s, fv)]

    def _comp_exact(self, e, kind, elts, st, f):
        """exact unrolling over known literals; None when some iterable is unknown or there are too many paths"""
        states = [(st, [])]
        res = self._comp_gen(e, 0, states, elts, f)
        if res is None:
            return None
        out = []
        for s, vs in res:
            s = s.copy()
            for k in [k for k in s.vars if k[0] == f.id]:
                del s.vars[k]
            if kind == "gen":
                out.append((s, mk("tup", *[v[0] for v in vs])))
            elif kind == "list":
                o = self.new_obj(s, "list", e)
                s.heap[("content", o)] = ("list", tuple(v[0] for v in vs), True)
                out.append((s, o))
            elif kind == "set":
                if not all(v[0].op in ("c", "enum", "cls") for v in vs):
                    return None
                o = self.new_obj(s, "set", e)
                s.heap[("content", o)] = ("list", tuple(dict.fromkeys(v[0] for v in vs)), True)
                out.append((s, o))
            elif all(v[0].op in ("c", "enum", "cls") for v in vs):
                d = {}
                for k, v in vs:
                    d[k] = v
                o = self.new_obj(s, "dict", e)
                s.heap[("content", o)] = ("dict", tuple(d.items()), None)
                out.append((s, o))
            else:
                return None
        return out

    def _comp_gen(self, e, gi, states, elts, f):
        """run generator gi and the ones inside it from every (state, collected) pair"""
        if gi == len(e.generators):
            return [(s2, vs + [tuple(v)]) for s, vs in states for s2, v in self.ev_list(elts, s, f)]
        g = e.generators[gi]
        out = []
        for s, vs in states:
            its = self.ev(g.iter, s, f)
            if len(its) != 1:
                return None
            ke = self.known_elts(its[0][0], its[0][1])
            if ke is None or len(ke) > (10 if len(e.generators) == 1 else 8):
                return None
            cur = [(its[0][0], vs)]
            for x in ke:
                nx = []
                for s1, v1 in cur:
                    for s2 in self.assign(g.target, x, s1, f, e):
                        keep = [(s2, True)]
                        for c in g.ifs:
                            keep = [(z, b) for y, k in keep for z, b in (self.branch(c, y, f) if k else [(y, False)])]
                        for s3, b in keep:
                            if not b:
                                nx.append((s3, v1))
                                continue
                            r = self._comp_gen(e, gi + 1, [(s3, v1)], elts, f)
                            if r is None:
                                return None
                            nx.extend(r)
                cur = nx
                if len(cur) > 16:
                    return None
            out.extend(cur)
        return out

    def e_ListComp(self, e, st, fr):
        return self._comp(e, "list", [e.elt], st, fr)

    def e_SetComp(self, e, st, fr):
        return self._comp(e, "set", [e.elt], st, fr)

    def e_GeneratorExp(self, e, st, fr):
        return self._comp(e, "gen", [e.elt], st, fr)

    def e_DictComp(self, e, st, fr):
        return self._comp(e, "dictc", [e.key, e.value], st, fr)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st, fr):
        out = []
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            selft = self.lookup_var(st, fr, fr.func.params()[0]) if fr.func and fr.func.params() else None
            if e.args:
                out2 = []
                for s, vs in self.ev_list(e.args, st, fr):
                    cls = vs[0].args[0] if vs[0].op == "cls" else fr.cls
                    stf = vs[1] if len(vs) > 1 else selft
                    c = stf.args[0] if stf.op == "cls" else self.cls_of(s, stf)
                    out2.append((s, mk("super", c or cls, stf, cls)))
                return out2
            c = (selft.args[0] if selft.op == "cls" else self.cls_of(st, selft)) if selft is not None else None
            return [(st, mk("super", c or fr.cls, selft, fr.cls))]
        for s, f in self.ev(e.func, st, fr):
            for s2, args in self.ev_list(e.args, s, fr):
                cur = [(s2, {}, None)]
                for kw in e.keywords:
                    nx = []
                    for s3, kws, rest in cur:
                        for s4, v in self.ev(kw.value, s3, fr):
                            if kw.arg is not None:
                                k2 = dict(kws)
                                k2[kw.arg] = v
                                nx.append((s4, k2, rest))
                            else:
                                c = s4.heap.get(("content", v)) if v.op == "obj" else None
                                if c is not None and c[0] == "dict":
                                    k2 = dict(kws)
                                    for kk, vv in c[1]:
                                        if kk.op == "c" and isinstance(cval(kk), str):
                                            k2[cval(kk)] = vv
                                    nx.append((s4, k2, c[2] if c[2] is not None else rest))
                                else:
                                    nx.append((s4, kws, v))
                    cur = nx
                for s3, kws, rest in cur:
                    if rest is not None:
                        kws = dict(kws)
                        kws["**"] = rest
                    out.extend(self.call(s3, e, f, args, kws, fr))
        return out

    def call(self, st, n, f, args, kwargs, fr):
        self.tick()
        h = self.hooks.on_call(self, st, n, f, args, kwargs)
        if h is not None:
            return h
        if f.op == "fn":
            return self.call_fn(st, n, f.args[0], args, kwargs, fr)
        if f.op == "bm":
            return self.call_fn(st, n, f.args[1], [f.args[0]] + args, kwargs, fr)
        if f.op == "clo":
            fi, dfr = self.closures[id(f.args[0])][0], f.args[1]
            return self.call_fn(st, n, fi, args, kwargs, fr, parent=dfr)
        if f.op == "lam":
            return self.call_lambda(st, n, f, args, kwargs)
        if f.op == "partial":
            kw = dict(f.args[2])
            kw.update(kwargs)
            return self.call(st, n, f.args[0], list(f.args[1]) + args, kw, fr)
        if f.op == "cls":
            return self.instantiate(st, n, f.args[0], args, kwargs, fr)
        if f.op == "ext":
            r = self.call_ext(st, n, f.args[0], args, kwargs, fr)
            if r is not None:
                return r
        if f.op == "attr":
            r = self.call_method_model(st, n, f.args[0], f.args[1], args, kwargs)
            if r is not None:
                return r
        return [(st, self.call_term(f, args, kwargs))]

    def call_term(self, f, args, kwargs):
        return mk("call", f, tuple(args), tuple(sorted(kwargs.items())))

    def instantiate(self, st, n, c, args, kwargs, fr):
        if self.is_enum_class(c):
            return [(st, self.call_term(mk("cls", c), args, kwargs))]
        return [(st, mk("inst", c, tuple(args), tuple(sorted(kwargs.items()))))]

    def call_lambda(self, st, n, f, args, kwargs):
        node, dfr = f.args
        fi = FuncInfo("<lambda>", f"{dfr.func.qual if dfr.func else '?'}.<lambda>", node, dfr.module, dfr.cls)
        bind = self.bind(st, fi, args, kwargs, n)
        if bind is None or len(self.stack) > self.max_depth + 2:
            return [(st, self.call_term(f, args, kwargs))]
        fr = self.new_frame(dfr.func, dfr, dfr.module, dfr.cls)
        s = st.copy()
        for k, v in bind.items():
            s.vars[(fr.id, k)] = v
        out = []
        for s2, v in self.ev(node.body, s, fr):
            s2 = s2.copy()
            for k in [k for k in s2.vars if k[0] == fr.id]:
                del s2.vars[k]
            out.append((s2, v))
        return out

    def should_inline(self, st, n, fn, args, kwargs):
        r = self.hooks.inline(self, st, n, fn, args, kwargs)
        if r is not None:
            base = r
        else:
            base = self.inline_default
        if not base:
            return False
        if len(self.stack) >= self.max_depth:
            return False
        if sum(1 for f in self.stack if f.node is fn.node) >= self.max_recursion:
            return False
        if fn.is_generator():
            return False
        return True

    def call_fn(self, st, n, fn: FuncInfo, args, kwargs, fr, parent=None):
        if not self.should_inline(st, n, fn, args, kwargs):
            self.opaque_calls.add(fn.qual)
            if fn.kind in ("method", "property") and args:
                return [(st, mk("call", mk("bm", args[0], fn), tuple(args[1:]), tuple(sorted(kwargs.items()))))]
            return [(st, self.call_term(mk("fn", fn), args, kwargs))]
        bind = self.bind(st, fn, args, kwargs, n)
        if bind is None:
            return [(st, self.call_term(mk("fn", fn), args, kwargs))]
        st = bind.pop("__state__", st)
        s = st.copy()
        s.note(f"line {getattr(n, 'lineno', '?')}: enter {fn.qual.replace('riptable.', '')}")
        # snapshots inside the callee belong to an enclosing try of the caller: record entry only
        self.exc_snapshots.append(None)
        try:
            outs = self.exec_function(fn, bind, s, parent)
        finally:
            self.exc_snapshots.pop()
        res = []
        for o in outs:
            if o.kind == "return":
                res.append((o.state, o.value))
            elif o.kind == "raise":
                self._raise_sink[-1].append(o)
        return res

    def default_term(self, st, fn, dnode):
        f = self.fold(fn.module, fn.cls, dnode)
        if f is not None:
            return f
        if isinstance(dnode, (ast.Dict, ast.List)) and not (getattr(dnode, "keys", None) or getattr(dnode, "elts", None)):
            return mk("default", ast.unparse(dnode))
        fr = self.new_frame(None, None, fn.module, fn.cls)
        try:
            v = self.ev(dnode, State(), fr)
            if len(v) == 1 and v[0][1].op != "obj":
                return v[0][1]
        except Exception:
            pass
        return mk("default", ast.unparse(dnode))

    def bind(self, st, fn, args, kwargs, n) -> Optional[dict]:
        a = fn.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        kwonly = [p.arg for p in a.kwonlyargs]
        kwargs = dict(kwargs)
        rest = kwargs.pop("**", None)
        bind = {}
        args = list(args)
        star = None
        i = 0
        extra = []
        for x in args:
            if x.op == "star":
                star = x if star is None else star
                extra.append(x)
                continue
            if star is not None:
                extra.append(x)
            elif i < len(pos):
                bind[pos[i]] = x
                i += 1
            else:
                extra.append(x)
        if star is not None:
            # unknown positional tail: parameters not given otherwise may come from it
            for p in pos[i:]:
                if p not in kwargs and not a.vararg:
                    bind[p] = mk("starorder", star.args[0], p)
                elif p not in kwargs and a.vararg:
                    bind.setdefault(p, mk("starorder", star.args[0], p))
        if a.vararg:
            bind[a.vararg.arg] = mk("tup", *extra) if not (len(extra) == 1 and extra[0].op == "star") else extra[0].args[0]
        elif extra and star is None:
            return None  # too many args
        unknown = []
        for k, v in kwargs.items():
            if k in pos or k in kwonly:
                if k in bind and bind[k].op != "starorder":
                    return None
                bind[k] = v
            else:
                unknown.append((C(k), v))
        if unknown and not a.kwarg:
            return None
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults)) if a.defaults else {}
        for k, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                defaults[k] = d
        for p in pos + kwonly:
            if p not in bind:
                if rest is not None:
                    dv = self.default_term(st, fn, defaults[p]) if p in defaults else NONE
                    bind[p] = mk("kwor", rest, p, dv)
                elif p in defaults:
                    bind[p] = self.default_term(st, fn, defaults[p])
                else:
                    return None
        if a.kwarg:
            s = st.copy()
            o = self.new_obj(s, "dict", n if hasattr(n, "lineno") else fn.node)
            s.heap[("content", o)] = ("dict", tuple(unknown), rest)
            bind[a.kwarg.arg] = o
            bind["__state__"] = s
        return bind

    # -- builtins and simple externals
    def class_list(self, st, t) -> Optional[list]:
        """second argument of isinstance"""
        if t.op == "cls":
            return [t.args[0]]
        if t.op == "ext":
            return [t.args[0].split("builtins.")[-1]]
        if t.op == "tup":
            out = []
            for x in t.args:
                r = self.class_list(st, x)
                if r is None:
                    return None
                out.extend(r)
            return out
        if t.op == "typeof":
            c = self.cls_of(st, t.args[0])
            return [c] if c is not None else None
        return None

    def call_ext(self, st, n, name, args, kwargs, fr):
        if name.startswith("builtins."):
            b = name[9:]
            if b == "isinstance" and len(args) == 2:
                cl = self.class_list(st, args[1])
                if cl is None:
                    return [(st, mk("isinst?", args[0], args[1]))]
                rs = [self.isinst(st, args[0], c) for c in cl]
                if any(r is True for r in rs):
                    return [(st, TRUE)]
                if all(r is False for r in rs):
                    return [(st, FALSE)]
                return [(st, mk("isinst", args[0], tuple(cl)))]
            if b == "issubclass" and len(args) == 2:
                cl = self.class_list(st, args[1])
                if cl is not None and args[0].op == "cls":
                    return [(st, C(any(self.subclass(args[0].args[0], c) for c in cl)))]
                return None
            if b == "type" and len(args) == 1:
                pos, _ = self.type_of(st, args[0])
                for k, p in pos:
                    if k == "exact":
                        return [(st, mk("cls", p) if isinstance(p, ClassInfo) else mk("ext", "builtins." + p if "." not in p else p))]
                return [(st, mk("typeof", args[0]))]
            if b in ("getattr",) and len(args) >= 2 and args[1].op == "c" and isinstance(cval(args[1]), str):
                r = self.get_attr(st, n, args[0], cval(args[1]))
                if len(args) == 3:
                    out = []
                    for s, v in r:
                        if v.op == "attr":
                            out.append((s, mk("getattr", args[0], cval(args[1]), args[2])))
                        else:
                            out.append((s, v))
                    return out
                return r
            if b == "setattr" and len(args) == 3 and args[1].op == "c" and isinstance(cval(args[1]), str):
                return [(s, NONE) for s in self.set_attr(st, n, args[0], cval(args[1]), args[2])]
            if b == "delattr" and len(args) == 2 and args[1].op == "c":
                h = self.hooks.on_delattr(self, st, n, args[0], cval(args[1]))
                if h is not None:
                    return [(s, NONE) for s in h]
                s = st.copy()
                s.heap.pop((args[0], cval(args[1])), None)
                return [(s, NONE)]
            if b == "hasattr" and len(args) == 2 and args[1].op == "c":
                nm = cval(args[1])
                if (args[0], nm) in st.heap:
                    return [(st, TRUE)]
                c = self.cls_of(st, args[0])
                if c is not None and c.lookup(nm) is not None:
                    return [(st, TRUE)]
                return [(st, mk("hasattr", args[0], nm))]
            if b == "len" and len(args) == 1:
                e = self.known_elts(st, args[0])
                if e is not None:
                    return [(st, C(len(e)))]
                if args[0].op == "obj":
                    c = st.heap.get(("content", args[0]))
                    if c is not None and c[0] == "dict" and c[2] is None:
                        return [(st, C(len(c[1])))]
                if args[0].op == "c" and isinstance(cval(args[0]), (str, bytes, tuple)):
                    return [(st, C(len(cval(args[0]))))]
                c = self.cls_of(st, args[0])
                if c is not None:
                    f = c.find("__len__")
                    if f is not None and self.should_inline(st, n, f, [args[0]], {}):
                        return self.call_fn(st, n, f, [args[0]], {}, fr)
                return None
            if b == "bool" and len(args) == 1:
                r = self.truth(st, args[0])
                if r is not None:
                    return [(st, C(r))]
                return None
            if b in ("list", "tuple") and len(args) <= 1:
                e = [] if not args else self.known_elts(st, args[0])
                if e is not None:
                    if b == "tuple":
                        return [(st, mk("tup", *e))]
                    s = st.copy()
                    o = self.new_obj(s, "list", n)
                    s.heap[("content", o)] = ("list", tuple(e), True)
                    return [(s, o)]
                s = st.copy()
                if b == "list":
                    t = self.call_term(mk("ext", name), args, kwargs)
                    s.types[t] = (frozenset([("exact", "list")]), frozenset())
                    return [(s, t)]
                t = self.call_term(mk("ext", name), args, kwargs)
                s.types[t] = (frozenset([("exact", "tuple")]), frozenset())
                return [(s, t)]
            if b in ("any", "all") and len(args) == 1:
                e = self.known_elts(st, args[0])
                if e is not None:
                    ts = [self.truth(st, x) for x in e]
                    if b == "any" and any(x is True for x in ts) or b == "all" and any(x is False for x in ts):
                        return [(st, C(b == "any"))]
                    if all(x is not None for x in ts):
                        return [(st, C(b == "all"))]
                return None
            if b == "reversed" and len(args) == 1:
                e = self.known_elts(st, args[0])
                if e is not None:
                    return [(st, mk("tup", *reversed(e)))]
                return None
            if b in ("zip", "enumerate") and args and not kwargs and not any(a.op == "star" for a in args):
                es = [self.known_elts(st, a) for a in args]
                if all(e is not None for e in es):
                    if b == "zip":
                        return [(st, mk("tup", *[mk("tup", *x) for x in zip(*es)]))]
                    if len(args) == 1:
                        return [(st, mk("tup", *[mk("tup", C(i), x) for i, x in enumerate(es[0])]))]
                return None
            if b == "dict" and len(args) == 1 and not kwargs:
                c = st.heap.get(("content", args[0])) if args[0].op == "obj" else None
                if c is not None and c[0] == "dict":
                    s = st.copy()
                    o = self.new_obj(s, "dict", n)
                    s.heap[("content", o)] = c
                    return [(s, o)]
                e = self.known_elts(st, args[0])
                if e is not None and all(x.op == "tup" and len(x.args) == 2 and x.args[0].op in ("c", "enum") for x in e):
                    d = {}
                    for x in e:
                        d[x.args[0]] = x.args[1]
                    s = st.copy()
                    o = self.new_obj(s, "dict", n)
                    s.heap[("content", o)] = ("dict", tuple(d.items()), None)
                    return [(s, o)]
                return None
            if b == "dict" and not args:
                s = st.copy()
                kw = dict(kwargs)
                rest = kw.pop("**", None)
                o = self.new_obj(s, "dict", n)
                s.heap[("content", o)] = ("dict", tuple((C(k), v) for k, v in kw.items()), rest)
                return [(s, o)]
            if b in ("int", "float", "str") and len(args) == 1 and args[0].op in ("c", "enum"):
                try:
                    return [(st, C({"int": int, "float": float, "str": str}[b](self._num(args[0]))))]
                except Exception:
                    return None
            if b in ("int", "str", "float") and len(args) >= 1:
                t = self.call_term(mk("ext", name), args, kwargs)
                s = st.copy()
                s.types[t] = (frozenset([("exact", b)]), frozenset())
                return [(s, t)]
            if b == "callable" and len(args) == 1 and args[0].op in ("fn", "bm", "cls", "lam", "clo"):
                return [(st, TRUE)]
            if b in ("abs", "min", "max") and args and all(a.op == "c" for a in args):
                try:
                    return [(st, C({"abs": abs, "min": min, "max": max}[b](*[cval(a) for a in args])))]
                except Exception:
                    return None
            return None
        if name == "typing.cast" and len(args) == 2:
            return [(st, args[1])]
        if name in ("functools.partial",) and args:
            return [(st, mk("partial", args[0], tuple(args[1:]), tuple(sorted(kwargs.items()))))]
        if name in ("operator.attrgetter",):
            return None
        return None

    def call_method_model(self, st, n, b, name, args, kwargs):
        if b.op in ("glob", "attr"):
            tab = self.static_table(b)
            if tab is not None and tab[0] == "dict":
                if name == "get" and args and args[0].op == "c" and all(k.op == "c" for k in tab[1]):
                    return [(st, tab[1].get(args[0], args[1] if len(args) > 1 else NONE))]
                if name == "keys":
                    return [(st, mk("tup", *tab[1].keys()))]
                if name == "values":
                    return [(st, mk("tup", *tab[1].values()))]
                if name == "items":
                    return [(st, mk("tup", *[mk("tup", k, v) for k, v in tab[1].items()]))]
        if b.op == "obj":
            c = st.heap.get(("content", b))
            if c is None:
                return None
            if c[0] == "list":
                if name == "append" and len(args) == 1:
                    s = st.copy()
                    if c[2]:
                        s.heap[("content", b)] = ("list", c[1] + (args[0],), len(c[1]) < 24)
                    else:
                        s.heap[("content", b)] = ("list", c[1] if args[0] in c[1] else c[1] + (args[0],), False)
                    return [(s, NONE)]
                if name == "extend" and len(args) == 1:
                    e = self.known_elts(st, args[0])
                    s = st.copy()
                    if e is not None:
                        s.heap[("content", b)] = ("list", c[1] + tuple(e), c[2])
                    else:
                        s.heap[("content", b)] = ("list", c[1] + (mk("star", args[0]),), False)
                    return [(s, NONE)]
                if name in ("reverse", "clear") and c[2] and not args:
                    s = st.copy()
                    s.heap[("content", b)] = ("list", tuple(reversed(c[1])) if name == "reverse" else (), True)
                    return [(s, NONE)]
                if name == "insert" and c[2] and len(args) == 2 and args[0].op == "c" and isinstance(cval(args[0]), int):
                    s = st.copy()
                    l = list(c[1])
                    l.insert(cval(args[0]), args[1])
                    s.heap[("content", b)] = ("list", tuple(l), True)
                    return [(s, NONE)]
                if name in ("insert", "remove", "reverse", "sort", "clear", "pop"):
                    s = st.copy()
                    s.heap[("content", b)] = ("list", c[1], False)
                    if name == "pop":
                        return [(s, self.call_term(mk("attr", b, name), args, kwargs))]
                    return [(s, NONE)]
                if name == "copy":
                    s = st.copy()
                    o = self.new_obj(s, "list", n)
                    s.heap[("content", o)] = c
                    return [(s, o)]
                return None
            if c[0] == "dict":
                d = dict(c[1])
                if name in ("get", "pop", "setdefault") and args and args[0].op in ("c", "enum", "fn", "cls") and (args[0].op in ("c", "enum") or all(x.op in ("c", "enum", "fn", "cls") for x in d)):
                    k = args[0]
                    default = args[1] if len(args) > 1 else NONE
                    if k in d:
                        s = st
                        if name == "pop":
                            s = st.copy()
                            s.heap[("content", b)] = ("dict", tuple((x, y) for x, y in c[1] if x is not k), c[2])
                        return [(s, d[k])]
                    v = default if c[2] is None else mk("kwor", c[2], self._num(k), default)
                    if name == "setdefault":
                        s = st.copy()
                        s.heap[("content", b)] = ("dict", c[1] + ((k, v),), c[2])
                        return [(s, v)]
                    return [(st, v)]
                if name == "copy":
                    s = st.copy()
                    o = self.new_obj(s, "dict", n)
                    s.heap[("content", o)] = c
                    return [(s, o)]
                if name == "update":
                    s = st.copy()
                    items = dict(c[1])
                    rest = c[2]
                    for a in args:
                        c2 = st.heap.get(("content", a)) if a.op == "obj" else None
                        if c2 is not None and c2[0] == "dict":
                            items.update(dict(c2[1]))
                            rest = c2[2] if c2[2] is not None else rest
                        else:
                            rest = a
                    for k, v in kwargs.items():
                        if k != "**":
                            items[C(k)] = v
                    s.heap[("content", b)] = ("dict", tuple(items.items()), rest)
                    return [(s, NONE)]
                if name == "clear" and not args:
                    s = st.copy()
                    s.heap[("content", b)] = ("dict", (), None)
                    return [(s, NONE)]
                if name in ("popitem", "pop", "setdefault", "move_to_end", "__setitem__", "__delitem__"):
                    s = st.copy()
                    s.heap[("content", b)] = ("dict", (), mk("call", mk("attr", b, name), tuple(args), ()))
                    return [(s, mk("call", mk("attr", b, name), tuple(args), ()))]
                if name in ("keys", "values", "items") and c[2] is None and not args:
                    if name == "keys":
                        return [(st, mk("tup", *d.keys()))]
                    if name == "values":
                        return [(st, mk("tup", *d.values()))]
                    return [(st, mk("tup", *[mk("tup", k, v) for k, v in d.items()]))]
            return None
        if b.op == "c" and isinstance(cval(b), str) and all(a.op == "c" for a in args) and not kwargs:
            if name in ("lower", "upper", "startswith", "endswith", "strip", "replace", "capitalize", "lstrip", "rstrip"):
                try:
                    return [(st, C(getattr(cval(b), name)(*[cval(a) for a in args])))]
                except Exception:
                    return None
        return None


def _as_load(t):
    import copy as _c

    x = _c.copy(t)
    x.ctx = ast.Load()
    return x


_LOCALS_CACHE = {}


def _is_local(fnode, name):
    s = _LOCALS_CACHE.get(fnode)
    if s is None:
        s = set()
        for x in walk_own(fnode):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                s.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                s.add(x.name)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                s.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for a in x.names:
                    s.add((a.asname or a.name).split(".")[0])
        # comprehension targets are not function locals
        for x in walk_own(fnode):
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for g in x.generators:
                    for y in ast.walk(g.target):
                        if isinstance(y, ast.Name) and not _stored_elsewhere(fnode, y.id, x):
                            s.discard(y.id)
        _LOCALS_CACHE[fnode] = s
    return name in s


def _stored_elsewhere(fnode, name, comp):
    inside = set(id(y) for c in walk_own(fnode) if isinstance(c, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) for y in ast.walk(c))
    for x in walk_own(fnode):
        if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) and id(x) not in inside:
            return True
    return False


def _definitely_first_written(stmts):
    """names whose first occurrence on the straight-line prefix of the block is a write"""
    first = set()
    seen_read = set()
    for s in stmts:
        if isinstance(s, ast.expr):
            for x in ast.walk(s):
                if isinstance(x, ast.Name):
                    seen_read.add(x.id)
            continue
        if isinstance(s, ast.Assign):
            for x in ast.walk(s.value):
                if isinstance(x, ast.Name):
                    seen_read.add(x.id)
            for t in s.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        if isinstance(x.ctx, ast.Store):
                            if x.id not in seen_read:
                                first.add(x.id)
                        else:
                            seen_read.add(x.id)
        elif isinstance(s, ast.If):
            for x in ast.walk(s.test):
                if isinstance(x, ast.Name):
                    seen_read.add(x.id)
            a = _definitely_first_written(s.body)
            b = _definitely_first_written(s.orelse)
            reads = {x.id for y in s.body + s.orelse for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
            both = (a & b) - seen_read
            first |= both
            seen_read |= reads - both
        else:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    if x.id not in first:
                        seen_read.add(x.id)
            if isinstance(s, ast.For):
                for x in ast.walk(s.target):
                    if isinstance(x, ast.Name) and x.id not in seen_read:
                        pass
    return first
