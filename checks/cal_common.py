"""Calendar/clock arithmetic: normal forms ("chains") of date/time field computations, and evaluation of literal tables.

A chain is the sequence of primitive steps applied to the base quantity (UTC nanoseconds 'U', wall-clock nanoseconds 'W' or raw
days 'D'): ('%',m) ('//',d) ('/',d) ('+',k) ('*',k) ('fl',m) [x - x % m], ('ss',table,side) [sorted-table lookup], ('soy',units)
[time since start of year], ('som',table) [time since start of month].  Chains are brought to a normal form by arithmetic identities,
so differently written but equal computations coincide.
"""
from __future__ import annotations

import ast
import datetime as _d

import sa.absint as _ab
from sa.absint import C, Interp, State, T, cval, is_const, mk, show, subterms
from sa.prog import AnalysisBroken

from .dt_common import (ARR, DTHooks, FAM, ISNAN, NS_DAY, SCA, _defaults, call_name)

US, MS, SEC = 1_000, 1_000_000, 1_000_000_000
MIN, HOUR, DAY = 60 * SEC, 3600 * SEC, NS_DAY


# ------------------------------------------------------------------ literal tables
def literal(prog, mod, e, depth=0):
    """value of a module-level literal expression (numbers, strings, lists, arithmetic on them, array constructors)"""
    if depth > 40:
        return None
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, (ast.List, ast.Tuple)):
        out = []
        for x in e.elts:
            v = literal(prog, mod, x, depth + 1)
            if v is None and not (isinstance(x, ast.Constant) and x.value is None):
                return None
            out.append(v)
        return out
    if isinstance(e, ast.Dict):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                return None
            a, b = literal(prog, mod, k, depth + 1), literal(prog, mod, v, depth + 1)
            if a is None or b is None:
                return None
            out[a] = b
        return out
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)):
        v = literal(prog, mod, e.operand, depth + 1)
        if isinstance(v, list):
            return [-x for x in v] if isinstance(e.op, ast.USub) else v
        return None if v is None else (-v if isinstance(e.op, ast.USub) else v)
    if isinstance(e, ast.BinOp):
        a, b = literal(prog, mod, e.left, depth + 1), literal(prog, mod, e.right, depth + 1)
        if a is None or b is None:
            return None
        op = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y, ast.FloorDiv: lambda x, y: x // y,
              ast.Div: lambda x, y: x / y, ast.Mod: lambda x, y: x % y, ast.Pow: lambda x, y: x ** y}.get(type(e.op))
        if op is None:
            return None
        try:
            if isinstance(a, list) and not isinstance(b, list):
                return [op(x, b) for x in a]
            if isinstance(b, list) and not isinstance(a, list):
                return [op(a, x) for x in b]
            if isinstance(a, list):
                return [op(x, y) for x, y in zip(a, b)]
            return op(a, b)
        except Exception:
            return None
    if isinstance(e, ast.Call):
        nm = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", None)
        if nm in ("FastArray", "array", "asarray", "list", "tuple") and e.args:
            return literal(prog, mod, e.args[0], depth + 1)
        if nm in ("DateTimeStringToNanos",) and e.args:
            v = literal(prog, mod, e.args[0], depth + 1)
            if isinstance(v, list) and all(isinstance(x, str) for x in v):
                return [str_to_nanos(x) for x in v]
            return None
        if nm in ("int", "float") and len(e.args) == 1:
            v = literal(prog, mod, e.args[0], depth + 1)
            return None if v is None else (int(v) if nm == "int" else float(v))
        if nm in ("int64", "int32", "float64") and len(e.args) == 1:
            return literal(prog, mod, e.args[0], depth + 1)
        if nm in ("astype", "copy", "view") and isinstance(e.func, ast.Attribute):
            return literal(prog, mod, e.func.value, depth + 1)
        return None
    if isinstance(e, ast.ListComp) or isinstance(e, ast.GeneratorExp):
        return None
    if isinstance(e, (ast.Name, ast.Attribute)):
        r = prog.resolve_expr(mod, e)
        if r is None:
            return None
        if r[0] == "val":
            return glob_literal(prog, r[1], r[2], exclude=e if isinstance(e, ast.Name) else None, depth=depth + 1)
        if r[0] == "clsattr":
            c, name = r[1], r[2]
            node = c.attrs.get(name)
            if node is not None:
                return literal(prog, c.module, node, depth + 1)
    return None


def glob_literal(prog, mod, name, exclude=None, depth=0):
    """value of a module-level name: its last assignment; an assignment that mentions the name uses the previous one"""
    nodes = mod.assigns.get(name)
    if not nodes:
        return None
    idx = len(nodes) - 1
    if exclude is not None:
        for i, n in enumerate(nodes):
            if any(x is exclude for x in ast.walk(n)):
                idx = i - 1
    if idx < 0:
        return None
    return literal(prog, mod, nodes[idx], depth)


def str_to_nanos(s):
    t = _d.datetime.fromisoformat(s)
    x = t - _d.datetime(1970, 1, 1)
    return (x.days * 86400 + x.seconds) * SEC + x.microseconds * 1000


def _days(y, m=1, d=1):
    return (_d.date(y, m, d) - _d.date(1970, 1, 1)).days


YEARS_D = [_days(y) for y in range(1970, 2100)]
YDAY_D = [_days(1970, m) for m in range(1, 13)]
YDAYL_D = [_days(1972, m) - _days(1972) for m in range(1, 13)]
TABLES = {"years-D": YEARS_D, "years-W": [x * DAY for x in YEARS_D], "yday-D": YDAY_D, "yday-W": [x * DAY for x in YDAY_D],
          "ydayleap-D": YDAYL_D, "ydayleap-W": [x * DAY for x in YDAYL_D]}


def table_kind(prog, t):
    """kind of a literal sorted table by its content; ('?') when it is not a calendar table"""
    if t.op != "glob":
        return None
    mod = prog.modules.get(t.args[0])
    v = glob_literal(prog, mod, t.args[1]) if mod else None
    if not isinstance(v, list):
        return None
    for k, w in TABLES.items():
        if v == w:
            return k
        if k.startswith("years") and len(v) > 100 and v == w[:len(v)]:
            return k
    return f"wrong:{t.args[1]}"


# ------------------------------------------------------------------ chains
DUN = {"__mod__": "%", "__floordiv__": "//", "__truediv__": "/", "__add__": "+", "__sub__": "-", "__mul__": "*", "__radd__": "+", "__rmul__": "*",
       "__iadd__": "+", "__isub__": "-", "__imod__": "%", "__ifloordiv__": "//"}
NPF = {"mod": "%", "remainder": "%", "floor_divide": "//", "divide": "/", "true_divide": "/", "add": "+", "subtract": "-", "multiply": "*"}
PASS = {"view", "astype", "copy", "ravel", "item"}


class Chains:
    def __init__(self, prog, an, selfterm, selfbase, tzfix=("fix_dst",)):
        self.prog, self.an = prog, an
        self.selfterm, self.selfbase = selfterm, selfbase
        self.tzfix = tzfix
        self.memo = {}

    def num(self, t):
        if t.op in ("c", "enum"):
            v = self.an._num(t)
            if isinstance(v, bool):
                return None
            return v if isinstance(v, (int, float)) else None
        return None

    def ch(self, t):
        if t not in self.memo:
            self.memo[t] = None
            r = self._ch(t)
            self.memo[t] = None if r is None else (r[0], norm(r[1]))
        return self.memo[t]

    def step(self, t, *ops):
        c = self.ch(t)
        return None if c is None else (c[0], c[1] + tuple(ops))

    def _bin(self, op, a, b):
        k = self.num(b)
        if k is not None:
            if op == "-":
                return self.step(a, ("+", -k))
            if op in ("+", "*", "/", "//", "%"):
                return self.step(a, (op, k))
            return None
        k = self.num(a)
        if k is not None:
            if op in ("+", "*"):
                return self.step(b, (op, k))
            return None
        if op == "-":
            ca, cb = self.ch(a), self.ch(b)
            # x - x % m
            if ca and cb and ca[0] == cb[0] and cb[1][:-1] == ca[1] and cb[1] and cb[1][-1][0] == "%":
                return (ca[0], ca[1] + (("fl", cb[1][-1][1]),))
            if ca and cb and ca[0] == cb[0]:
                # modulo normalisation may have merged: compare x%m for the trailing modulus
                if cb[1] and cb[1][-1][0] == "%" and norm(ca[1] + (cb[1][-1],)) == cb[1]:
                    return (ca[0], ca[1] + (("fl", cb[1][-1][1]),))
            # x - table[index(x)]
            if b.op == "sub" and ca:
                k = table_kind(self.prog, b.args[0])
                ci = self.ch(b.args[1])
                if k and ci and ci[0] == ca[0]:
                    if k.startswith("years"):
                        return (ca[0], ca[1] + (("soy", k, ci[1]),))
                    want = norm(ca[1] + (("ss", k, "right"), ("+", -1)))
                    return (ca[0], ca[1] + (("som", k) if ci[1] == want else ("som?", k, ci[1]),))
        return None

    def _ch(self, t):
        if t is self.selfterm:
            return (self.selfbase, ())
        if t.op == "attr" and t.args[1] in ("_fa", "_np"):
            return self.ch(t.args[0])
        if t.op == "bin":
            return self._bin(*t.args)
        if t.op == "inst":
            if t.args[1]:
                return self.ch(t.args[1][0])
            return None
        if t.op == "sub":
            b, i = t.args
            if b.op == "call" and call_name(b) == "divmod" and is_const(i):
                a = b.args[1]
                return self._bin("//" if cval(i) == 0 else "%", a[0], a[1])
            if i.op == "c" or i.op == "slice":
                return self.ch(b)
            return None
        if t.op == "call":
            f, args, kw = t.args
            nm = call_name(t)
            recv = None
            if f.op in ("bm", "attr") and f.args[0].op not in ("ext", "mod", "cls"):
                recv = f.args[0]
            if nm in self.tzfix and args:
                c = self.ch(args[0])
                if c is None:
                    return None
                return ("W" if c[0] == "U" else c[0] + "W", c[1]) if not c[1] else (c[0] + "'", c[1])
            if nm == "searchsorted":
                tab, x = (recv, args[0]) if recv is not None else (args[0], args[1]) if len(args) > 1 else (None, None)
                if tab is None:
                    return None
                k = table_kind(self.prog, tab)
                side = dict(kw).get("side") or (args[1] if recv is not None and len(args) > 1 else C("left"))
                side = cval(side) if is_const(side) else "?"
                return None if k is None else self.step(x, ("ss", k, side))
            if recv is not None and nm in PASS:
                return self.ch(recv)
            if recv is not None and nm in DUN and len(args) == 1:
                return self._bin(DUN[nm], recv, args[0])
            if f.op == "ext" and nm in NPF and len(args) >= 2:
                return self._bin(NPF[nm], args[0], args[1])
            if f.op == "ext" and nm in ("int64", "int32", "float64", "int", "asarray") and args:
                return self.ch(args[0])
        return None


def norm(ch):
    ch = list(ch)
    changed = True
    while changed:
        changed = False
        for i, o in enumerate(ch):
            if o[0] == "+" and o[1] == 0 or o[0] in ("*", "/", "//") and o[1] == 1:
                del ch[i]
                changed = True
                break
            if i + 1 < len(ch):
                p = ch[i + 1]
                if o[0] == "+" and p[0] == "+":
                    ch[i:i + 2] = [("+", o[1] + p[1])]
                    changed = True
                    break
                if o[0] == "*" and p[0] == "*":
                    ch[i:i + 2] = [("*", o[1] * p[1])]
                    changed = True
                    break
                if o[0] == p[0] == "%" and o[1] % p[1] == 0:
                    ch[i:i + 2] = [p]
                    changed = True
                    break
                if o[0] == p[0] and o[0] in ("//", "/"):
                    ch[i:i + 2] = [(o[0], o[1] * p[1])]
                    changed = True
                    break
                if o[0] in ("//", "/") and p[0] == "%":
                    ch[i:i + 2] = [("%", o[1] * p[1]), o]
                    changed = True
                    break
                if o[0] == "+" and p[0] == "%" and isinstance(o[1], int) and not 0 <= o[1] < p[1]:
                    ch[i] = ("+", o[1] % p[1])
                    changed = True
                    break
                if o[0] == "fl" and p[0] == "//" and p[1] == o[1]:
                    ch[i:i + 2] = [p]
                    changed = True
                    break
                if o[0] == "//" and p[0] == "*" and p[1] == o[1]:
                    ch[i:i + 2] = [("fl", o[1])]
                    changed = True
                    break
    return tuple(ch)


# ------------------------------------------------------------------ harness
class CalHooks(DTHooks):
    """adds: in-place numpy results (out=) rebind the destination"""

    def on_call(self, an, st, n, f, args, kwargs):
        if f.op == "ext" and f.args[0].startswith("numpy.") and "out" in kwargs and f.args[0].split(".")[-1] in NPF:
            kw = {k: v for k, v in kwargs.items() if k != "out"}
            t = an.call_term(f, args, kw)
            s = st.copy()
            dst = kwargs["out"]
            for k, v in list(s.vars.items()):
                if v is dst:
                    s.vars[k] = t
            s.types[t] = (frozenset([("exact", self.fa)]), frozenset())
            return [(s, t)]
        return super().on_call(an, st, n, f, args, kwargs)


def run_method(prog, cls, name, hooks=None, binds=None, arr=None, max_steps=200000, setup=None):
    h = hooks or CalHooks(prog)
    _ab.MAXSIZE = 800
    an = Interp(prog, h, max_steps=max_steps)
    c = prog.cls(cls)
    fn = c.find(name)
    if fn is None:
        return None
    st = State()
    sv = mk("p", "self")
    st.types[sv] = (frozenset([("exact", c)]), frozenset())
    bind = {}
    for i, q in enumerate(fn.params()):
        if i == 0 and fn.kind == "class":
            bind[q] = mk("cls", c)
        elif i == 0 and fn.kind != "static":
            bind[q] = sv
        else:
            bind[q] = mk("p", q)
    for q, d in _defaults(fn).items():
        bind[q] = an.default_term(st, fn, d)
    bind.update(binds or {})
    if setup:
        setup(st, bind)
    outs = an.run_function(fn, bind, st)
    return fn, h, an, outs, sv
