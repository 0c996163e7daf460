"""Shared model of the date/time classes: operand kinds, units, linear-form evaluation of value-flow terms.

The abstract value of an expression is a linear form  c1*raw(left) + c2*raw(right)  over the raw stored numbers of
the operands (days for Date/DateSpan, nanoseconds for DateTimeNano/TimeSpan).  The oracle is the linear form implied by
the kinds and the operator; it mentions no construct of the implementation.
"""
from __future__ import annotations

from fractions import Fraction as F

from sa.absint import (C, FALSE, NONE, TRUE, Budget, Hooks, Interp, State, T, cval, is_const, leaves, mk, show, subterms)
from sa.prog import AnalysisBroken, ClassInfo

NS_DAY = 86_400_000_000_000
ARR = ["Date", "DateSpan", "DateTimeNano", "TimeSpan"]
SCA = ["DateScalar", "DateSpanScalar", "DateTimeNanoScalar", "TimeSpanScalar"]
FAM = {"Date": "Date", "DateScalar": "Date", "DateSpan": "DateSpan", "DateSpanScalar": "DateSpan", "DateTimeNano": "DateTimeNano",
       "DateTimeNanoScalar": "DateTimeNano", "TimeSpan": "TimeSpan", "TimeSpanScalar": "TimeSpan"}
SCALE = {"Date": F(NS_DAY), "DateSpan": F(NS_DAY), "DateTimeNano": F(1), "TimeSpan": F(1)}
# result family of  left op right ; None = refused
ADD = {("Date", "Date"): None, ("Date", "DateSpan"): "Date", ("Date", "DateTimeNano"): None, ("Date", "TimeSpan"): "DateTimeNano",
       ("DateSpan", "Date"): "Date", ("DateSpan", "DateSpan"): "DateSpan", ("DateSpan", "DateTimeNano"): "DateTimeNano",
       ("DateSpan", "TimeSpan"): "TimeSpan",
       ("DateTimeNano", "Date"): None, ("DateTimeNano", "DateSpan"): "DateTimeNano", ("DateTimeNano", "DateTimeNano"): None,
       ("DateTimeNano", "TimeSpan"): "DateTimeNano",
       ("TimeSpan", "Date"): "DateTimeNano", ("TimeSpan", "DateSpan"): "TimeSpan", ("TimeSpan", "DateTimeNano"): "DateTimeNano",
       ("TimeSpan", "TimeSpan"): "TimeSpan"}
SUB = {("Date", "Date"): "DateSpan", ("Date", "DateSpan"): "Date", ("Date", "DateTimeNano"): "TimeSpan", ("Date", "TimeSpan"): "DateTimeNano",
       ("DateSpan", "Date"): None, ("DateSpan", "DateSpan"): "DateSpan", ("DateSpan", "DateTimeNano"): None, ("DateSpan", "TimeSpan"): "TimeSpan",
       ("DateTimeNano", "Date"): "TimeSpan", ("DateTimeNano", "DateSpan"): "DateTimeNano", ("DateTimeNano", "DateTimeNano"): "TimeSpan",
       ("DateTimeNano", "TimeSpan"): "DateTimeNano",
       ("TimeSpan", "Date"): None, ("TimeSpan", "DateSpan"): "TimeSpan", ("TimeSpan", "DateTimeNano"): None, ("TimeSpan", "TimeSpan"): "TimeSpan"}

ARITH = {"__add__": (1, 1), "__iadd__": (1, 1), "__radd__": (1, 1), "__sub__": (1, -1), "__isub__": (1, -1), "__rsub__": (-1, 1)}
NP_ARITH = {"add": (1, 1), "subtract": (1, -1)}
SAME = {"view", "astype", "copy", "repeat", "ravel", "flatten", "reshape", "tile", "newclassfrominstance", "asarray", "array", "asanyarray",
        "atleast_1d", "item", "__getitem__"}
ISNAN = {"isnan", "isnanorzero", "isnotfinite"}


class DTHooks(Hooks):
    """keeps date/time constructors symbolic, gives array-ness to numpy results and records invalid masking"""

    def __init__(self, prog):
        self.prog = prog
        self.fa = prog.cls("FastArray")
        self.dtcls = {n: prog.cls(n) for n in ARR + SCA}
        self.modules = {"riptable.rt_datetime", "riptable.rt_utils"}

    # ---- kinds
    def fam(self, an, st, t):
        c = an.cls_of(st, t)
        if c is None:
            return None
        for n, k in self.dtcls.items():
            if c.is_subclass_of(k):
                return FAM[n]
        return None

    def is_scalar(self, an, st, t):
        c = an.cls_of(st, t)
        if c is not None:
            for n in SCA:
                if c.is_subclass_of(self.dtcls[n]):
                    return True
            if c.is_subclass_of(self.fa):
                return False
        pos, _ = an.type_of(st, t)
        for k, p in pos:
            if isinstance(p, str):
                b = p.split(".")[-1]
                if b in ("int", "float", "bool", "str", "bytes", "number", "int64", "int32", "float64", "bool_"):
                    return True
                if b in ("list", "tuple", "ndarray"):
                    return False
        return None

    def raw(self, st, t, scalar):
        s = st
        if t not in st.types:
            s = st.copy()
            s.types[t] = (frozenset([("exact", "numpy.float64" if scalar == "f" else "numpy.int64")]) if scalar else frozenset([("exact", self.fa)]),
                          frozenset())
        return [(s, t)]

    def inline(self, an, st, n, fn, args, kw):
        if fn.module.name not in self.modules:
            return False
        if fn.name in ("__new__", "__init__", "isnan", "isnotnan", "isnanorzero", "isfinite", "isnotfinite", "newclassfrominstance", "get_scalar", "__getitem__",
                       "copy_invalid", "fill_invalid", "repeat", "tile"):
            return False
        return None

    def on_binop(self, an, st, n, op, a, b):
        d = {"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__", "//": "__floordiv__", "%": "__mod__"}.get(op)
        c = an.cls_of(st, a)
        if d and c is not None and any(c.is_subclass_of(k) for k in self.dtcls.values()):
            f = c.find(d)
            if f is not None and f.module.name == "riptable.rt_datetime":
                return an.call(st, n, mk("bm", a, f), [b], {}, None)
        if op in ("+", "-", "*", "/", "//", "%"):
            sa, sb = self.is_scalar(an, st, a), self.is_scalar(an, st, b)
            if a.op in ("c",) and b.op in ("c",):
                return None
            t = mk("bin", op, a, b)
            if sa is False or sb is False:
                return self.raw(st, t, None)
            if sa and sb:
                return self.raw(st, t, "i")
        return None

    def on_call(self, an, st, n, f, args, kwargs):
        name = None
        recv = None
        if f.op == "ext":
            name = f.args[0].split(".")[-1]
            if f.args[0] in ("numpy.isscalar", "numpy.core.numeric.isscalar") and args:
                r = self.is_scalar(an, st, args[0])
                return None if r is None else [(st, C(r))]
            if name in ("putmask",) and len(args) >= 3:
                return self.mask(an, st, n, args[0], args[1], args[2])
            if f.args[0].startswith("numpy.") and name in NP_ARITH and len(args) >= 2:
                t = an.call_term(f, args, kwargs)
                s = self.is_scalar(an, st, args[0]) and self.is_scalar(an, st, args[1])
                return self.raw(st, t, "i" if s else None)
            if f.args[0].startswith("numpy.") and name in ARITH and len(args) >= 2:
                # np.float64.__add__(self, value)
                s = self.is_scalar(an, st, args[0]) and self.is_scalar(an, st, args[1])
                return self.raw(st, an.call_term(f, args, kwargs), "f" if s else None)
            if f.args[0] in ("numpy.int64", "numpy.int32", "numpy.float64") and args:
                return self.raw(st, an.call_term(f, args, kwargs), "i")
        elif f.op == "fn":
            fn = f.args[0]
            name = fn.name
            if name == "putmask" and len(args) >= 3:
                return self.mask(an, st, n, args[0], args[1], args[2])
            if fn.kind in ("method",) and fn.cls is not None and fn.cls.is_subclass_of(self.fa) is not None and name in ARITH and len(args) >= 2 \
                    and fn.module.name == "riptable.rt_fastarray":
                return self.raw(st, an.call_term(f, args, kwargs), None)
        elif f.op == "bm":
            recv, name = f.args[0], f.args[1].name
        elif f.op == "attr":
            recv, name = f.args[0], f.args[1]
            if recv.op == "ext" and recv.args[0].startswith("numpy.") and name in ARITH and len(args) >= 2:
                # np.float64.__add__(self, value)
                s = self.is_scalar(an, st, args[0]) and self.is_scalar(an, st, args[1])
                t = an.call_term(f, args, kwargs)
                return self.raw(st, t, "f") if s else self.raw(st, t, None)
            if recv.op == "cls" and recv.args[0].is_subclass_of(self.fa) and name in ARITH and len(args) >= 2:
                return self.raw(st, an.call_term(f, args, kwargs), None)
        if recv is not None:
            c = an.cls_of(st, recv)
            sc = self.is_scalar(an, st, recv)
            if name == "view" and args:
                t = an.call_term(mk("attr", recv, "view"), args, kwargs)
                if args[0].op == "cls" and not sc:
                    s = st.copy()
                    s.types[t] = (frozenset([("exact", args[0].args[0])]), frozenset())
                    return [(s, t)]
                return self.raw(st, t, "i" if sc else None) if sc is not None else None
            if name in ("astype",):
                t = an.call_term(mk("attr", recv, "astype"), args, kwargs)
                return self.raw(st, t, "i" if sc else None) if sc is not None else None
            if name in ("copy",) and c is not None and c in (self.fa,):
                return self.raw(st, an.call_term(mk("attr", recv, "copy"), args, kwargs), None)
            if name in ("repeat", "tile") and c is not None:
                for k, v in FAM.items():
                    if c.is_subclass_of(self.dtcls[k]):
                        t = an.call_term(mk("attr", recv, name), args, kwargs)
                        s = st.copy()
                        s.types[t] = (frozenset([("exact", self.dtcls[v])]), frozenset())
                        return [(s, t)]
            raw = c is self.fa or (c is None and sc is not None)
            if raw and name in ARITH and args:
                bs = self.is_scalar(an, st, args[0])
                t = mk("call", mk("attr", recv, name), tuple(args), ())
                return self.raw(st, t, "i" if sc and bs else None)
        return None

    def on_getitem(self, an, st, n, b, i):
        fam = self.fam(an, st, b)
        if fam is None:
            return None
        t = an.mk_sub(b, i)
        s = st.copy()
        cn = fam if i.op == "slice" else (fam + "Scalar" if i.op == "c" and isinstance(cval(i), int) else None)
        if cn is None:
            return None
        s.types[t] = (frozenset([("exact", self.dtcls[cn])]), frozenset())
        return [(s, t)]

    def on_cond(self, an, st, node, t):
        # a mask computed by isnan() is never None
        if t.op == "cmp" and t.args[0] == "is" and t.args[2] is NONE and is_isnan(t.args[1]):
            return False
        if t.op == "cmp" and t.args[0] == "is" and t.args[2] is NONE and t.args[1].op == "call" and native_op(t.args[1]):
            return False
        if t.op == "isinst":
            x = t.args[0]
            if is_isnan(x):
                return None
            c = an.cls_of(st, x)
            if c is self.fa and all(isinstance(k, ClassInfo) and any(k.is_subclass_of(d) for d in self.dtcls.values()) for k in t.args[1]):
                return False
        return None

    # ---- invalid masks
    def mask(self, an, st, n, arr, m, fill):
        return [(st.mark(("mask", arr, m, fill)), NONE)]

    def on_setitem(self, an, st, n, base, idx, value):
        if idx.op == "slice" or (idx.op == "c" and idx.args[1] is Ellipsis):
            return [st.mark(("fill", base, value))]
        if self.fam(an, st, base) or an.cls_of(st, base) is self.fa:
            return [st.mark(("mask", base, idx, value))]
        return None


def call_name(t):
    if t.op != "call":
        return None
    f = t.args[0]
    if f.op == "bm":
        return f.args[1].name
    if f.op == "attr":
        return f.args[1]
    if f.op == "fn":
        return f.args[0].name
    if f.op == "ext":
        return f.args[0].split(".")[-1]
    return None


def is_isnan(t):
    return call_name(t) in ISNAN


def isnan_of(t):
    """operand leaves whose invalid mask occurs in t"""
    out = set()
    for x in subterms(t):
        if is_isnan(x):
            f, args, _ = x.args
            if f.op in ("bm", "attr") and f.args[0].op not in ("ext", "cls", "mod"):
                out |= leaves(f.args[0])
            elif args:
                out |= leaves(args[0])
    return out


def native_op(t):
    """(enum name, tuple term) of a native two-input kernel call, else None"""
    if t.op != "call":
        return None
    args = t.args[1]
    op = [a for a in args if a.op == "enum" and str(getattr(a.args[0], "name", a.args[0])) == "MATH_OPERATION"]
    tup = [a for a in args if a.op == "tup" and len(a.args) >= 2]
    if op and tup:
        return op[0].args[1], tup[0]
    return None


# ------------------------------------------------------------------ linear forms
class Lin:
    """c['self']*raw(self)+c['value']*raw(value); tz: tuple of from_tz terms the value was shifted by"""
    __slots__ = ("c", "tz")

    def __init__(self, c, tz=()):
        self.c = {k: v for k, v in c.items() if v}
        self.tz = tz

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c

    def __repr__(self):
        return " + ".join(f"{v}*{k}" for k, v in sorted(self.c.items())) or "0"


def add(a, b, ka=1, kb=1):
    c = {k: v * ka for k, v in a.c.items()}
    for k, v in b.c.items():
        c[k] = c.get(k, 0) + v * kb
    return Lin(c, a.tz + b.tz)


def scale(a, k):
    return Lin({x: v * k for x, v in a.c.items()}, a.tz)


class LinEval:
    def __init__(self, an, hooks, st, operands):
        self.an, self.h, self.st = an, hooks, st
        self.ops = operands  # {term: name}
        self.memo = {}

    def lin(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        r = self._lin(t)
        self.memo[t] = r
        return r

    def _arith(self, name, a, b):
        k = ARITH.get(name) or NP_ARITH.get(name)
        if k is None:
            if name in ("__mul__", "__rmul__", "__imul__", "multiply"):
                return self._mul("*", a, b)
            if name in ("__truediv__", "__floordiv__", "__itruediv__", "divide", "true_divide", "floor_divide"):
                return self._mul("/", a, b)
            return None
        la, lb = self.lin(a), self.lin(b)
        if la is None or lb is None:
            return None
        return add(la, lb, *k)

    def _mul(self, op, a, b):
        if op == "*":
            for x, y in ((a, b), (b, a)):
                if is_const(y) and isinstance(cval(y), (int, float)):
                    l = self.lin(x)
                    return None if l is None else scale(l, F(cval(y)))
            return None
        if is_const(b) and isinstance(cval(b), (int, float)) and cval(b):
            l = self.lin(a)
            return None if l is None else scale(l, F(1) / F(cval(b)))
        return None

    def _lin(self, t):
        if t in self.ops:
            return Lin({self.ops[t]: F(1)})
        if t.op == "c":
            return None
        if t.op == "bin":
            op, a, b = t.args
            if op in ("+", "-"):
                la, lb = self.lin(a), self.lin(b)
                if la is None or lb is None:
                    return None
                return add(la, lb, 1, 1 if op == "+" else -1)
            if op in ("*", "/", "//"):
                return self._mul("*" if op == "*" else "/", a, b)
            return None
        if t.op == "sub":
            return self.lin(t.args[0])
        if t.op == "obj":
            c = self.st.heap.get(("content", t))
            if c and c[0] == "list" and len(c[1]) == 1:
                return self.lin(c[1][0])
            return None
        if t.op == "attr" and t.args[1] in ("_fa", "_np", "T"):
            return self.lin(t.args[0])
        if t.op == "inst":
            c, args, kw = t.args
            if not args:
                return None
            inner = self.lin(args[0])
            if inner is None:
                return None
            if c.name == "DateTimeNano":
                ft = dict(kw).get("from_tz")
                if ft is not None and not (is_const(ft) and cval(ft) in ("GMT", "UTC")):
                    inner = Lin(inner.c, inner.tz + (ft,))
            return inner
        if t.op == "call":
            f, args, kw = t.args
            if f.op in ("bm", "attr"):
                recv = f.args[0]
                name = f.args[1].name if f.op == "bm" else f.args[1]
                if recv.op in ("ext", "cls") and len(args) >= 2:
                    return self._arith(name, args[0], args[1])
                if name in SAME:
                    if recv.op in ("ext", "cls", "mod"):
                        return self.lin(args[0]) if args else None
                    return self.lin(recv)
                if len(args) == 1:
                    r = self._arith(name, recv, args[0])
                    if r is not None:
                        return r
                if name == "get_scalar" and args:
                    return self.lin(args[0])
            elif f.op == "fn":
                fn = f.args[0]
                if fn.name in ARITH and len(args) >= 2:
                    return self._arith(fn.name, args[0], args[1])
                if fn.name in SAME and args:
                    return self.lin(args[0])
            elif f.op == "ext":
                nm = f.args[0].split(".")[-1]
                if nm in ARITH and len(args) >= 2:
                    return self._arith(nm, args[0], args[1])
                if nm in ("int64", "int32", "float64", "int", "float") and args:
                    return self.lin(args[0])
                if nm in SAME and args:
                    return self.lin(args[0])
                if nm in NP_ARITH and len(args) >= 2:
                    return self._arith(nm, args[0], args[1])
                if nm in ("add", "sub") and f.args[0].startswith("operator") and len(args) == 2:
                    return self._arith({"add": "__add__", "sub": "__sub__"}[nm], *args)
            nv = native_op(t)
            if nv is not None:
                a, b = nv[1].args[0], nv[1].args[1]
                if nv[0].startswith("SUB"):
                    return self._arith("__sub__", a, b)
                if nv[0] == "ADD":
                    return self._arith("__add__", a, b)
        return None


def expected(table, op, left, right):
    """(family or None, {'self':coef,'value':coef} of the raw result) for left op right (self=left, value=right)"""
    fam = table[(FAM[left], FAM[right])]
    if fam is None:
        return None, None
    k = 1 if op == "+" else -1
    r = SCALE[fam]
    return fam, Lin({"self": SCALE[FAM[left]] / r, "value": k * SCALE[FAM[right]] / r})


def analyse(prog, left, opname, right, max_steps=200000):
    """run left.<opname>(right); returns (fn, hooks, interp, outcomes)"""
    h = DTHooks(prog)
    an = Interp(prog, h, max_steps=max_steps)
    an.max_recursion = 2
    c = h.dtcls[left]
    fn = c.find(opname)
    if fn is None or fn.module.name != "riptable.rt_datetime":
        return None
    ps = fn.params()
    if len(ps) < 2:
        return None
    st = State()
    sv, vv = mk("p", "self"), mk("p", "value")
    st.types[sv] = (frozenset([("exact", c)]), frozenset())
    st.types[vv] = (frozenset([("exact", h.dtcls[right])]), frozenset())
    bind = {ps[0]: sv, ps[1]: vv}
    for p, d in _defaults(fn).items():
        if p not in bind:
            bind[p] = an.default_term(st, fn, d)
    outs = an.run_function(fn, bind, st)
    return fn, h, an, outs, {sv: "self", vv: "value"}


def _defaults(fn):
    a = fn.node.args
    pos = a.posonlyargs + a.args
    d = {}
    for p, v in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        d[p.arg] = v
    for p, v in zip(a.kwonlyargs, a.kw_defaults):
        if v is not None:
            d[p.arg] = v
    return d


def pairs():
    for left in ARR + ["DateTimeNanoScalar", "TimeSpanScalar"]:
        for right in ARR + SCA:
            yield left, right


# ------------------------------------------------------------------ comparisons
CMP = {"__eq__": "==", "__ne__": "!=", "__lt__": "<", "__le__": "<=", "__gt__": ">", "__ge__": ">="}
SWAP = {"==": "==", "!=": "!=", "<": ">", "<=": ">=", ">": "<", ">=": "<="}
COMPARABLE = {("Date", "Date"), ("Date", "DateTimeNano"), ("DateTimeNano", "Date"), ("DateTimeNano", "DateTimeNano"),
              ("DateSpan", "DateSpan"), ("DateSpan", "TimeSpan"), ("TimeSpan", "DateSpan"), ("TimeSpan", "TimeSpan")}
NP_CMP = {"equal": "==", "not_equal": "!=", "less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">="}


def comparison(le, t):
    """innermost comparison in t: (op, lin(left), lin(right)) or None"""
    best = None
    for x in subterms(t):
        r = None
        if x.op == "cmp" and x.args[0] in SWAP:
            r = (x.args[0], x.args[1], x.args[2])
        elif x.op == "call":
            nm = call_name(x)
            f, args, _ = x.args
            if nm in CMP and f.op in ("bm", "attr") and len(args) == 1:
                r = (CMP[nm], f.args[0], args[0])
            elif nm in CMP and len(args) == 2:
                r = (CMP[nm], args[0], args[1])
            elif nm in NP_CMP and len(args) >= 2:
                r = (NP_CMP[nm], args[0], args[1])
        if r is None:
            continue
        la, lb = le.lin(r[1]), le.lin(r[2])
        if la is None or lb is None:
            continue
        if best is None or x.size < best[0]:
            best = (x.size, (r[0], la, lb))
    return best[1] if best else None
