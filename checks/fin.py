"""Finite-domain abstract interpretation: arrays are short tuples of cell tokens.

Built on the path-sensitive interpreter.  A token stands for one element of one input column; element order, selections, gathers and
column names are tracked exactly, element values are opaque unless the scenario gives them.  Anything outside the domain evaluates to
``Unk`` and makes the obligation undecided, never a violation.
"""
from sa.absint import C, Hooks, Interp, NONE, Outcome, State, cval, is_const, mk, show

from .gb_model import INV, Ev, Unk, arith, broadcast, call_name, gather, is_arr

__all__ = ["FEv", "FHooks", "FInterp", "Dt", "INV", "Unk"]


class Dt:
    """element type of a finite array"""

    def __init__(self, char):
        self.char = char
        self.num = {"?": 0, "l": 7, "d": 12, "U": 19, "S": 18, "O": 17}.get(char, 7)
        self.itemsize = {"?": 1, "l": 8, "d": 8, "i": 4, "b": 1}.get(char, 8)

    def __eq__(self, o):
        return isinstance(o, Dt) and o.char == self.char

    def __hash__(self):
        return hash(self.char)

    def __repr__(self):
        return f"dtype({self.char})"


KINDS = {}  # letter of opaque cells -> type character, set by a check


def vals(v):
    """written array content; the types keep False apart from 0"""
    return mk("vals", tuple(v), tuple(type(x).__name__ for x in v))


def dt_of(v):
    v = Ev.arr(v)
    if not is_arr(v):
        raise Unk("dtype")
    ks = {KINDS.get(x[0], "d") for x in v if isinstance(x, tuple) and x}
    if len(ks) == 1 and all(isinstance(x, tuple) or x == INV for x in v):
        return Dt(ks.pop())
    if v and all(isinstance(x, bool) for x in v):
        return Dt("?")
    if v and all(isinstance(x, str) for x in v):
        return Dt("U")
    if v and all(isinstance(x, int) or x == INV for x in v) and any(isinstance(x, int) for x in v):
        return Dt("l")
    return Dt("d")


class FEv(Ev):
    """adds arrays that are written in place, element types and more primitives"""

    def __init__(self, env=None):
        super().__init__(env or {})
        self.dts = {}

    def ev(self, st, t):
        w = st.heap.get(("arrval", t))
        if w is not None:
            if w.op != "vals":
                raise Unk("written in place")
            return list(w.args[0])
        if ("dirty", t) in st.heap:
            raise Unk("written in place")
        if t in self.env:
            return self.env[t]
        if t.op == "attr":
            nm = t.args[1]
            if nm == "dtype":
                if t.args[0] in self.dts:
                    return self.dts[t.args[0]]
                return dt_of(self.ev(st, t.args[0]))
            if nm in ("char", "num", "itemsize"):
                d = self.ev(st, t.args[0])
                if isinstance(d, Dt):
                    return getattr(d, nm)
            if nm in ("start", "stop", "step"):
                d = self.ev(st, t.args[0])
                if isinstance(d, slice):
                    return getattr(d, nm)
            if nm == "ndim":
                v = self.arr(self.ev(st, t.args[0]))
                if is_arr(v):
                    return 1
            if nm == "T":
                return self.ev(st, t.args[0])
        if t.op == "fstr":
            out = ""
            for x in t.args[0] if isinstance(t.args[0], tuple) else t.args:
                v = x if isinstance(x, str) else self.ev(st, x)
                if not isinstance(v, (str, int)):
                    raise Unk("fstr")
                out += str(v)
            return out
        if t.op == "boolop":
            vs = []
            for x in t.args[1]:
                v = self.ev(st, x)
                if is_arr(v):
                    raise Unk("truth")
                if t.args[0] == "and" and not v or t.args[0] == "or" and v:
                    return v
                vs.append(v)
            return vs[-1]
        if t.op == "isinst":
            raise Unk("isinst")
        return super().ev(st, t)

    def call(self, st, t):
        f, args, kw = t.args[0], list(t.args[1]), dict(t.args[2])
        nm = call_name(f)
        if f.op == "attr" and f.args[0].op not in ("ext", "mod"):
            args = [f.args[0]] + args
        elif f.op == "bm":
            args = [f.args[0]] + args
        n = len(args)
        A_ = lambda i: self.arr(self.ev(st, args[i]))
        if nm == "range" and 1 <= n <= 3:
            vs = [self.ev(st, a) for a in args]
            if all(isinstance(v, int) for v in vs):
                return list(range(*vs))
            raise Unk("range")
        if nm == "set" and n == 1:
            v = A_(0)
            if isinstance(v, (list, tuple)):
                return list(dict.fromkeys(v))
        if nm == "issubdtype" and n == 2:
            d = self.ev(st, args[0])
            w = args[1].args[0].split(".")[-1] if args[1].op == "ext" else None
            if isinstance(d, Dt) and w in ("bool", "bool_", "integer", "floating", "number"):
                return {"bool": d.char == "?", "bool_": d.char == "?", "integer": d.char in "bhilq", "floating": d.char in "fd", "number": d.char in "bhilqfd"}[w]
            raise Unk("issubdtype")
        if nm == "dtype" and n == 1 and args[0].op == "ext" and args[0].args[0].split(".")[-1] in ("bool", "bool_"):
            return Dt("?")
        if nm in ("argmax", "argmin") and n == 1 and not kw:
            v = A_(0)
            if is_arr(v) and all(isinstance(x, (int, float)) for x in v) and v:
                return v.index((max if nm == "argmax" else min)(v))
            raise Unk(nm)
        if nm in ("zeros_like", "ones_like") and n >= 1 and set(kw) <= {"dtype"}:
            v = A_(0)
            d = kw.get("dtype", args[1] if n > 1 else None)
            if not is_arr(v) or d is None or not (d.op == "ext" and d.args[0].split(".")[-1] in ("bool", "bool_", "bool8") or is_const(d) and cval(d) in ("?", "bool")):
                raise Unk(nm)
            return [nm == "ones_like"] * len(v)
        if nm in ("ones", "zeros", "full", "empty") and n >= 1:
            m = self.ev(st, args[0])
            if isinstance(m, tuple) and len(m) == 1:
                m = m[0]
            if not isinstance(m, int):
                raise Unk(nm)
            if nm == "empty":
                return [INV] * m
            if nm == "full":
                return [self.ev(st, args[1])] * m
            d = kw.get("dtype", args[1] if n > 1 else None)
            b = False
            if d is not None:
                b = d.op == "ext" and d.args[0].split(".")[-1] in ("bool", "bool_", "bool8") or is_const(d) and cval(d) in ("?", "bool")
            one = nm == "ones"
            return [one if b else int(one)] * m
        if nm in ("sum", "nansum") and n == 1 and not kw:
            v = A_(0)
            if is_arr(v) and all(isinstance(x, (int, bool)) for x in v):
                return sum(v)
            raise Unk(nm)
        if nm in ("all", "any") and n == 1 and not kw:
            v = A_(0)
            if isinstance(v, (list, tuple)) and all(isinstance(x, bool) for x in v):
                return {"all": all, "any": any}[nm](v)
            raise Unk(nm)
        if nm in ("list", "tuple", "tolist") and n == 1:
            v = A_(0)
            if isinstance(v, (list, tuple)):
                return tuple(v) if nm == "tuple" else ["pylist"] + list(v)
            raise Unk(nm)
        if nm in ("ismember",) and n == 2:
            raise Unk(nm)
        if nm == "diff" and n == 1 and not kw:
            v = A_(0)
            if is_arr(v):
                return [INV] + [arith("-")(b, a) for a, b in zip(v, v[1:])]
        if nm == "cumsum" and n == 1 and not kw:
            v = A_(0)
            if is_arr(v) and all(isinstance(x, int) for x in v):
                out, s = [], 0
                for x in v:
                    s += x
                    out.append(s)
                return out
            raise Unk(nm)
        if nm in ("repeat",) and n == 2:
            v, k = A_(0), A_(1)
            if is_arr(v):
                if isinstance(k, int):
                    return [x for x in v for _ in range(k)]
                return [x for x, c in zip(v, k) for _ in range(c)]
        if nm in ("tile",) and n == 2:
            v, k = A_(0), A_(1)
            if is_arr(v) and isinstance(k, int):
                return v * k
        if nm == "take" and n == 2 and not kw:
            v, k = A_(0), A_(1)
            if is_arr(v) and is_arr(k):
                return gather(v, k)
        if nm in ("mbget",) and n >= 2:
            v, k = A_(0), A_(1)
            d = A_(2) if n > 2 else (self.ev(st, kw["d"]) if "d" in kw else INV)
            if is_arr(v) and is_arr(k):
                return [(INV if d is None else d) if (i == INV or not -len(v) <= i < len(v)) else v[i] for i in k]
        if nm in ("logical_not", "mask_not") and n == 1:
            v = A_(0)
            if is_arr(v):
                return [not x for x in v]
        if nm in ("mask_and", "logical_and", "mask_or", "logical_or") and n == 2:
            return broadcast(arith("&" if "and" in nm else "|"), A_(0), A_(1))
        if nm in ("copy", "deepcopy") and n == 1 and isinstance(A_(0), slice):
            return A_(0)
        if nm in ("FastArray", "FA", "atleast_1d") and n == 1 and isinstance(A_(0), (bool, int, float)):
            return [A_(0)]
        if nm in ("str",) and n == 1 and isinstance(A_(0), (str, int)):
            return str(A_(0))
        return super().call(st, t)


class FHooks(Hooks):
    """eager evaluation into finite arrays"""

    TRUST = ("riptable.rt_numpy", "riptable.rt_fastarray", "riptable.rt_mlutils", "riptable.rt_utils")

    def __init__(self, prog, env=None):
        self.prog = prog
        self.e = FEv(env)
        self.fa = prog.cls("FastArray")
        self.unk = {}
        self.n = 0

    # -------- tokens
    def token(self, st, value, tag="v", dt=None):
        """a term standing for an array value; returns (state, term)"""
        self.n += 1
        t = mk("p", f"{tag}#{self.n}")
        self.e.env[t] = list(value)
        if dt is not None:
            self.e.dts[t] = dt
        s = st.copy()
        s.types[t] = (frozenset([("exact", self.fa)]), frozenset())
        return s, t

    def is_array(self, st, t):
        return t in self.e.env and is_arr(self.e.env[t]) and t.op == "p"

    def reify(self, an, st, n, v):
        """value -> term"""
        if v is None or isinstance(v, (bool, int, float, str)):
            return st, C(v)
        if isinstance(v, tuple) and v and isinstance(v[0], str):
            return st, self.cell(v)
        if isinstance(v, tuple):
            ts = []
            for x in v:
                st, t = self.reify(an, st, n, x)
                ts.append(t)
            return st, mk("tup", *ts)
        if is_arr(v):
            if v[:1] == ["pylist"]:
                ts = []
                for x in v[1:]:
                    st, t = self.reify(an, st, n, x)
                    ts.append(t)
                s = st.copy()
                o = an.new_obj(s, "list", n)
                s.heap[("content", o)] = ("list", tuple(ts), True)
                return s, o
            return self.token(st, v)
        raise Unk("reify")

    def cell(self, v):
        t = mk("p", "cell:" + repr(v))
        self.e.env[t] = v
        return t

    # -------- eager evaluation
    def eager(self, an, st, n, t):
        try:
            v = self.e.ev(st, t)
        except (Unk, TypeError, KeyError, IndexError, ValueError, AttributeError, RecursionError):
            return None
        if isinstance(v, (dict, slice, Dt)):
            return None
        try:
            return [self.reify(an, st, n, v)]
        except Unk:
            return None

    def on_getitem(self, an, st, n, b, i):
        if b.op == "obj" and b.args[0] == "list" and i.op == "slice" and all(x.op == "c" for x in i.args):
            c = st.heap.get(("content", b))
            if c is not None and c[0] == "list" and c[2]:
                s = st.copy()
                o = an.new_obj(s, "list", n)
                s.heap[("content", o)] = ("list", tuple(c[1][slice(*[cval(x) for x in i.args])]), True)
                return [(s, o)]
        if b.op == "obj" and i.op == "c":
            c = st.heap.get(("content", b))
            bad = None
            if c is not None and c[0] == "dict" and c[2] is None and all(k.op == "c" for k, _ in c[1]) and i not in dict(c[1]):
                bad = "KeyError"
            elif c is not None and c[0] == "list" and c[2] and isinstance(cval(i), int) and not -len(c[1]) <= cval(i) < len(c[1]):
                bad = "IndexError"
            if bad:
                an._raise_sink[-1].append(Outcome("raise", st, mk("call", mk("ext", "builtins." + bad), (i,), ()), n))
                return []
        if self.is_array(st, b):
            if i is NONE:
                return None
            r = self.eager(an, st, n, mk("sub", b, i))
            if r is not None and i.op == "slice":
                for s, t in r:
                    if t.op == "p":
                        s.heap[("view", t)] = b
                        s.heap[("viewix", t)] = i
            return r
        return None

    def on_binop(self, an, st, n, op, a, b):
        if self.is_array(st, a) or self.is_array(st, b):
            return self.eager(an, st, n, mk("bin", op, a, b))
        return self.py_binop(an, st, n, op, a, b)

    def on_unary(self, an, st, n, op, a):
        if self.is_array(st, a):
            return self.eager(an, st, n, mk("un", op, a))
        return None

    def on_compare(self, an, st, n, op, a, b):
        if op in ("==", "!=", "<", "<=", ">", ">=") and (self.is_array(st, a) or self.is_array(st, b)):
            return self.eager(an, st, n, mk("cmp", op, a, b))
        return self.py_compare(an, st, n, op, a, b)

    # -------- exact Python values: sets, strings, lists
    SCAL = ("c", "enum", "cls")

    def set_of(self, st, t):
        """elements of a set object, None when unknown"""
        if t.op == "obj" and t.args[0] in ("set", "list") or t.op == "obj" and t.args[0] == "dict":
            c = st.heap.get(("content", t))
            if c is None:
                return None
            if c[0] == "dict":
                return [k for k, _ in c[1]] if c[2] is None else None
            return list(c[1]) if c[2] else None
        return None

    def new_set(self, an, st, n, elts):
        s = st.copy()
        o = an.new_obj(s, "set", n)
        s.heap[("content", o)] = ("list", tuple(dict.fromkeys(elts)), True)
        return [(s, o)]

    def py_call(self, an, st, n, nm, f, args, kwargs):
        if nm in ("set", "frozenset") and f.op == "ext" and len(args) <= 1:
            e = an.known_elts(st, args[0]) if args else []
            if e is not None and all(x.op in self.SCAL for x in e):
                return self.new_set(an, st, n, e)
        if f.op == "attr" and f.args[0].op in ("glob", "attr") and nm in ("items", "keys", "values", "copy") and not args:
            tb = an.static_table(f.args[0])
            if tb is not None and tb[0] == "dict":
                if nm == "copy":
                    s = st.copy()
                    o = an.new_obj(s, "dict", n)
                    s.heap[("content", o)] = ("dict", tuple(tb[1].items()), None)
                    return [(s, o)]
                return [(st, mk("tup", *({"items": lambda: [mk("tup", k, v) for k, v in tb[1].items()], "keys": lambda: list(tb[1]), "values": lambda: list(tb[1].values())}[nm]())))]
        if f.op == "attr" and f.args[0].op == "obj":
            o = f.args[0]
            c = st.heap.get(("content", o))
            if o.args[0] == "set" and c is not None and c[2]:
                if nm in ("add", "discard", "remove") and len(args) == 1 and args[0].op in self.SCAL:
                    s = st.copy()
                    e = dict.fromkeys(c[1] + (args[0],)) if nm == "add" else [x for x in c[1] if x is not args[0]]
                    s.heap[("content", o)] = ("list", tuple(e), True)
                    return [(s, NONE)]
                if nm == "pop" and not args and len(c[1]) == 1:
                    s = st.copy()
                    s.heap[("content", o)] = ("list", (), True)
                    return [(s, c[1][0])]
                es = [an.known_elts(st, a) for a in args]
                if es and all(e is not None and all(x.op in self.SCAL for x in e) for e in es):
                    if nm == "update":
                        s = st.copy()
                        s.heap[("content", o)] = ("list", tuple(dict.fromkeys(list(c[1]) + [x for e in es for x in e])), True)
                        return [(s, NONE)]
                    e = es[0]
                    if nm in ("union", "intersection", "difference", "symmetric_difference") and len(es) == 1:
                        return self.new_set(an, st, n, self.set_op({"union": "|", "intersection": "&", "difference": "-", "symmetric_difference": "^"}[nm], c[1], e))
                    if nm == "pop" and c[1]:
                        return None
                    if nm == "issubset":
                        return [(st, C(all(x in e for x in c[1])))]
                    if nm == "issuperset":
                        return [(st, C(all(x in c[1] for x in e)))]
                    if nm == "isdisjoint":
                        return [(st, C(not any(x in c[1] for x in e)))]
            if o.args[0] == "list" and c is not None and c[2]:
                if nm == "pop" and len(args) <= 1 and all(a.op == "c" for a in args) and c[1]:
                    i = cval(args[0]) if args else -1
                    if isinstance(i, int) and -len(c[1]) <= i < len(c[1]):
                        s = st.copy()
                        e = list(c[1])
                        v = e.pop(i)
                        s.heap[("content", o)] = ("list", tuple(e), True)
                        return [(s, v)]
                if nm == "index" and len(args) == 1 and args[0].op == "c" and all(x.op == "c" for x in c[1]) and args[0] in c[1]:
                    return [(st, C(c[1].index(args[0])))]
                if nm == "remove" and len(args) == 1 and args[0].op == "c" and all(x.op == "c" for x in c[1]) and args[0] in c[1]:
                    s = st.copy()
                    e = list(c[1])
                    e.remove(args[0])
                    s.heap[("content", o)] = ("list", tuple(e), True)
                    return [(s, NONE)]
                if nm == "sort" and not args:
                    e = self.sorted_(an, st, n, list(c[1]), kwargs)
                    if e is not None:
                        s = st.copy()
                        s.heap[("content", o)] = ("list", tuple(e), True)
                        return [(s, NONE)]
        if nm == "fromkeys" and len(args) in (1, 2):
            e = an.known_elts(st, args[0])
            if e is not None and all(x.op in self.SCAL for x in e):
                s = st.copy()
                o = an.new_obj(s, "dict", n)
                s.heap[("content", o)] = ("dict", tuple((k, args[1] if len(args) > 1 else NONE) for k in dict.fromkeys(e)), None)
                return [(s, o)]
        if nm == "is_list_like" and len(args) == 1:
            if args[0].op in ("obj", "tup") or self.is_array(st, args[0]):
                return [(st, C(True))]
            if args[0].op == "c":
                return [(st, C(False))]
        if nm == "callable" and len(args) == 1:
            if args[0].op == "c" or self.is_array(st, args[0]) or args[0].op == "p" and args[0].args[0] == "default":
                return [(st, C(False))]
            if args[0].op in ("fn", "bm", "lam", "cls"):
                return [(st, C(True))]
        if nm == "sorted" and f.op == "ext" and len(args) == 1:
            e = an.known_elts(st, args[0])
            e = self.sorted_(an, st, n, e, kwargs) if e is not None else None
            if e is not None:
                s = st.copy()
                o = an.new_obj(s, "list", n)
                s.heap[("content", o)] = ("list", tuple(e), True)
                return [(s, o)]
        if f.op == "attr" and f.args[0].op == "c" and isinstance(cval(f.args[0]), str) and not kwargs:
            v = cval(f.args[0])
            if nm in ("startswith", "endswith", "replace", "lower", "upper", "strip", "lstrip", "rstrip", "isidentifier", "isdigit", "find", "count", "title") and all(a.op == "c" for a in args):
                try:
                    return [(st, C(getattr(v, nm)(*[cval(a) for a in args])))]
                except (TypeError, ValueError):
                    return None
            if nm == "join" and len(args) == 1:
                e = an.known_elts(st, args[0])
                if e is not None and all(x.op == "c" and isinstance(cval(x), str) for x in e):
                    return [(st, C(v.join(cval(x) for x in e)))]
            if nm == "split" and all(a.op == "c" for a in args):
                s = st.copy()
                o = an.new_obj(s, "list", n)
                s.heap[("content", o)] = ("list", tuple(C(x) for x in v.split(*[cval(a) for a in args])), True)
                return [(s, o)]
        if nm in ("search", "match", "fullmatch"):
            pat = None
            b = f.args[0] if f.op == "attr" else None
            if b is not None and b.op == "call" and call_name(b.args[0]) == "compile" and len(b.args[1]) == 1 and not [k for k, v in b.args[2] if not (v.op == "c" and cval(v) == 0)]:
                pat, a = b.args[1][0], args
            elif f.op == "ext" and f.args[0].startswith("re.") and len(args) >= 2:
                pat, a = args[0], args[1:]
            if pat is not None and pat.op == "c" and len(a) == 1 and a[0].op == "c" and isinstance(cval(a[0]), str):
                import re
                m = getattr(re, nm)(cval(pat), cval(a[0]))
                return [(st, NONE if m is None else C("<match>"))]
        return None

    def sorted_(self, an, st, n, e, kwargs):
        key = kwargs.get("key")
        rev = kwargs.get("reverse", C(False))
        if rev.op != "c":
            return None
        ks = []
        for x in e:
            if key is None or key is NONE:
                if x.op != "c":
                    return None
                ks.append(cval(x))
            elif key.op == "ext" and key.args[0].endswith("len"):
                c = an.known_elts(st, x)
                if c is None:
                    return None
                ks.append(len(c))
            else:
                return None
        try:
            idx = sorted(range(len(e)), key=lambda i: ks[i], reverse=bool(cval(rev)))
        except TypeError:
            return None
        return [e[i] for i in idx]

    @staticmethod
    def set_op(op, a, b):
        return {"|": lambda: list(dict.fromkeys(list(a) + list(b))), "&": lambda: [x for x in a if x in b], "-": lambda: [x for x in a if x not in b],
                "^": lambda: [x for x in a if x not in b] + [x for x in b if x not in a]}[op]()

    def py_binop(self, an, st, n, op, a, b):
        if op in ("|", "&", "-", "^"):
            x = self.set_of(st, a) if a.op == "obj" and a.args[0] == "set" else None
            y = self.set_of(st, b) if b.op == "obj" and b.args[0] == "set" else None
            if x is not None and y is not None:
                return self.new_set(an, st, n, self.set_op(op, x, y))
        return None

    def py_compare(self, an, st, n, op, a, b):
        if a.op == "c" and b.op == "c" and isinstance(cval(b), str) and isinstance(cval(a), str) and op in ("in", "not in"):
            return [(st, C((cval(a) in cval(b)) == (op == "in")))]
        if op in ("in", "not in") and a.op in self.SCAL:
            e = self.set_of(st, b)
            if e is not None and all(x.op in self.SCAL for x in e):
                return [(st, C((a in e) == (op == "in")))]
        if op in ("==", "!=") and {a.op, b.op} == {"obj", "c"} and (a if a.op == "obj" else b).args[0] in ("set", "list", "dict"):
            return [(st, C(op == "!="))]
        if op in ("==", "!=") and a.op == "obj" and b.op == "obj" and a.args[0] == b.args[0] and a.args[0] in ("set", "list"):
            x, y = self.set_of(st, a), self.set_of(st, b)
            if x is not None and y is not None and all(t.op in self.SCAL for t in x + y):
                r = (set(x) == set(y)) if a.args[0] == "set" else x == y
                return [(st, C(r == (op == "==")))]
        return None

    def write(self, an, st, b, i, v):
        """in-place element write"""
        s = st.copy()
        try:
            cur = self.e.arr(self.e.ev(st, b))
            idx = self.e.ev(st, i)
            val = self.e.ev(st, v)
            new = list(cur)
            pos = list(range(len(cur)))
            sel = pos[idx] if isinstance(idx, (slice, int)) and not isinstance(idx, bool) else gather(pos, self.e.arr(idx))
            if not is_arr(sel):
                sel = [sel]
            val = self.e.arr(val)
            for j, p in enumerate(sel):
                new[p] = val[j] if is_arr(val) and len(val) == len(sel) else (val[0] if is_arr(val) and len(val) == 1 else self.scalar(val))
            s.heap[("arrval", b)] = vals(new)
        except (Unk, TypeError, KeyError, IndexError, ValueError, AttributeError):
            s.heap[("dirty", b)] = C(True)
            s.heap.pop(("arrval", b), None)
        return self.through(an, s, b)

    def through(self, an, s, b):
        """a slice was written: so was the array it views"""
        if ("view", b) not in s.heap:
            return [s]
        par = s.heap[("view", b)]
        ix = s.heap.get(("viewix", b))
        if ix is None or ("dirty", b) in s.heap:
            s.heap[("dirty", par)] = C(True)
            return [s]
        return self.write(an, s, par, ix, b)

    @staticmethod
    def scalar(v):
        if is_arr(v) or isinstance(v, (dict, slice)):
            raise Unk("shape")
        return v

    def on_setitem(self, an, st, n, b, i, v):
        if self.is_array(st, b):
            return self.write(an, st, b, i, v)
        return None

    def on_aug(self, an, st, n, target, op, a, b):
        """target op= value on arrays: in place"""
        if self.is_array(st, a):
            try:
                v = self.e.ev(st, mk("bin", op, a, b))
            except (Unk, TypeError, KeyError, IndexError):
                v = None
            s = st.copy()
            if v is None:
                s.heap[("dirty", a)] = C(True)
            else:
                s.heap[("arrval", a)] = vals(v)
            return [(x, a) for x in self.through(an, s, a)]
        return None

    def on_call(self, an, st, n, f, args, kwargs):
        nm = call_name(f)
        if nm in ("warn", "warning", "info", "debug", "error", "set_name", "print", "RecycleGarbageCollectNow"):
            return [(st, NONE)]
        r = self.py_call(an, st, n, nm, f, args, kwargs)
        if r is not None:
            return r
        if nm == "LedgerFunction" and args and args[0].op in ("ext", "fn"):
            return an.call(st, n, args[0], args[1:], kwargs, None)
        if nm == "putmask" and len(args) == 3 and self.is_array(st, args[0]):
            try:
                m = self.e.arr(self.e.ev(st, args[1]))
                v = self.e.arr(self.e.ev(st, args[2]))
                if is_arr(v) and len(v) == len(m):
                    v = [x for x, b in zip(v, m) if b]
                s, vt = self.token(st, v) if is_arr(v) else (st, args[2])
                return [(x, NONE) for x in self.write(an, s, args[0], args[1], vt)]
            except Unk:
                return [(x, NONE) for x in self.write(an, st, args[0], args[1], args[2])]
        trusted = f.op == "ext" or f.op == "attr" or (f.op == "fn" and f.args[0].module.name in self.TRUST) or (f.op == "bm" and (self.is_array(st, f.args[0]) or f.args[1].module.name in self.TRUST)) or (
            f.op == "cls" and f.args[0].name == "FastArray")
        if trusted and "out" in kwargs and self.is_array(st, kwargs["out"]):
            o = kwargs["out"]
            res = []
            for s, v in self.on_call(an, st, n, f, args, {k: x for k, x in kwargs.items() if k != "out"}) or []:
                res += [(s2, o) for s2 in self.write(an, s, o, mk("slice", NONE, NONE, NONE), v)]
            return res or None
        if trusted:
            if f.op == "bm" or f.op == "attr" and f.args[0].op not in ("ext", "mod"):
                recv = [f.args[0]]
            else:
                recv = []
            if any(self.is_array(st, a) for a in recv + list(args) + list(kwargs.values())) or nm in ("arange", "ones", "zeros", "full", "range", "hstack", "array", "asanyarray", "asarray", "FastArray", "isscalar"):
                if nm == "isscalar" and len(args) == 1:
                    if is_const(args[0]) and cval(args[0]) is not None:
                        return [(st, C(True))]
                    if args[0].op in ("obj", "tup", "slice") or self.is_array(st, args[0]) or args[0] is NONE:
                        return [(st, C(False))]
                return self.eager(an, st, n, mk("call", f, tuple(args), tuple(sorted(kwargs.items()))))
        return None

    def cannot_raise(self, an, st, n, body):
        """a try body that only computed known values"""
        if len(body) != 1:
            return False
        o = body[0]
        if o.kind == "raise":
            return True
        if o.kind not in ("next", "return"):
            return False
        vs = [v for k, v in o.state.vars.items() if st.vars.get(k) is not v]
        if o.kind == "return":
            vs.append(o.value)
        return bool(vs) and all(v is not None and (v.op in ("c", "obj", "cls", "enum") or v in self.e.env) for v in vs)

    def inline(self, an, st, n, fn, args, kwargs):
        if fn.module.name in self.TRUST:
            return False
        return None

    def on_cond(self, an, st, n, c):
        try:
            r = self.e.ev(st, c)
        except (Unk, TypeError, KeyError, IndexError, ValueError, AttributeError):
            return self.other_cond(an, st, c)
        if is_arr(r):
            if r[:1] == ["pylist"]:
                return len(r) > 1
            if len(r) == 1 and isinstance(r[0], (bool, int)):
                return bool(r[0])
            return None
        return bool(r)

    def other_cond(self, an, st, c):
        if c.op == "attr" and c.args[1] == "DebugMode":
            return False
        if c.op == "cmp" and c.args[0] in ("is", "is not") and c.args[1].op == "obj" and c.args[2].op == "obj":
            return (c.args[1] is c.args[2]) == (c.args[0] == "is")
        if c.op == "cmp" and c.args[0] in ("==", "!=", "is", "is not") and all(x.op in ("cls", "ext") for x in c.args[1:]) and c.args[1] is c.args[2]:
            return c.args[0] in ("==", "is")
        if c.op == "isinst":
            x = c.args[0]
            names = [(y.name if hasattr(y, "name") else str(y)).split(".")[-1] for y in c.args[1]]
            if x.op == "obj":
                k = x.args[0]
                if k == "list":
                    return any(y in ("list", "Iterable", "Sequence", "Sized", "Collection") for y in names)
                if k == "set":
                    return any(y in ("set", "Iterable", "Sized", "Collection", "Set") for y in names)
                if k == "dict":
                    return any(y in ("dict", "Mapping", "MutableMapping") for y in names)
            if x.op == "c":
                v = cval(x)
                if isinstance(v, str):
                    return "str" in names or "Iterable" in names or "Sized" in names or "Sequence" in names
                if isinstance(v, bool):
                    return any(y in ("bool", "int", "Number", "Integral") for y in names)
                if isinstance(v, int):
                    return any(y in ("int", "Number", "Integral") for y in names)
                if isinstance(v, float):
                    return any(y in ("float", "Number", "Real") for y in names)
                if v is None:
                    return any(y == "NoneType" for y in names)
            if x.op == "slice":
                return "slice" in names
            if x.op == "tup":
                return any(y in ("tuple", "Iterable", "Sequence", "Sized", "Collection") for y in names)
            if self.is_array(st, x):
                return any(y in ("ndarray", "FastArray", "Iterable", "Sized", "Collection") for y in names)
        if c.op == "call" and call_name(c.args[0]) in ("is_array_subclass", "is_datelike", "is_spanlike"):
            return False
        if c.op == "hasattr" and self.is_array(st, c.args[0]):
            return None
        self.note(c)
        return None

    def note(self, c):
        self.unk["cond " + show(c)[:120]] = 1


class FInterp(Interp):
    exact_sets = True

    def known_elts(self, st, t):
        r = super().known_elts(st, t)
        if r is not None:
            return r
        h = self.hooks
        if h.is_array(st, t) or t.op in ("call", "sub") and len(show(t)) < 400:
            try:
                v = h.e.ev(st, t)
            except (Unk, TypeError, KeyError, IndexError, ValueError, AttributeError):
                return None
            v = h.e.arr(v)
            if isinstance(v, (list, tuple)) and len(v) <= 24:
                out = []
                for x in v:
                    if x is None or isinstance(x, (bool, int, float, str)):
                        out.append(C(x))
                    elif isinstance(x, tuple) and x and isinstance(x[0], str):
                        out.append(h.cell(x))
                    else:
                        return None
                return out
        return None

    def new_obj(self, st, kind, node):
        key = tuple(f.qual.split(".")[-1] for f in self.stack[-3:])
        i = 0
        while True:
            o = mk("obj", kind, (getattr(node, "lineno", 0), getattr(node, "col_offset", 0)) + key, i)
            if ("content", o) not in st.heap:
                return o
            i += 1
