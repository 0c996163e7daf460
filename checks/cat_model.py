"""Finite abstraction of a Categorical: a few distinct categories, every code relative to them, and the transfer functions extracted from the source.

The writes that the typestate analysis collects along a path (code writes, category array stores, mapping stores) are terms over the codes, the base
index and the edited category.  Their effect only depends on how a code compares with the edited category's code, so evaluating the collected
terms over one representative per case decides the effect for every array.
"""
from sa.absint import cval, is_const, subterms

from .cat_common import CODES, ENUM, FRESH, GRP, LIST0, SELF, WENUM, WGRP, WRAP, call_name


class Unknown(Exception):
    pass


class Infeasible(Exception):
    pass


class Other:
    """another Categorical, assigned from"""

    def __init__(self, base, names, codes):
        self.base, self.names, self.codes = base, names, codes


def inv(base):
    return 0 if base == 1 else -1


class Model:
    def __init__(self, base, names, codes, params, i2s=None):
        self.base = base
        self.names0 = list(names)
        self.codes0 = list(codes)
        self.params = params
        self.i2s = dict(i2s or {})
        self.s2i = {v: k for k, v in self.i2s.items()}

    # ------------------------------------------------ run the writes of a path
    def play(self, st):
        self.st = st
        self.names = list(self.names0)
        self.codes = list(self.codes0)
        self.newmap = [dict(self.i2s), dict(self.s2i)]
        self.snap = {}
        self.fresh = {}
        self.marks = sorted((m for m in st.marks if isinstance(m, tuple)), key=lambda m: m[1])
        seqs = [m[1] for m in self.marks]
        if len(set(seqs)) != len(seqs):
            raise Unknown("unordered writes")
        self.k = 0
        self.snap[0] = (list(self.codes), list(self.names))
        for m in self.marks:
            if m[0] == "w":
                self.store(self.codes, m[2], m[3])
            elif m[0] == "list":
                if m[2] != "_list":
                    raise Unknown("column dictionary")
                v = self.ev(m[3])
                if not isinstance(v, list):
                    raise Unknown("category array")
                self.names = list(v)
            elif m[0] == "listelem":
                self.store(self.names, m[2], m[3])
            elif m[0] == "aset":
                arr = self.fresh.get(m[2])
                if arr is None:
                    arr = self.fresh[m[2]] = self.call(m[2])
                self.store(arr, m[3], m[4])
            elif m[0] == "mset":
                if m[3].op == "all":
                    raise Unknown("mapping update")
                self.newmap[0 if m[2] == "_int_to_str_dict" else 1][self.ev(m[3])] = self.ev(m[4])
            elif m[0] == "mdel":
                d = self.newmap[0 if m[2] == "_int_to_str_dict" else 1]
                kk = self.ev(m[3])
                if kk not in d:
                    raise Infeasible("no such key")
                del d[kk]
            else:
                raise Unknown(m[0])
            self.k += 1
            self.snap[self.k] = (list(self.codes), list(self.names))

    def store(self, arr, idx, value):
        v = self.ev(value)
        if idx.op == "all":
            ix = list(range(len(arr)))
        else:
            i = self.ev(idx)
            ix = self.positions(i, len(arr))
        if isinstance(v, Other):
            v = v.codes
        if isinstance(v, list):
            if len(v) == 1:
                v = v * len(ix)
            if len(v) != len(ix):
                raise Infeasible("shape")
            for i, x in zip(ix, v):
                arr[i] = x
        else:
            for i in ix:
                arr[i] = v

    @staticmethod
    def positions(i, n):
        if isinstance(i, bool):
            raise Unknown("scalar mask")
        if isinstance(i, int):
            return [i % n]
        if isinstance(i, slice):
            return list(range(n))[i]
        if isinstance(i, list):
            if i and all(isinstance(x, bool) for x in i):
                if len(i) != n:
                    raise Infeasible("mask length")
                return [j for j, b in enumerate(i) if b]
            return list(i)
        raise Unknown("index")

    # ------------------------------------------------ path condition
    def decide(self, an, st, node, cond):
        """branch hook: the truth of a condition in this abstraction, None when it is not determined"""
        try:
            self.play(st)
            r = self.ev(cond)
        except (Unknown, Infeasible, TypeError):
            return None
        if isinstance(r, (list, tuple, dict, Other, slice)):
            return None
        return bool(r)

    def feasible(self):
        for f, v in self.st.facts.items():
            try:
                r = self.ev(f)
            except (Unknown, TypeError):
                continue
            if isinstance(r, (list, Other)) or r is None:
                continue
            if bool(r) != v:
                return False
        return True

    # ------------------------------------------------ terms
    def ev(self, t):
        op = t.op
        if op == "c":
            return cval(t)
        if op == "p":
            if t.args[0] in self.params:
                return self.params[t.args[0]]
            raise Unknown(t.args[0])
        if op == "codesat":
            s = self.snap.get(self._upto(t.args[0]))
            if s is None:
                raise Unknown("later codes")
            return list(s[0])
        if t is CODES:
            return list(self.codes)
        if t is LIST0:
            return list(self.names0)
        if op == "attr":
            return self.attr(t)
        if op == "bin":
            a, b = self.ev(t.args[1]), self.ev(t.args[2])
            return self.zip2(lambda x, y: self.arith(t.args[0], x, y), a, b)
        if op == "cmp":
            o = t.args[0]
            a, b = self.ev(t.args[1]), self.ev(t.args[2])
            if o == "is":
                return a is b or (a is not None and b is not None and not isinstance(a, (list, bool)) and not isinstance(b, (list, bool)) and a == b)
            if o == "in":
                if isinstance(b, (list, dict)):
                    return a in b
                raise Unknown("in")
            return self.zip2(lambda x, y: self.cmp(o, x, y), a, b)
        if op == "not":
            a = self.ev(t.args[0])
            return [not x for x in a] if isinstance(a, list) else not a
        if op in ("un", "unary"):
            a = self.ev(t.args[1])
            f = {"-": lambda x: -x, "~": lambda x: (not x) if isinstance(x, bool) else ~x, "not": lambda x: not x, "+": lambda x: x}[t.args[0]]
            return [f(x) for x in a] if isinstance(a, list) else f(a)
        if op == "boolop":
            vs = [self.ev(x) for x in t.args[1]]
            if any(isinstance(v, list) for v in vs):
                raise Unknown("boolop")
            return all(vs) if t.args[0] == "and" else any(vs)
        if op == "slice":
            return slice(*[self.ev(x) for x in t.args])
        if op == "tup":
            return tuple(self.ev(x) for x in t.args[0]) if t.args and isinstance(t.args[0], tuple) else tuple(self.ev(x) for x in t.args)
        if op == "sub":
            b, i = self.ev(t.args[0]), self.ev(t.args[1])
            if isinstance(b, dict):
                if i in b:
                    return b[i]
                raise Infeasible("key")
            if isinstance(b, tuple):
                return b[i]
            if not isinstance(b, list):
                raise Unknown("sub")
            if isinstance(i, int) and not isinstance(i, bool):
                if not -len(b) <= i < len(b):
                    raise Infeasible("index")
                return b[i]
            try:
                return [b[j] for j in self.positions(i, len(b))]
            except (IndexError, TypeError):
                raise Infeasible("index")
        if op == "obj":
            return self.obj(t)
        if op == "isinst":
            return self.isinst(t)
        if op == "lookup":
            return self.lookup(t)
        if op in ("call", "inst"):
            if t in self.fresh:
                return self.fresh[t]
            return self.call(t)
        raise Unknown(op)

    def _upto(self, seq):
        return sum(1 for m in self.marks if m[1] < seq)

    def arith(self, op, x, y):
        if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
            raise Unknown("text arithmetic")
        if op == "+":
            return x + y
        if op == "-":
            return x - y
        if op == "*":
            return x * y
        if op == "&":
            return x & y
        if op == "|":
            return x | y
        raise Unknown(op)

    def cmp(self, o, x, y):
        if o in ("==", "!="):
            return (x == y) == (o == "==")
        if isinstance(x, str) != isinstance(y, str) or x is None or y is None:
            raise Unknown("cmp")
        return x < y if o == "<" else x <= y

    def zip2(self, f, a, b):
        if isinstance(a, (Other, dict, tuple, slice)) or isinstance(b, (Other, dict, tuple, slice)):
            raise Unknown("operand")
        if isinstance(a, list) and isinstance(b, list):
            if len(a) != len(b):
                if len(b) == 1:
                    b = b * len(a)
                elif len(a) == 1:
                    a = a * len(b)
                else:
                    raise Infeasible("shape")
            return [f(x, y) for x, y in zip(a, b)]
        if isinstance(a, list):
            return [f(x, b) for x in a]
        if isinstance(b, list):
            return [f(a, y) for y in b]
        return f(a, b)

    def attr(self, t):
        b, n = t.args
        if n in ("_base_index", "base_index") and (b in (SELF, WRAP, GRP, WGRP) or b.op == "gcopy"):
            return self.base
        if n == "nan_index" and b is SELF:
            return inv(self.base)
        if b is SELF:
            if n == "_locked":
                return False
            if n in ("category_array", "_categories"):
                return list(self.names)
            if n == "unique_count":
                return len(self.names)
        if b in (SELF, WRAP) and n in ("_sorted", "sorted"):
            if "*sorted" in self.params:
                return self.params["*sorted"]
        if b is WRAP and n == "_first_list":
            return list(self.names)
        if b is WRAP and n == "_auto_add_categories":
            return self.params.get("*auto", True)
        if n in ("_int_to_str_dict", "_str_to_int_dict"):
            return dict(self.i2s if n == "_int_to_str_dict" else self.s2i)
        if b.op == "p":
            v = self.params.get(b.args[0])
            if isinstance(v, Other):
                if n in ("base_index", "_base_index"):
                    return v.base
                if n in ("_fa", "_np"):
                    return list(v.codes)
                if n in ("category_array", "_categories"):
                    return list(v.names)
                if n == "unique_count":
                    return len(v.names)
                if n == "issinglekey":
                    return True
                if n in ("isenum", "ismultikey"):
                    return False
        raise Unknown(n)

    def obj(self, t):
        c = self.st.heap.get(("content", t))
        if t.args[0] == "list":
            if c is None or c[0] != "list" or c[2] is False:
                # filled in a loop: the categories to add
                return [self.params.get("*added", "new")]
            out = []
            for x in c[1]:
                if x.op == "star":
                    out.extend(self.ev(x.args[0]))
                else:
                    out.append(self.ev(x))
            return out
        raise Unknown("obj")

    def isinst(self, t):
        v = self.ev(t.args[0])
        names = {getattr(x, "name", str(x)).split(".")[-1] for x in t.args[1]}
        if isinstance(v, Other):
            return "Categorical" in names or "ndarray" in names
        if isinstance(v, bool):
            return bool(names & {"bool", "int"})
        if isinstance(v, str):
            return "str" in names
        if isinstance(v, int):
            return bool(names & {"int", "integer"})
        if isinstance(v, float):
            return bool(names & {"float", "floating", "float64", "float_"})
        if isinstance(v, list):
            return bool(names & {"ndarray", "list"})
        if isinstance(v, slice):
            return "slice" in names
        raise Unknown("isinst")

    def lookup(self, t):
        name, seq, args = t.args
        key = self.ev(args[0])
        names = self.snap.get(self._upto(seq), (None, self.names))[1]
        one = name != "get_category_match_index"
        if isinstance(key, list):
            raise Infeasible("array of codes is not a category")
        if self.i2s and name in ("from_category", "get_category_index"):
            if key in self.s2i:
                return self.s2i[key]
            raise Unknown("mapping lookup")
        code = names.index(key) + self.base if key in names else None
        if one:
            if code is None:
                raise Infeasible("not found")
            return code
        return [] if code is None else [code]

    def call(self, t):
        name = call_name(t)
        a = list(t.args[1])
        kw = dict(t.args[2])
        f = t.args[0]
        if f.op == "attr" or f.op == "bm":
            recv = f.args[0]
            if name in ("all", "any"):
                v = self.ev(recv)
                if isinstance(v, list):
                    return all(v) if name == "all" else any(v)
            if name == "get" and a:
                d = self.ev(recv)
                if isinstance(d, dict):
                    return d.get(self.ev(a[0]), self.ev(a[1]) if len(a) > 1 else None)
            if name in ("astype", "copy", "view") and recv is not SELF:
                return self.ev(recv)
            if name in ("_get_array", "_first_list") and recv is WRAP:
                return list(self.names)
            if name == "match_str_to_category" and a:
                return self.ev(a[0])
            if name == "_is_valid_mapping_code" and a:
                return self.ev(a[0]) in self.i2s
            if name == "categories_equal" and a:
                return self.cats_equal(a[-1])
            raise Unknown(name)
        if name == "len":
            if a[0] is WRAP:
                return len(self.names)
            if a[0] is SELF:
                return len(self.codes)
            v = self.ev(a[0])
            if isinstance(v, Other):
                return len(v.codes)
            return len(v)
        if name in ("hstack", "concatenate"):
            parts = self.ev(a[0])
            out = []
            for p in parts:
                out.extend(p if isinstance(p, list) else [p])
            return out
        if name == "unique":
            v = self.ev(a[0])
            u = sorted(set(v))
            if "return_inverse" in kw:
                return (u, [u.index(x) for x in v])
            return u
        if name in ("full", "zeros"):
            n = self.ev(a[0])
            x = self.ev(a[1]) if name == "full" else 0
            return [x] * n
        if name == "where" and len(a) == 3:
            c, x, y = (self.ev(q) for q in a)
            n = len(c)
            x = x if isinstance(x, list) else [x] * n
            y = y if isinstance(y, list) else [y] * n
            return [p if b else q for b, p, q in zip(c, x, y)]
        if name == "ismember" and len(a) >= 2:
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, list) and isinstance(y, list):
                return ([e in y for e in x], [y.index(e) if e in y else -128 for e in x])
        if name in ("max", "min", "maximum", "minimum") and len(a) == 2:
            return self.zip2(max if name.startswith("max") else min, self.ev(a[0]), self.ev(a[1]))
        if name in ("int", "abs") and len(a) == 1:
            v = self.ev(a[0])
            return [abs(x) if name == "abs" else int(x) for x in v] if isinstance(v, list) else (abs(v) if name == "abs" else int(v))
        if name in ("logical_and", "logical_or") and len(a) == 2:
            return self.zip2((lambda x, y: x and y) if name == "logical_and" else (lambda x, y: x or y), self.ev(a[0]), self.ev(a[1]))
        if name == "logical_not":
            return [not x for x in self.ev(a[0])]
        if name in ("flatnonzero", "nonzero"):
            v = [i for i, x in enumerate(self.ev(a[0])) if x]
            return v if name == "flatnonzero" else (v,)
        if name == "arange" and len(a) == 1:
            return list(range(self.ev(a[0])))
        if name == "delete" and len(a) == 2:
            v, i = self.ev(a[0]), self.ev(a[1])
            return [x for j, x in enumerate(v) if j != i]
        if name == "insert" and len(a) == 3:
            v, i, x = (self.ev(q) for q in a)
            return v[:i] + [x] + v[i:]
        if name == "append" and len(a) == 2:
            v, x = self.ev(a[0]), self.ev(a[1])
            return v + (x if isinstance(x, list) else [x])
        if name == "bool_to_fancy":
            return [i for i, x in enumerate(self.ev(a[0])) if x]
        if name == "searchsorted" and len(a) == 2:
            v, x = self.ev(a[0]), self.ev(a[1])
            if isinstance(v, list) and not isinstance(x, list):
                return sum(1 for y in v if y < x)
        if name in ("FastArray", "asarray", "asanyarray", "array") and a:
            return self.ev(a[0])
        if name == "categories_equal" and a:
            return self.cats_equal(a[-1])
        raise Unknown(name)

    def cats_equal(self, lst):
        c = self.st.heap.get(("content", lst))
        items = c[1] if c else (lst.args[0] if lst.op == "tup" else ())
        ns = []
        for x in items:
            if x is SELF:
                ns.append(self.names0)
            else:
                v = self.ev(x)
                if not isinstance(v, Other):
                    raise Unknown("cats_equal")
                ns.append(v.names)
        if len(ns) < 2:
            raise Unknown("cats_equal")
        return (all(x == ns[0] for x in ns), [])

    # ------------------------------------------------ what a user sees
    def shown(self, codes=None, names=None):
        codes = self.codes if codes is None else codes
        names = self.names if names is None else names
        return [names[c - self.base] if self.base <= c < self.base + len(names) else None for c in codes]
