"""Finite abstraction of Categoricals: the real constructors, readers and editors over a handful of rows and categories.

Instances of Categorical, Categories, Grouping and GroupingEnum are abstract objects whose attributes live in the analysed state; code and
category arrays are short arrays of known elements.  Views share their storage.  Everything the object layer does is taken from the source;
the array layer (hashing, sorting, membership, stacking, masks) is given by its contract.
"""
from sa.absint import Budget, C, NONE, Outcome, State, cval, is_const, mk, show

from .fin import Dt, FEv, FHooks, FInterp, INV, Unk, dt_of, vals
from .gb_model import call_name, gather, is_arr

OBJECTS = ("Categories", "Grouping", "GroupingEnum", "Categorical")


class CEv(FEv):
    def __init__(self, env=None):
        super().__init__(env)
        self.root = {}

    def base(self, t):
        return self.root.get(t, t)

    def ev(self, st, t):
        t = self.base(t)
        if t.op == "bin" and t.args[0] == "+":
            a, b = self.arr(self.ev(st, t.args[1])), self.arr(self.ev(st, t.args[2]))
            if any(isinstance(x, str) or is_arr(x) and x and isinstance(x[0], str) for x in (a, b)):
                if is_arr(a) and is_arr(b):
                    return [x + y for x, y in zip(a, b)]
                if is_arr(a):
                    return [x + b for x in a]
                if is_arr(b):
                    return [a + x for x in b]
                return a + b
        return super().ev(st, t)

    def call(self, st, t):
        f, args, kw = t.args[0], list(t.args[1]), dict(t.args[2])
        nm = call_name(f)
        if f.op == "attr" and f.args[0].op not in ("ext", "mod"):
            args = [f.args[0]] + args
        elif f.op == "bm":
            args = [f.args[0]] + args
        if args and args[0].op == "cls":
            args = args[1:]
        n = len(args)
        A_ = lambda i: self.arr(self.ev(st, args[i]))
        if nm == "ismember" and n == 2 and set(kw) <= {"base_index"}:
            a, b = A_(0), A_(1)
            base = self.ev(st, kw["base_index"]) if "base_index" in kw else 0
            if isinstance(a, tuple):
                a = list(a)
            if isinstance(b, tuple):
                b = list(b)
            if a and is_arr(a[0]):
                base = 0
                cols = [self.arr(x) for x in a]
                ocols = [self.arr(x) for x in b]
                if len(cols) != len(ocols) or not all(is_arr(x) for x in cols + ocols):
                    raise Unk(nm)
                a, b = list(zip(*cols)), list(zip(*ocols))
            elif b and is_arr(b[0]) and len(b) == 1:
                b = self.arr(b[0])
            if not is_arr(a) or not is_arr(b) or any(x == INV for x in a + b):
                raise Unk(nm)
            if a and b and isinstance(a[0], tuple) != isinstance(b[0], tuple):
                raise Unk(nm)
            if a and b and isinstance(a[0], str) != isinstance(b[0], str) and not isinstance(a[0], tuple):
                raise Unk("mixed types")
            m = [x in b for x in a]
            return (m if not base else int(not all(m)), [b.index(x) + base if x in b else (0 if base == 1 else INV) for x in a])
        if nm == "issorted" and n == 1:
            v = A_(0)
            if is_arr(v):
                return all(x <= y for x, y in zip(v, v[1:]))
        if nm == "searchsorted" and n == 2 and not kw:
            v, x = A_(0), A_(1)
            if is_arr(v) and not is_arr(x):
                import bisect
                return bisect.bisect_left(v, x)
        if nm in ("mask_and", "mask_andi", "mask_or", "mask_ori") and n == 1:
            vs = [self.arr(x) for x in A_(0)]
            if vs and all(is_arr(v) for v in vs):
                g = all if "and" in nm else any
                return [g(z) for z in zip(*vs)]
        if nm in ("crc64",) and n == 1:
            v = A_(0)
            if is_arr(v):
                return ("crc", tuple(v))
        if nm == "crc_match" and n == 1:
            vs = [self.arr(x) for x in A_(0)]
            return all(v == vs[0] for v in vs)
        if nm in ("min", "max", "nanmin", "nanmax") and n == 1:
            v = A_(0)
            if is_arr(v) and v and all(isinstance(x, (int, float)) for x in v):
                return (min if "min" in nm else max)(v)
            if is_arr(v) and nm == "max" and all(x == INV or isinstance(x, int) for x in v) and any(x != INV and x >= 0 for x in v):
                return max(x for x in v if x != INV)  # an invalid integer is the smallest of its type
        if nm == "astype" and (n >= 2 or "dtype" in kw):
            v = A_(0)
            d = args[1] if n >= 2 else kw["dtype"]
            d = cval(d) if is_const(d) else None
            if d in ("U", "S") and is_arr(v) and v and all(isinstance(x, int) and not isinstance(x, bool) for x in v):
                return [str(x) for x in v]
            if d in ("U", "S") and is_arr(v) and all(isinstance(x, (str, bytes)) for x in v):
                return [x.decode() if d == "U" and isinstance(x, bytes) else x for x in v]
        if nm == "unique" and n == 1:
            v = A_(0)
            srt = self.ev(st, kw["sorted"]) if "sorted" in kw else True
            if not is_arr(v) or set(kw) - {"sorted", "return_inverse", "return_index", "return_counts", "lex"}:
                raise Unk(nm)
            if any(is_arr(x) or isinstance(x, (tuple, dict)) for x in v):
                raise Unk(nm)
            u = list(dict.fromkeys(v))
            if srt:
                u = sorted(u)
            out = [u]
            if "return_index" in kw and self.ev(st, kw["return_index"]):
                out.append([v.index(x) for x in u])
            if "return_inverse" in kw and self.ev(st, kw["return_inverse"]):
                out.append([u.index(x) for x in v])
            if "return_counts" in kw and self.ev(st, kw["return_counts"]):
                raise Unk(nm)
            return out[0] if len(out) == 1 else tuple(out)
        if nm in ("_MBGET", "mbget") and n == 3:
            v, k, d = A_(0), A_(1), A_(2)
            if is_arr(v) and is_arr(k):
                return [d if (i == INV or not -len(v) <= i < len(v)) else v[i] for i in k]
        if nm == "empty" and n >= 1:
            m = self.ev(st, args[0])
            if isinstance(m, int):
                return [INV] * m
        if nm in ("sort", "argsort", "lexsort") and n == 1 and not set(kw) - {"kind", "axis", "order"}:
            v = A_(0)
            if nm == "lexsort" and is_arr(v) and v and is_arr(self.arr(v[0])):
                cols = [self.arr(x) for x in v][::-1]
                return sorted(range(len(cols[0])), key=lambda i: tuple(c[i] for c in cols))
            if is_arr(v) and not any(x == INV for x in v):
                return sorted(v) if nm == "sort" else sorted(range(len(v)), key=lambda i: v[i])
        if nm == "isreal" and n == 1:
            return isinstance(A_(0), (int, float))
        if nm == "isin" and n == 2:
            a, b = A_(0), A_(1)
            if is_arr(a) and is_arr(b):
                inv = self.ev(st, kw["invert"]) if "invert" in kw else False
                return [(x in b) != inv for x in a]
        if nm in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__") and n == 2:
            return self.ev(st, mk("cmp", {"__eq__": "==", "__ne__": "!=", "__lt__": "<", "__le__": "<=", "__gt__": ">", "__ge__": ">="}[nm], args[0], args[1]))
        if nm in ("encode", "decode"):
            v = A_(0)
            if isinstance(v, (str, bytes)):
                return getattr(v, nm)()
        if nm == "tile" and n == 2:
            v, k = A_(0), A_(1)
            if is_arr(v) and isinstance(k, int):
                return v * k
        if nm in ("zip",) and n >= 1 and not kw:
            vs = [self.arr(self.ev(st, a)) for a in args]
            if all(isinstance(v, (list, tuple)) for v in vs):
                return ["pylist"] + list(zip(*vs))
        if nm in ("hstack", "concatenate", "HStack") and n == 1:
            v = self.arr(self.ev(st, args[0]))
            out = []
            for x in v:
                x = self.arr(x)
                if is_arr(x):
                    out += x
                elif isinstance(x, (dict, slice)) or x is None:
                    raise Unk(nm)
                else:
                    out.append(x)
            if any(isinstance(x, (list, dict)) for x in out):
                raise Unk(nm)
            return out
        return super().call(st, t)


def dtype_of(v):
    v = FEv.arr(v)
    if is_arr(v) and v and all(isinstance(x, bytes) for x in v):
        return Dt("S")
    return None


class CHooks(FHooks):
    TRUST = ("riptable.rt_numpy", "riptable.rt_fastarray", "riptable.rt_mlutils", "riptable.rt_ledger")

    def __init__(self, prog):
        super().__init__(prog)
        self.e = CEv(self.e.env)
        self.objs = {prog.cls(c): c for c in OBJECTS}
        self.cat = prog.cls("Categorical")
        self.k = 0

    # -------- objects
    def instance(self, st, cls):
        self.k += 1
        o = mk("p", f"{cls.name}@{self.k}")
        s = st.copy()
        s.types[o] = (frozenset([("exact", cls)]), frozenset())
        s.heap[(o, "*inst")] = C(True)
        return s, o

    def is_inst(self, st, t):
        return (t, "*inst") in st.heap

    def view(self, st, src, cls):
        """another object over the same storage"""
        if cls is self.cat:
            s, o = self.instance(st, cls)
        else:
            self.k += 1
            o = mk("p", f"view@{self.k}")
            s = st.copy()
            s.types[o] = (frozenset([("exact", self.fa)]), frozenset())
        r = self.e.base(src)
        self.e.root[o] = r
        self.e.env[o] = self.e.env[r]
        return s, o

    def token(self, st, value, tag="v", dt=None):
        s, t = super().token(st, value, tag, dt or dtype_of(value))
        return s, t

    def reify(self, an, st, n, v):
        if isinstance(v, bytes):
            return st, C(v)
        if isinstance(v, tuple) and v and v[0] == "crc":
            return st, C(repr(v))
        if isinstance(v, tuple) and v and v != INV:
            ts = []
            for x in v:
                st, t = self.reify(an, st, n, x)
                ts.append(t)
            return st, mk("tup", *ts)
        return super().reify(an, st, n, v)

    # -------- attributes
    def on_getattr(self, an, st, n, b, name):
        if name == "dtype" and self.is_array(st, b):
            return None
        if name in ("shape", "size", "ndim", "itemsize", "strides") and self.is_array(st, b):
            m = len(self.e.env[self.e.base(b)])
            return [(st, {"shape": mk("tup", C(m)), "size": C(m), "ndim": C(1), "itemsize": C(8), "strides": mk("tup", C(8))}[name])]
        if name == "__class__" and self.is_inst(st, b):
            return [(st, mk("cls", an.cls_of(st, b)))]
        if name == "_np" and self.is_array(st, b):
            return [(st, b)] if not self.is_inst(st, b) else [self.view(st, b, self.fa)]
        if name in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__") and self.is_array(st, b) and not self.is_inst(st, b):
            return [(st, mk("attr", b, name))]
        if self.is_inst(st, b) and (b, name) not in st.heap:
            c = an.cls_of(st, b)
            l = c.lookup(name)
            if l is None and name.startswith("__") and name.endswith("__"):
                return None
            if l is None and not self.is_array(st, b):
                an._raise_sink[-1].append(Outcome("raise", st, mk("call", mk("ext", "builtins.AttributeError"), (C(name),), ()), n))
                return []
            if l is not None and l[0] != "m":
                return [(st, an.class_attr(l[1], name))]
        if name == "_name" and self.is_array(st, b) and (b, name) not in st.heap:
            an._raise_sink[-1].append(Outcome("raise", st, mk("call", mk("ext", "builtins.AttributeError"), (C(name),), ()), n))
            return []
        return None

    def is_array(self, st, t):
        return t in self.e.env and is_arr(self.e.env[t]) and t.op == "p"

    def is_cat(self, st, t):
        return self.is_inst(st, t) and self.is_array(st, t)

    def on_setattr(self, an, st, n, b, name, v):
        if self.is_inst(st, b):
            c = an.cls_of(st, b)
            if c.find_setter(name) is None:
                s = st.copy()
                s.heap[(b, name)] = v
                return [s]
        return None

    # -------- operators on Categoricals run the class's own methods
    def on_compare(self, an, st, n, op, a, b):
        d = {"==": "__eq__", "!=": "__ne__", "<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}
        if op in d:
            for x, y, o in ((a, b, op), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
                if self.is_cat(st, x):
                    return an.call_fn(st, n, self.cat.find(d[o]), [x, y], {}, None)
        if op in ("in", "not in") and self.is_array(st, b) and not self.is_inst(st, b):
            try:
                return [(st, C((self.e.ev(st, a) in self.e.arr(self.e.ev(st, b))) == (op == "in")))]
            except (Unk, TypeError):
                return None
        if op in ("==", "!=") and a.op == "obj" and b.op == "obj" and a.args[0] == b.args[0] == "dict":
            try:
                return [(st, C((self.e.ev(st, a) == self.e.ev(st, b)) == (op == "==")))]
            except (Unk, TypeError):
                return None
        return super().on_compare(an, st, n, op, a, b)

    def on_getitem(self, an, st, n, b, i):
        if self.is_inst(st, b):
            f = an.cls_of(st, b).find("__getitem__")
            return an.call_fn(st, n, f, [b, i], {}, None)
        if b.op == "glob" and b.args and str(b.args[-1]) == "INVALID_DICT" or "INVALID_DICT" in show(b)[:60]:
            return [(st, self.cell(INV))]
        if self.is_array(st, b):
            b = self.e.base(b)
            try:
                iv = self.e.ev(st, i)
            except (Unk, TypeError, KeyError, IndexError):
                iv = None
            if isinstance(iv, int) and not isinstance(iv, bool):
                try:
                    m = len(self.e.arr(self.e.ev(st, b)))
                except Unk:
                    m = None
                if m is not None and not -m <= iv < m:
                    an._raise_sink[-1].append(Outcome("raise", st, mk("call", mk("ext", "builtins.IndexError"), (i,), ()), n))
                    return []
        return super().on_getitem(an, st, n, b, i)

    def on_setitem(self, an, st, n, b, i, v):
        if self.is_cat(st, b) and not (an.stack and an.stack[-1].cls is self.cat and an.stack[-1].name == "__setitem__"):
            f = self.cat.find("__setitem__")
            return [s for s, _ in an.call_fn(st, n, f, [b, i, v], {}, None)]
        if self.is_array(st, b):
            return self.write(an, st, self.e.base(b), i, v)
        return super().on_setitem(an, st, n, b, i, v)

    def on_binop(self, an, st, n, op, a, b):
        r = super().on_binop(an, st, n, op, a, b)
        if r is None and op == "+" and a.op == "c" and b.op == "c" and isinstance(cval(a), str) and isinstance(cval(b), str):
            return [(st, C(cval(a) + cval(b)))]
        return r

    def on_aug(self, an, st, n, target, op, a, b):
        if self.is_array(st, a):
            return [(s, a) for s, _ in super().on_aug(an, st, n, target, op, self.e.base(a), b)]
        return None

    # -------- calls
    def on_call(self, an, st, n, f, args, kwargs):
        nm = call_name(f)
        if nm == "get" and show(f).startswith("sys.modules"):
            return [(st, NONE)]
        if f.op == "cls" and f.args[0] in self.objs:
            return self.build(an, st, n, f.args[0], args, kwargs)
        if nm in ("__setattr__", "__getattribute__") and f.op in ("attr", "bm") and self.is_inst(st, f.args[0]) and args and args[0].op == "c":
            o = f.args[0]
            if nm == "__setattr__":
                return [(s, NONE) for s in an.set_attr(st, n, o, cval(args[0]), args[1])]
            return an.get_attr(st, n, o, cval(args[0]))
        if nm == "getattr" and f.op == "ext" and len(args) == 2 and args[1].op == "c":
            if self.is_array(st, args[0]) or self.is_inst(st, args[0]):
                return an.get_attr(st, n, args[0], cval(args[1]))
        if nm == "setattr" and f.op == "ext" and len(args) == 3 and args[1].op == "c" and self.is_inst(st, args[0]):
            return [(s, NONE) for s in an.set_attr(st, n, args[0], cval(args[1]), args[2])]
        if nm == "view" and f.op in ("attr", "bm") and self.is_array(st, f.args[0]) and len(args) == 1 and args[0].op == "cls":
            return [self.view(st, f.args[0], args[0].args[0])]
        if nm == "get_name" and f.op in ("attr", "bm"):
            return [(st, NONE)]
        if nm == "set_name":
            return [(st, f.args[0])]
        if nm == "_copy_name":
            return [(st, NONE)]
        if nm == "len" and len(args) == 1 and self.is_inst(st, args[0]) and not self.is_array(st, args[0]):
            g = an.cls_of(st, args[0]).find("__len__")
            if g is not None:
                return an.call_fn(st, n, g, [args[0]], {}, None)
        if f.op == "attr" and f.args[0].op == "extsuper" and nm == "__setitem__" or f.op == "bm" and nm == "__setitem__" and f.args[1].cls is self.fa:
            o = f.args[0].args[0] if f.op == "attr" else f.args[0]
            a = args[-2:]
            return [(s, NONE) for s in self.write(an, st, self.e.base(o), a[0], a[1])]
        if nm == "is_binned_array" and len(args) == 1:
            return [(st, C(self.is_cat(st, args[0])))]
        if nm == "newclassfrominstance" and f.op in ("fn", "bm", "attr", "ext") and len(args) == 2 and self.is_array(st, args[0]) and self.is_array(st, args[1]) and not self.is_inst(st, args[1]):
            if f.op != "bm" or f.args[0].op != "cls" or f.args[0].args[0].name not in OBJECTS:
                return [(st, args[0])]
        if nm == "int_dtype_from_len":
            return [(st, mk("ext", "numpy.int64"))]
        if nm in ("empty", "full", "HStack", "ismember", "crc_match", "lexsort", "mask_or", "mask_ori", "mask_and", "mask_andi") and f.op in ("fn", "ext") and not any(self.is_cat(st, a) for a in args):
            r = self.eager(an, st, n, mk("call", f, tuple(args), tuple(sorted(kwargs.items()))))
            if r is not None:
                return r
        if nm == "combine_accum1_filter" and len(args) >= 2:
            return self.regroup(an, st, n, args, kwargs)
        if nm in ("groupby", "groupbyhash", "groupbylex") and f.op in ("fn", "ext") and args:
            if nm == "groupbylex":
                kwargs = {**kwargs, "lex": C(True)}
            return self.groupby(an, st, n, args, kwargs)
        if nm == "_make_isortrows" and len(args) == 1:
            try:
                d = self.e.ev(st, args[0])
                cols = [self.e.arr(v) for v in d.values()]
                idx = sorted(range(len(cols[0])), key=lambda i: tuple(c[i] for c in cols))
            except (Unk, TypeError, AttributeError):
                return None
            return [self.token(st, idx, "sort")]
        if nm == "copy" and f.op in ("bm", "attr") and self.is_array(st, f.args[0]) and not self.is_inst(st, f.args[0]):
            return [self.token(st, self.e.arr(self.e.ev(st, f.args[0])), "copy")]
        if nm == "copy" and f.op == "attr" and f.args[0].op == "obj":
            c = st.heap.get(("content", f.args[0]))
            if c is not None and (c[0] == "dict" and c[2] is None or c[0] == "list" and c[2]):
                s = st.copy()
                o = an.new_obj(s, f.args[0].args[0], n)
                s.heap[("content", o)] = c
                return [(s, o)]
        if nm == "fill_invalid" and f.op in ("bm", "attr") and self.is_array(st, f.args[0]) and not self.is_inst(st, f.args[0]):
            return None
        if nm == "fill" and f.op in ("bm", "attr") and self.is_array(st, f.args[0]) and len(args) == 1:
            return [(s, NONE) for s in self.write(an, st, self.e.base(f.args[0]), mk("slice", NONE, NONE, NONE), args[0])]
        if nm == "putmask" and len(args) == 3 and self.is_array(st, args[0]):
            args = [self.e.base(args[0])] + list(args[1:])
        if nm == "FastArray" and f.op == "cls" and args and args[0].op == "obj" and self.e.ev is not None:
            try:
                v = self.e.arr(self.e.ev(st, args[0]))
                if is_arr(v) and not any(isinstance(x, (list, dict)) or x is None for x in v):
                    u = kwargs.get("unicode")
                    if all(isinstance(x, str) for x in v) and v and u is not C(True):
                        pass
                    return [self.token(st, v, "fa")]
            except Unk:
                return None
        if f.op == "bm" and f.args[1].cls is self.fa and self.is_inst(st, f.args[0]):
            f = mk("bm", self.e.base(f.args[0]), f.args[1])
        if f.op == "bm" and self.is_cat(st, f.args[0]) and f.args[1].module.name not in self.TRUST:
            return None
        if not (f.op == "bm" and f.args[0].op == "cls") and nm not in (None,):
            # array primitives see the codes of a Categorical only through its views
            if any(self.is_cat(st, a) for a in args) and nm in ("ismember", "hstack", "unique", "mask_ori", "mask_or"):
                return self.with_cats(an, st, n, nm, args, kwargs)
        return super().on_call(an, st, n, f, args, kwargs)

    def with_cats(self, an, st, n, nm, args, kwargs):
        """membership of a Categorical's elements, by value"""
        if nm != "ismember" or len(args) != 2:
            return None
        try:
            vs = []
            for a in args:
                v = self.shown(an, st, a) if self.is_cat(st, a) else self.e.arr(self.e.ev(st, a))
                if not is_arr(v):
                    return None
                vs.append(v)
        except Unk:
            return None
        m = [x is not None and x in vs[1] for x in vs[0]]
        s, t = self.token(st, m, "member")
        s, u = self.token(s, [vs[1].index(x) if k else INV for x, k in zip(vs[0], m)], "where")
        return [(s, mk("tup", t, u))]

    def shown(self, an, st, cat):
        """the values of the rows of a Categorical as membership sees them (codes into the category columns), None for rows without a category"""
        b = an.get_attr(st, None, cat, "base_index")
        if len(b) != 1 or not is_const(b[0][1]):
            raise Unk("values")
        base, codes = cval(b[0][1]), self.codes(st, cat)
        if base is not None:
            d = an.get_attr(st, None, cat, "category_dict")
            c = d[0][0].heap.get(("content", d[0][1])) if len(d) == 1 else None
            if c is not None and c[0] == "dict" and c[2] is None and c[1]:
                cols = [self.e.arr(self.e.ev(d[0][0], v)) for _, v in c[1]]
                if all(is_arr(x) for x in cols):
                    cats = cols[0] if len(cols) == 1 else list(zip(*cols))
                    if any(x != INV and x - base >= len(cats) for x in codes):
                        raise Unk("code without a category")
                    return [cats[x - base] if x != INV and x >= base else None for x in codes]
        l = an.call_fn(st, None, self.cat.find("expand_array"), [cat], {}, None)
        if len(l) != 1:
            raise Unk("values")
        v = self.e.arr(self.e.ev(l[0][0], l[0][1]))
        if not is_arr(v):
            raise Unk("values")
        return [x if c != INV and c >= base else None for x, c in zip(v, codes)]

    def groupby(self, an, st, n, args, kwargs):
        try:
            cols = [self.e.arr(x) for x in self.e.arr(self.e.ev(st, args[0]))]
            fil = self.e.arr(self.e.ev(st, kwargs["filter"])) if "filter" in kwargs else None
            lex = self.e.ev(st, kwargs["lex"]) if "lex" in kwargs else False
            if "cutoffs" in kwargs and self.e.ev(st, kwargs["cutoffs"]) is not None:
                return None
        except (Unk, TypeError):
            return None
        if not all(is_arr(c) for c in cols):
            return None
        rows = list(zip(*cols))
        keep = [fil is None or bool(fil[i]) for i in range(len(rows))]
        u = list(dict.fromkeys(r for r, k in zip(rows, keep) if k))
        if lex:
            u = sorted(u)
        ik = [u.index(r) + 1 if k else 0 for r, k in zip(rows, keep)]
        fk = [next(i for i, x in enumerate(ik) if x == b + 1) for b in range(len(u))]
        s, a = self.token(st, ik, "ikey")
        s, b = self.token(s, fk, "ifirst")
        s = s.copy()
        o = an.new_obj(s, "dict", n)
        s.heap[("content", o)] = ("dict", ((C("iKey"), a), (C("iFirstKey"), b), (C("unique_count"), C(len(u))), (C("iGroup"), NONE), (C("iFirstGroup"), NONE), (C("nCountGroup"), NONE)), None)
        return [(s, o)]

    def regroup(self, an, st, n, args, kwargs):
        """the native filter of group numbers: new numbers in order of first use"""
        try:
            k = self.e.arr(self.e.ev(st, args[0]))
            fil = self.e.arr(self.e.ev(st, kwargs["filter"] if "filter" in kwargs else args[2] if len(args) > 2 else NONE))
            if not is_arr(k) or fil is not None and not is_arr(fil):
                return None
        except (Unk, TypeError):
            return None
        k = [x if fil is None or fil[i] else 0 for i, x in enumerate(k)]
        u = [x for x in dict.fromkeys(k) if x != 0]
        s, a = self.token(st, [u.index(x) + 1 if x else 0 for x in k], "ikey")
        s, b = self.token(s, [k.index(x) for x in u], "ifirst")
        s = s.copy()
        o = an.new_obj(s, "dict", n)
        s.heap[("content", o)] = ("dict", ((C("iKey"), a), (C("iFirstKey"), b), (C("unique_count"), C(len(u)))), None)
        return [(s, o)]

    def cannot_raise(self, an, st, n, body):
        if len(body) == 1 and body[0].kind in ("next", "return"):
            o = body[0]
            top = max((k[0] for k in st.vars), default=0)
            vs = [v for k, v in o.state.vars.items() if st.vars.get(k) is not v and k[0] <= top]
            if o.kind == "return":
                vs.append(o.value)
            if vs and all(v is not None and (v.op in ("c", "obj", "cls", "enum") or v in self.e.env or self.is_inst(o.state, v)) for v in vs):
                return True
        return super().cannot_raise(an, st, n, body)

    def build(self, an, st, n, cls, args, kwargs):
        if cls is self.cat:
            new = cls.find("__new__")
            return an.call_fn(st, n, new, [mk("cls", cls)] + list(args), kwargs, None)
        s, o = self.instance(st, cls)
        init = cls.find("__init__")
        if init is None:
            return [(s, o)]
        return [(s2, o) for s2, _ in an.call_fn(s, n, init, [o] + list(args), kwargs, None)]

    def inline(self, an, st, n, fn, args, kwargs):
        if fn.module.name in self.TRUST:
            return False
        return True if fn.module.name.startswith("riptable.") else None

    def other_cond(self, an, st, c):
        if c.op == "attr" and c.args[1] == "DebugMode":
            return False
        if c.op == "cmp" and c.args[0] in ("==", "!=", "is", "is not") and all(x.op == "cls" or x.op == "ext" and show(x).startswith(("numpy.", "builtins.")) for x in c.args[1:]) and any(x.op == "cls" for x in c.args[1:]):
            return (c.args[1] is c.args[2]) == (c.args[0] in ("==", "is"))
        if c.op == "hasattr":
            b, name = c.args[0], c.args[1]
            if self.is_inst(st, b):
                return (b, name) in st.heap or an.cls_of(st, b).lookup(name) is not None
            if self.is_array(st, b):
                return name in ("dtype", "shape", "copy", "get_name")
            if b.op == "c" and name in ("dtype", "shape"):
                return False
        if c.op == "cmp" and c.args[0] in ("is", "is not") and (self.is_inst(st, c.args[1]) or self.is_inst(st, c.args[2]) or self.is_array(st, c.args[1]) or c.args[1].op == "obj"):
            a, b = c.args[1], c.args[2]
            return (a is b) == (c.args[0] == "is")
        if c.op == "isinst":
            x = c.args[0]
            names = [(y.name if hasattr(y, "name") else str(y)).split(".")[-1] for y in c.args[1]]
            if self.is_inst(st, x):
                k = an.cls_of(st, x)
                if k is self.cat:
                    return any(y in ("Categorical", "ndarray", "FastArray", "Iterable", "Sized", "Collection") for y in names)
                return k.name in names
            if x.op == "c" and isinstance(cval(x), bytes):
                return "bytes" in names
            if x.op == "cls" or x in self.e.env and not is_arr(self.e.env[x]):
                return False
            if x.op == "c" and not isinstance(cval(x), bool) and isinstance(cval(x), int):
                return any(y in ("int", "integer", "Number", "Integral") for y in names)
            if x.op == "c" and isinstance(cval(x), float):
                return any(y in ("float", "float64", "float_", "floating", "Number", "Real") for y in names)
        return super().other_cond(an, st, c)

    # -------- reading back
    def codes(self, st, cat):
        return self.e.arr(self.e.ev(st, cat))


class CInterp(FInterp):
    unroll = 40

    def exec_function(self, fn, *a, **k):
        self.ran.add(fn)
        return super().exec_function(fn, *a, **k)

    def instantiate(self, st, n, c, args, kwargs, fr):
        return super().instantiate(st, n, c, args, kwargs, fr)

    def known_elts(self, st, t):
        t = self.hooks.e.base(t)
        return super().known_elts(st, t)


class Case:
    """one abstract run: build Categoricals, then apply operations one after another"""

    def __init__(self, prog, max_steps=120000):
        self.prog = prog
        self.h = CHooks(prog)
        self.an = CInterp(prog, self.h, max_depth=40, max_steps=max_steps)
        self.an.max_recursion = 4
        self.an.ran = set()
        self.fns = []
        self.cat = prog.cls("Categorical")

    def lit(self, st, a):
        h, an = self.h, self.an
        if hasattr(a, "op"):
            return st, a
        if isinstance(a, Arr):
            return h.token(st, list(a.v), "arg")
        if isinstance(a, list):
            ts = []
            for x in a:
                st, t = self.lit(st, x)
                ts.append(t)
            st = st.copy()
            o = an.new_obj(st, "list", None)
            st.heap[("content", o)] = ("list", tuple(ts), True)
            return st, o
        if isinstance(a, tuple):
            ts = []
            for x in a:
                st, t = self.lit(st, x)
                ts.append(t)
            return st, mk("tup", *ts)
        if isinstance(a, dict):
            items = []
            for k, v in a.items():
                st, t = self.lit(st, v)
                items.append((C(k), t))
            st = st.copy()
            o = an.new_obj(st, "dict", None)
            st.heap[("content", o)] = ("dict", tuple(items), None)
            return st, o
        if isinstance(a, slice):
            return st, mk("slice", C(a.start), C(a.stop), C(a.step))
        return st, C(a)

    def outcomes(self, st, fn, args, kwargs):
        an = self.an
        b = an.bind(st, fn, list(args), kwargs, fn.node)
        if b is None:
            raise Unk("arguments")
        st = b.pop("__state__", st)
        if fn not in self.fns:
            self.fns.append(fn)
        return an.exec_function(fn, b, st, None)

    def call(self, st, obj, op, *args, **kwargs):
        """[(state, value)] and [raised] of a method of a Categorical (or a property, or the constructor when obj is None)"""
        ts, kw = [], {}
        for a in args:
            st, t = self.lit(st, a)
            ts.append(t)
        for k, a in kwargs.items():
            st, kw[k] = self.lit(st, a)
        fn = self.cat.find(op)
        if fn is None:
            raise Unk("no such operation " + op)
        if obj is None:
            ts = [mk("cls", self.cat)] + ts
        elif fn.kind == "class":
            ts = [mk("cls", self.cat)] + ts
        elif fn.kind != "static":
            ts = [obj] + ts
        self.an.steps = 0
        try:
            outs = self.outcomes(st, fn, ts, kw)
        except (Budget, RecursionError):
            raise Unk("budget")
        return [(o.state, o.value) for o in outs if o.kind == "return"], [o for o in outs if o.kind == "raise"]

    def one(self, st, obj, op, *args, **kwargs):
        """the only outcome: (state, value); Unk when the analysis cannot tell, Refused when it raises"""
        r, x = self.call(st, obj, op, *args, **kwargs)
        if len(r) == 1 and not x:
            return r[0]
        if not r and len(x) >= 1 and not self.h.unk:
            raise Refused(show(x[0].value)[:140])
        raise Unk(f"{len(r)} results, {len(x)} raises: {list(self.h.unk)[:1]} {[show(o.value)[:80] for o in x][:2]}")

    def value(self, st, t):
        return self.h.e.arr(self.h.e.ev(st, t))


class Arr:
    def __init__(self, v):
        self.v = v


class Refused(Exception):
    pass
