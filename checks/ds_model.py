"""Finite abstraction of Datasets: a handful of named columns of opaque cell tokens."""
from sa.absint import Budget, C, Interp, NONE, Outcome, State, cval, is_const, mk, show

from .fin import Dt, FHooks, FInterp, INV, Unk
from .gb_model import call_name, is_arr

TABLES = ("Dataset", "Struct", "PDataset")


class DSHooks(FHooks):
    def __init__(self, prog):
        super().__init__(prog)
        self.ds_cls = prog.cls("Dataset")
        self.ic_cls = prog.cls("ItemContainer")
        self.created = 0

    # -------- building
    def dataset(self, an, st, cols, nrows, name=None, cls=None, attrs=None):
        """new Dataset; cols: [(name, term)]"""
        if name is None:
            self.created += 1
            name = f"DS#{self.created}"
        d = mk("p", name)
        ic = mk("p", name + ".items")
        s = st.copy()
        ex = lambda c: (frozenset([("exact", c)]), frozenset())
        s.types[d] = ex(cls or self.ds_cls)
        s.types[ic] = ex(self.ic_cls)
        items = []
        for k, v in cols:
            l = an.new_obj(s, "list", None)
            s.heap[("content", l)] = ("list", (v, (attrs or {}).get(k, NONE)), True)
            items.append((C(k), l))
        o = an.new_obj(s, "dict", None)
        s.heap[("content", o)] = ("dict", tuple(items), None)
        s.heap[(ic, "_items")] = o
        s.heap[(d, "_all_items")] = ic
        self.fields(s, d, nrows, len(cols))
        return s, d

    def fields(self, s, d, nrows, ncols):
        for nm, v in (("_nrows", C(nrows)), ("_ncols", C(ncols)), ("_col_sortlist", NONE), ("_sort_ascending", C(True)), ("_sort_display", C(False)), ("_natural_sort", NONE),
                      ("_locked", C(False)), ("_uniqueid", C(7)), ("_index", NONE), ("_sort_cols", C(False))):
            s.heap[(d, nm)] = v

    def columns(self, st, d):
        """[(name, value term)] of a dataset object, None when unknown"""
        ic = st.heap.get((d, "_all_items"))
        o = st.heap.get((ic, "_items")) if ic is not None else None
        return self.items(st, o)

    def items(self, st, o):
        c = st.heap.get(("content", o)) if o is not None else None
        if c is None or c[0] != "dict" or c[2] is not None:
            return None
        out = []
        for k, l in c[1]:
            lc = st.heap.get(("content", l))
            if lc is None or lc[0] != "list" or not lc[2] or not lc[1]:
                return None
            out.append((cval(k), lc[1][0]))
        return out

    def attributes(self, st, d):
        """{name: attribute term}"""
        ic = st.heap.get((d, "_all_items"))
        c = st.heap.get(("content", st.heap.get((ic, "_items"))))
        return {cval(k): st.heap[("content", l)][1][1] for k, l in c[1]}

    def is_ds(self, st, t):
        return (t, "_all_items") in st.heap

    def is_ic(self, st, t):
        return (t, "_items") in st.heap

    # -------- behaviour of containers
    def on_getattr(self, an, st, n, b, name):
        if self.is_ds(st, b):
            if name in ("_footers", "_sort_info") and (b, name) not in st.heap:
                return None
            if (b, name) in st.heap:
                return None
            if name == "UseFastArray":
                return [(st, C(True))]
            if name == "AllNames":
                return [(st, C(False))]
            c = an.cls_of(st, b)
            if name == "shape" and c is not None:
                return None
            if c is not None and c.lookup(name) is not None:
                return None
            cols = self.columns(st, b)
            for k, v in cols or ():
                if k == name:
                    return [(st, v)]
            if cols is not None and not name.startswith("_"):
                an._raise_sink[-1].append(Outcome("raise", st, mk("call", mk("ext", "builtins.AttributeError"), (C(name),), ()), n))
                return []
        return None

    def on_setattr(self, an, st, n, b, name, v):
        if self.is_ds(st, b) and not name.startswith("_") and an.stack and an.stack[-1].name not in ("__setattr__", "_superadditem", "col_set_value"):
            f = an.cls_of(st, b).find("__setattr__")
            return [s for s, _ in an.call_fn(st, n, f, [b, C(name), v], {}, None)]
        return None

    def on_compare(self, an, st, n, op, a, b):
        if op in ("in", "not in"):
            ic = st.heap.get((b, "_all_items")) if self.is_ds(st, b) else b
            if ic is not None and self.is_ic(st, ic):
                its = self.items(st, st.heap[(ic, "_items")])
                if its is not None and is_const(a):
                    r = cval(a) in [k for k, _ in its]
                    return [(st, C(r if op == "in" else not r))]
        return super().on_compare(an, st, n, op, a, b)

    def make(self, an, st, n, cls, args, kwargs):
        """Dataset(x)"""
        if not args:
            return None
        a = args[0]
        if self.is_ds(st, a):
            cols = self.columns(st, a)
        elif self.is_ic(st, a):
            cols = self.items(st, st.heap[(a, "_items")])
            if cols is not None:
                return self.adopt(an, st, a, cols, cls)
        elif a.op == "obj":
            c = st.heap.get(("content", a))
            if c is None or c[0] != "dict" or c[2] is not None or not all(is_const(k) for k, _ in c[1]):
                return None
            cols = [(cval(k), v) for k, v in c[1]]
        elif a.op == "tup" and all(x.op == "tup" and len(x.args) == 2 and is_const(x.args[0]) for x in a.args):
            cols = [(cval(x.args[0]), x.args[1]) for x in a.args]
        else:
            return None
        if cols is None:
            return None
        return self.finish(an, st, n, cols, cls)

    def finish(self, an, st, n, cols, cls):
        ns = set()
        for k, v in cols:
            try:
                x = self.e.arr(self.e.ev(st, v))
                ns.add(len(x) if is_arr(x) else 1)
            except (Unk, TypeError, KeyError, IndexError):
                return None
        if len(ns) > 1:
            an._raise_sink[-1].append(Outcome("raise", st, mk("call", mk("ext", "builtins.ValueError"), (C("column length mismatch"),), ()), n))
            return []
        s, d = self.dataset(an, st, cols, ns.pop() if ns else None, cls=cls)
        return [(s, d)]

    def adopt(self, an, st, ic, cols, cls):
        ns = set()
        for k, v in cols:
            try:
                x = self.e.arr(self.e.ev(st, v))
                ns.add(len(x) if is_arr(x) else 1)
            except (Unk, TypeError, KeyError, IndexError):
                return None
        if len(ns) > 1:
            return None
        self.created += 1
        d = mk("p", f"DS#{self.created}")
        s = st.copy()
        s.types[d] = (frozenset([("exact", cls)]), frozenset())
        s.heap[(d, "_all_items")] = ic
        self.fields(s, d, ns.pop() if ns else None, len(cols))
        return [(s, d)]

    def on_call(self, an, st, n, f, args, kwargs):
        nm = call_name(f)
        if f.op == "cls" and f.args[0].name in TABLES:
            r = self.make(an, st, n, f.args[0], args, kwargs)
            if r is not None:
                return r
        if f.op == "cls" and f.args[0].name == "ItemContainer" and not args:
            self.created += 1
            ic = mk("p", f"IC#{self.created}")
            s = st.copy()
            s.types[ic] = (frozenset([("exact", self.ic_cls)]), frozenset())
            o = an.new_obj(s, "dict", n)
            s.heap[("content", o)] = ("dict", (), None)
            s.heap[(ic, "_items")] = o
            return [(s, ic)]
        if nm == "__setattr__" and f.op != "bm" and f.op != "fn" and len(args) in (2, 3) and args[-2].op == "c":
            o = args[0] if len(args) == 3 else None
            if o is None:
                own = [(i, v) for (i, k), v in st.vars.items() if k == "self"]
                o = max(own, key=lambda x: x[0])[1] if own else None
            if o is not None and self.is_ds(st, o):
                s = st.copy()
                s.heap[(o, cval(args[-2]))] = args[-1]
                return [(s, NONE)]
        if nm == "getattr" and f.op == "ext" and len(args) == 3 and self.is_ds(st, args[0]) and args[1].op == "c" and not str(cval(args[1])).startswith("_"):
            cols = dict(self.columns(st, args[0]) or ())
            c = an.cls_of(st, args[0])
            if cval(args[1]) in cols or c is not None and c.lookup(cval(args[1])) is not None:
                return an.get_attr(st, n, args[0], cval(args[1]))
            return [(st, args[2] if args[2].op == "c" else mk("p", "default"))]
        if nm == "isscalar" and len(args) == 1 and (self.is_ds(st, args[0]) or self.is_ic(st, args[0])):
            return [(st, C(False))]
        if nm == "get_name" and f.op in ("bm", "attr"):
            return [(st, NONE)]
        if nm in ("items_as_dict",) and f.op == "bm" and self.is_ic(st, f.args[0]):
            return None
        if nm == "iter_values" and f.op == "bm" and self.is_ic(st, f.args[0]):
            c = st.heap.get(("content", st.heap[(f.args[0], "_items")]))
            if c is not None and c[0] == "dict" and c[2] is None:
                return [(st, mk("tup", *[v for _, v in c[1]]))]
        if nm in ("__iter__", "iter") and (f.op == "bm" and self.is_ic(st, f.args[0]) or args and args[0].op == "obj"):
            return [(st, f.args[0] if f.op == "bm" else args[0])]
        return super().on_call(an, st, n, f, args, kwargs)

    def other_cond(self, an, st, c):
        if c.op == "attr" and c.args[1] in ("AllNames",):
            return False
        if c.op == "cmp" and c.args[0] in ("in", "not in") and any(x in show(c.args[2]) for x in ("_restricted_names", "kwlist")):
            return c.args[0] == "not in"
        if c.op == "cmp" and c.args[0] in ("is", "is not") and mk("p", "default") in c.args[1:]:
            o = c.args[2] if c.args[1] is mk("p", "default") else c.args[1]
            if o.op == "glob" or o is mk("p", "default"):
                return c.args[0] == "is"
            return c.args[0] != "is"
        if c.op == "cmp" and c.args[0] in ("is", "is not") and "placeholder" in show(c)[-80:] and any(x.op in ("c", "obj", "bm") or self.is_array(st, x) for x in c.args[1:]):
            return c.args[0] != "is"
        if c.op == "hasattr" and (self.is_ds(st, c.args[0]) or self.is_ic(st, c.args[0])):
            cols = self.columns(st, c.args[0])
            return cols is not None and c.args[1] in [k for k, _ in cols]
        return super().other_cond(an, st, c)


class DSInterp(FInterp):
    def known_elts(self, st, t):
        h = self.hooks
        if h.is_ds(st, t):
            cols = h.columns(st, t)
            return None if cols is None else [C(k) for k, _ in cols]
        if h.is_ic(st, t):
            its = h.items(st, st.heap[(t, "_items")])
            return None if its is None else [C(k) for k, _ in its]
        return super().known_elts(st, t)


def call_method(h, an, st, obj, cls, op, args, kwargs):
    fn = cls.find(op)
    if fn is None:
        return None
    if fn.kind == "class":
        args = [mk("cls", cls)] + list(args)
    elif fn.kind != "static":
        args = [obj] + list(args)
    b = an.bind(st, fn, list(args), kwargs, fn.node)
    if b is None:
        return None
    st = b.pop("__state__", st)
    try:
        return fn, an.exec_function(fn, b, st, None)
    except (Budget, RecursionError):
        h.unk["budget"] = 1
        return fn, []
