"""Two-dimensional tables (Accum2) on top of the finite Categorical model.

Values are the row numbers they come from, so a cell of a table is the reduction that was asked for and the set of rows it was asked for.
The native grouped kernels, the combination of two keys, reshape and the whole-array reductions are given by their contract; the table
itself, its key columns, its totals and their order are taken from the source.
"""
import ast

from sa.absint import Budget, C, NONE, Outcome, State, cval, is_const, mk, show

from .cat_fin import OBJECTS, Arr, CEv, CInterp, INV, Refused, Unk
from .gb_model import call_name, gather, is_arr
from .grp_fin import GCase, GHooks, USER, pack

REDUCE = ("sum", "nansum", "min", "nanmin", "max", "nanmax", "mean", "nanmean", "var", "nanvar", "std", "nanstd", "median", "nanmedian")
SERIES = mk("p", "USERSERIES")        # a function of the caller that gives one value per row
KERNEL = {"_groupbycalculateall": 1, "GroupByAll32": 1, "GroupByAll64": 1, "_groupbycalculateallpack": 2, "GroupByAllPack32": 2}


def code_names(prog):
    """function number -> name"""
    out = {}
    for s in prog.cls("GB_FUNCTIONS").node.body:
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and isinstance(s.targets[0], ast.Name):
            out[s.value.value] = s.targets[0].id
    return out


def rows_in(v):
    """the rows a reduced value was computed from"""
    if isinstance(v, tuple) and v and v[0] == "red":
        return list(v[3])
    if isinstance(v, tuple) and v and v[0] == "val":
        return [v[1]]
    raise Unk("not a reduction")


class AEv(CEv):
    def reduce(self, name, vs):
        """a whole-array reduction"""
        if all(isinstance(x, int) for x in vs) and name in ("sum", "nansum"):
            return sum(vs)
        if vs and all(isinstance(x, tuple) and x and x[0] == "val" for x in vs):
            return ("red", name, None, tuple(x[1] for x in vs))
        if vs and all(isinstance(x, tuple) and x and x[0] == "red" for x in vs):
            ops = {x[1] for x in vs}
            if len(ops) != 1:
                raise Unk("mixed")
            inner = ops.pop()
            rows = tuple(r for x in vs for r in x[3])
            same = inner.replace("nan", "") == name.replace("nan", "") and name.replace("nan", "") in ("sum", "min", "max")
            return ("red", name if same else f"{name} of {inner}", None, rows)
        if any(isinstance(x, tuple) and x and x[0] == "skip" for x in vs):
            return ("red", f"{name} with a bin that was not computed", None, tuple(r for x in vs if x[0] == "red" for r in x[3]))
        raise Unk("reduce")

    def call(self, st, t):
        f, args, kw = t.args[0], list(t.args[1]), dict(t.args[2])
        nm = call_name(f)
        if nm == "append" and f.op == "ext" and len(args) == 2 and not kw:
            a, b = self.arr(self.ev(st, args[0])), self.arr(self.ev(st, args[1]))
            return (a if is_arr(a) else [a]) + (b if is_arr(b) else [b])
        if nm == "where" and len(args) == 3 and f.op in ("ext", "fn"):
            m, a, b = (self.arr(self.ev(st, x)) for x in args)
            if is_arr(m):
                return [(a[i] if is_arr(a) else a) if k else (b[i] if is_arr(b) else b) for i, k in enumerate(m)]
        if nm == "atleast_1d" and len(args) == 1:
            a = self.arr(self.ev(st, args[0]))
            return a if is_arr(a) else [a]
        return super().call(st, t)


class AHooks(GHooks):
    def __init__(self, prog):
        super().__init__(prog)
        old = self.e
        self.e = AEv(old.env)
        self.e.dts = old.dts
        self.acc = prog.cls("Accum2")
        self.names = code_names(prog)
        for c in ("GroupByKeys", "Accum2"):
            self.objs[prog.cls(c)] = c
        self.dataset = prog.cls("Dataset")
        self.cross = []         # (column, column whose type its results were stored in)

    # -------- an Accum2 is a view of the combined key
    def view(self, st, src, cls):
        if cls is self.acc:
            s, o = self.instance(st, cls)
            r = self.e.base(src)
            self.e.root[o] = r
            self.e.env[o] = self.e.env[r]
            return s, o
        return super().view(st, src, cls)

    def is_cat(self, st, t):
        if super().is_cat(st, t):
            pos = st.types.get(t, (frozenset(), frozenset()))[0]
            return ("exact", self.acc) not in pos
        return False

    def build(self, an, st, n, cls, args, kwargs):
        if cls is self.acc:
            return an.call_fn(st, n, cls.find("__new__"), [mk("cls", cls)] + list(args), kwargs, None)
        return super().build(an, st, n, cls, args, kwargs)

    # -------- matrices
    def mat(self, st, rows, tag="mat"):
        self.n += 1
        t = mk("p", f"{tag}#{self.n}")
        self.e.env[t] = ("mat", tuple(tuple(r) for r in rows))
        s = st.copy()
        s.types[t] = (frozenset([("exact", self.fa)]), frozenset())
        return s, t

    def mat_of(self, t):
        v = self.e.env.get(t)
        return v[1] if isinstance(v, tuple) and v and v[0] == "mat" else None

    def is_ds(self, st, t):
        return t.op == "obj" and ("isds", t) in st.heap

    def content(self, st, t):
        c = st.heap.get(("content", t))
        if c is None or c[0] != "dict" or c[2] is not None:
            raise Unk("columns")
        return c[1]

    def red(self, t):
        v = self.e.env.get(t)
        return v if isinstance(v, tuple) and v and v[0] == "red" else None

    def on_setitem(self, an, st, n, b, i, v):
        r = self.red(v)
        d = st.heap.get(("alloc", b))
        if r is not None and d is not None:
            while d.op == "attr" and d.args[1] in ("dtype", "num"):
                d = d.args[0]
            o = self.red(d)
            if o is not None and o[2] != r[2]:
                self.cross.append((r[2], o[2]))
        return super().on_setitem(an, st, n, b, i, v)

    def on_getattr(self, an, st, n, b, name):
        if b in (USER, SERIES) and name == "__name__":
            return [(st, C("user"))]
        if name == "dtype" and self.red(b) is not None:
            return [(st, b)]
        m = self.mat_of(b)
        if m is not None:
            if name == "shape":
                return [(st, mk("tup", C(len(m)), C(len(m[0]) if m else 0)))]
            if name == "T":
                return [self.mat(st, zip(*m))]
            if name == "ndim":
                return [(st, C(2))]
        if self.is_ds(st, b):
            try:
                cols = self.content(st, b)
                if name == "shape":
                    return [(st, mk("tup", C(len(self.e.arr(self.e.ev(st, cols[0][1])))), C(len(cols))))]
                if name == "_nrows":
                    return [(st, C(len(self.e.arr(self.e.ev(st, cols[0][1])))))]
                if name == "_ncols":
                    return [(st, C(len(cols)))]
            except (Unk, TypeError, IndexError):
                return None
        return super().on_getattr(an, st, n, b, name)

    def on_setattr(self, an, st, n, b, name, v):
        if self.is_ds(st, b):
            s = st.copy()
            s.heap[(b, name)] = v
            return [s]
        return super().on_setattr(an, st, n, b, name, v)

    def on_getitem(self, an, st, n, b, i):
        if self.is_ds(st, b) and is_const(i) and isinstance(cval(i), int):
            try:
                return [(st, self.content(st, b)[cval(i)][1])]
            except (Unk, IndexError):
                return None
        m = self.mat_of(b)
        if m is not None:
            if i.op != "tup":
                i = mk("tup", i, mk("slice", NONE, NONE, NONE))
            if len(i.args) != 2:
                return None
            try:
                ri, ci = (self.e.arr(self.e.ev(st, x)) for x in i.args)
                nr, nc = len(m), len(m[0]) if m else 0

                def pick(k, ix):
                    if isinstance(ix, (slice, int)) and not isinstance(ix, bool):
                        return list(range(k))[ix]
                    return gather(list(range(k)), ix)
                rs, cs = pick(nr, ri), pick(nc, ci)
                if isinstance(rs, int) and isinstance(cs, int):
                    return [(st, self.one_cell(m[rs][cs]))]
                if isinstance(rs, int):
                    return [self.token(st, [m[rs][c] for c in cs], "row")]
                if isinstance(cs, int):
                    return [self.token(st, [m[r][cs] for r in rs], "col")]
                return [self.mat(st, [[m[r][c] for c in cs] for r in rs])]
            except (Unk, TypeError, IndexError):
                return None
        return super().on_getitem(an, st, n, b, i)

    def other_cond(self, an, st, c):
        if c.op == "cmp" and c.args[0] in ("is", "is not") and c.args[2] is NONE and (c.args[1].op in ("ext", "bm", "fn", "cls") or c.args[1] in (USER, SERIES)):
            return c.args[0] == "is not"
        if c.op == "hasattr" and self.red(c.args[0]) is not None:
            return c.args[1] == "dtype"
        if c.op == "cmp" and c.args[0] in ("==", "!=") and c.args[2] is C("O") and show(c.args[1]).endswith(".dtype.char"):
            return c.args[0] == "!="
        if c.op == "isinst" and self.is_inst(st, c.args[0]) and an.cls_of(st, c.args[0]) is self.acc:
            return any((y.name if hasattr(y, "name") else str(y)).split(".")[-1] in ("Accum2", "GroupByOps", "ndarray", "FastArray") for y in c.args[1])
        return super().other_cond(an, st, c)

    def cannot_raise(self, an, st, n, body):
        if len(body) == 1 and body[0].kind == "next" and len(n.body) == 1 and isinstance(n.body[0], ast.Assign):
            new = {k for k, v in body[0].state.heap.items() if st.heap.get(k) is not v}
            if any(k[0] == "arrval" for k in new) and not any(k[0] == "dirty" for k in new):
                return True             # a write whose cells are known
        return super().cannot_raise(an, st, n, body)

    def one_cell(self, v):
        return C(v) if isinstance(v, int) else self.cell(v)

    def reify(self, an, st, n, v):
        if isinstance(v, tuple) and v and v[0] in ("red", "val", "skip"):
            return st, self.cell(v)
        return super().reify(an, st, n, v)

    # -------- calls
    def on_call(self, an, st, n, f, args, kwargs):
        nm = call_name(f)
        if nm == "LedgerFunction" and args:
            f, args = args[0], list(args[1:])
            nm = call_name(f)
        try:
            r = self.table_call(an, st, n, nm, f, args, kwargs)
        except (Unk, TypeError, KeyError, IndexError, ValueError, AttributeError):
            r = None
        if r is not None:
            return r
        if nm in KERNEL and f.op in ("fn", "ext"):
            self.note(mk("call", f, tuple(args), ()))
            return None
        return super().on_call(an, st, n, f, args, kwargs)

    def table_call(self, an, st, n, nm, f, args, kwargs):
        ev = lambda t: self.e.arr(self.e.ev(st, t))
        if nm in KERNEL and f.op in ("fn", "ext"):
            return self.kernel(an, st, n, KERNEL[nm], args)
        if nm == "get" and f.op == "attr" and f.args[0].op == "glob" and args and args[0].op in ("c", "enum"):
            tab = self.table_of(an, st, f.args[0])
            return [(st, tab.get(an._num(args[0]), args[1] if len(args) > 1 else NONE))]
        if nm == "callable" and len(args) == 1 and args[0].op in ("enum", "ext"):
            return [(st, C(args[0].op == "ext"))]
        if nm == "range" and f.op == "ext" and len(args) == 1 and show(args[0]) == "sys.maxsize":
            return [(st, mk("tup", *[C(i) for i in range(25)]))]        # a search that ends at the first free name
        if nm == "popitem" and f.op == "attr" and f.args[0].op == "obj" and not args:
            c = self.content(st, f.args[0])
            s = st.copy()
            s.heap[("content", f.args[0])] = ("dict", c[:-1], None)
            return [(s, mk("tup", *c[-1]))]
        if f.op == "fn" and f.args[0].kind in ("static", None, "") or f.op == "bm" and f.args[1].kind == "static":
            fn = f.args[0] if f.op == "fn" else f.args[1]
            a = fn.node.args
            need = [x.arg for x in a.posonlyargs + a.args][len(args):]
            need = [x for x in need[:max(0, len(need) - len(a.defaults))] if x not in kwargs]
            if need and "**" not in kwargs and not any(x.op == "star" for x in args):
                an._raise_sink[-1].append(Outcome("raise", st, mk("call", mk("ext", "builtins.TypeError"), (C(f"missing {need}"),), ()), n))
                return []
        if nm == "gb_np_quantile" and len(args) == 3:
            v, q, nan = ev(args[0]), ev(args[1]), ev(args[2])
            if is_arr(v):
                return [(st, self.cell(("red", f"{'nan' if nan else ''}quantile {q}", None, tuple(r for x in v for r in rows_in(x)))))]
        if nm == "str" and f.op == "ext" and len(args) == 1 and args[0].op == "tup":
            return [(st, C(str(tuple(ev(x) for x in args[0].args))))]
        if nm == "fill_invalid" and f.op in ("attr", "bm") and "shape" in kwargs and self.is_array(st, f.args[0]):
            k = ev(kwargs["shape"])
            if isinstance(k, int):
                return [self.token(st, [INV] * k, "inv")]
        if f in (USER, SERIES) and args:
            vs = [ev(a) for a in args]
            arrs = [v for v in vs if is_arr(v)]
            rest = tuple(v for v in vs if not is_arr(v)) + tuple((k, ev(v)) for k, v in sorted(kwargs.items()))
            if arrs and is_arr(vs[0]) and all(isinstance(x, tuple) and x and x[0] == "val" for v in arrs for x in v):
                rows = [tuple(x[1] for x in v) for v in arrs]
                col = tuple(v[0][2] if v and len(v[0]) > 2 else None for v in arrs)
                nm = ("user",) + rest if rest else "user"
                col = (col[0] if len(col) == 1 else col) if len(set(rows)) == 1 else ("columns of different rows", tuple(rows))
                if f is USER:
                    return [(st, self.cell(("red", nm, col, rows[0])))]
                return [self.token(st, [("red", (nm, r), col, rows[0]) for r in rows[0]], "series")]
            return None
        if nm == "callable" and len(args) == 1 and args[0] in (USER, SERIES):
            return [(st, C(True))]
        if nm == "slice" and f.op == "ext" and 1 <= len(args) <= 3:
            a = [C(ev(x)) for x in args]
            return [(st, mk("slice", *((NONE, a[0], NONE) if len(a) == 1 else (a + [NONE])[:3])))]
        if nm == "combine2keys" and f.op in ("fn", "ext"):
            a, b, na, nb = ev(args[0]), ev(args[1]), ev(args[2]), ev(args[3])
            fl = ev(kwargs["filter"]) if "filter" in kwargs else ev(args[4]) if len(args) > 4 else None
            ik = [x + y * (na + 1) if fl is None or fl[i] else 0 for i, (x, y) in enumerate(zip(a, b))]
            s, t = self.token(st, ik, "ikey2")
            s = s.copy()
            o = an.new_obj(s, "dict", n)
            s.heap[("content", o)] = ("dict", ((C("iKey"), t), (C("nCountGroup"), NONE)), None)
            return [(s, o)]
        if nm == "reshape" and f.op in ("attr", "bm"):
            v = ev(f.args[0])
            sh = args[0] if len(args) == 1 else mk("tup", *args)
            if not is_arr(v) or sh.op != "tup" or len(sh.args) != 2:
                return None
            a, b = (ev(x) for x in sh.args)
            o = cval(kwargs["order"]) if "order" in kwargs else "C"
            if not isinstance(a, int) or not isinstance(b, int) or a * b != len(v):
                return None
            if o == "F":
                return [self.mat(st, [[v[i + j * a] for j in range(b)] for i in range(a)])]
            return [self.mat(st, [[v[i * b + j] for j in range(b)] for i in range(a)])]
        if nm in REDUCE and (f.op == "ext" and f.args[0].startswith("numpy.") or f.op in ("attr", "bm") or f.op == "fn"):
            a = f.args[0] if f.op in ("attr", "bm") else args[0]
            rest = list(args) if f.op in ("attr", "bm") else list(args[1:])
            m = self.mat_of(a)
            ax = cval(kwargs["axis"]) if "axis" in kwargs else cval(rest[0]) if rest else None
            if set(kwargs) - {"axis"}:
                return None
            if m is not None:
                if ax == 1:
                    return [self.token(st, [self.e.reduce(nm, list(r)) for r in m], "red")]
                if ax == 0:
                    return [self.token(st, [self.e.reduce(nm, list(r)) for r in zip(*m)], "red")]
                v = [x for r in m for x in r]
            else:
                v = ev(a)
            if is_arr(v) and v and all(isinstance(x, tuple) and x and x[0] in ("val", "red", "skip") for x in v):
                return [(st, self.one_cell(self.e.reduce(nm, v)))]
            if is_arr(v) and m is not None:
                return [(st, self.one_cell(self.e.reduce(nm, v)))]
            return None
        if nm == "isscalar" and len(args) == 1 and self.red(args[0]) is not None:
            return [(st, C(True))]
        if nm == "dtype" and len(args) == 1 and self.red(args[0]) is not None:
            return [(st, args[0])]
        if nm == "type" and f.op == "ext" and len(args) == 1 and self.red(args[0]) is not None:
            return [(st, args[0])]
        if nm == "empty" and f.op in ("fn", "ext") and args and args[0].op == "tup" and len(args[0].args) == 1:
            s, t = self.token(st, [INV] * ev(args[0].args[0]), "empty")
            d = kwargs.get("dtype", args[1] if len(args) > 1 else NONE)
            s.heap[("alloc", t)] = d
            return [(s, t)]
        if f.op == "cls" and f.args[0] is self.dataset and args and args[0].op == "obj":
            s = st.copy()
            o = an.new_obj(s, "dict", n)
            s.heap[("content", o)] = ("dict", self.content(st, args[0]), None)
            s.heap[("isds", o)] = C(True)
            return [(s, o)]
        if f.op in ("attr", "bm") and self.is_ds(st, f.args[0]):
            o = f.args[0]
            s = st.copy()
            if nm == "footer_set_values":
                s.heap[("footer", o)] = mk("tup", args[0], args[1])
                return [(s, NONE)]
            if nm == "summary_set_names":
                s.heap[("summary", o)] = args[0]
                return [(s, NONE)]
            if nm == "label_set_names":
                s.heap[("labels", o)] = args[0]
                return [(s, NONE)]
            if nm == "imatrix_totals":
                return self.count_totals(an, s, n, o)
        return None

    def table_of(self, an, st, g):
        """{number: term} of a module-level table that is never changed"""
        m = self.prog.modules[g.args[0]]
        nodes = m.assigns.get(g.args[1], [])
        if len(nodes) != 1 or not isinstance(nodes[0], ast.Dict) or g.args[1] in an._mutated_containers():
            raise Unk("table")

        def lift(x):
            if isinstance(x, ast.Tuple):
                return mk("tup", *[lift(y) for y in x.elts])
            if isinstance(x, ast.Attribute):
                b = an.fold(m, None, x.value)
                if b is not None and b.op == "cls":
                    return an.get_attr(st, None, b, x.attr)[0][1]
            t = an.fold(m, None, x)
            if t is not None:
                return t
            raise Unk("table entry")
        return {an._num(lift(k)): lift(v) for k, v in zip(nodes[0].keys, nodes[0].values)}

    def count_totals(self, an, s, n, o):
        cols = list(self.content(s, o))
        e = an.known_elts(s, s.heap[("labels", o)])
        body = [(k, self.e.arr(self.e.ev(s, v))) for k, v in cols if k not in e]
        tot = [sum(x) for x in zip(*[v for _, v in body])]
        s, t = self.token(s, tot, "tot")
        s = s.copy()
        s.heap[("content", o)] = ("dict", tuple(cols) + ((C("Total"), t),), None)
        d = an.new_obj(s, "dict", n)
        s.heap[("content", d)] = ("dict", tuple((k, C(sum(v))) for k, v in body) + ((C("Total"), C(sum(tot))),), None)
        s.heap[("footer", o)] = mk("tup", C("Total"), d)
        return [(s, o)]

    def kernel(self, an, st, n, kind, args):
        ev = lambda t: self.e.arr(self.e.ev(st, t))
        cols = [self.e.arr(x) for x in ev(args[0])]
        ik = ev(args[1])
        if kind == 1:
            uq, funcs, lows, highs = (ev(a) for a in args[2:6])
            bins = [[i for i, x in enumerate(ik) if x == b] for b in range(uq + 1)]
        else:
            ig, first, cnt = (ev(a) for a in args[2:5])
            uq, funcs, lows, highs = (ev(a) for a in args[5:9])
            bins = [[ig[j] for j in range(first[b], first[b] + cnt[b])] for b in range(uq + 1)]
        s, ts = st, []
        for c, fc, lo, hi in zip(cols, funcs, lows, highs):
            nm = self.names.get(fc, str(fc)).replace("GB_", "").lower()
            out = [("red", nm, None, tuple(rows_in(c[r])[0] for r in bins[b])) if lo <= b < hi else ("skip", b) for b in range(uq + 1)]
            s, t = self.token(s, out, "kern")
            ts.append(t)
        return [(s, mk("tup", *ts))]


class ACase(GCase):
    def __init__(self, prog, max_steps=200000):
        super().__init__(prog, max_steps)
        self.h = AHooks(prog)
        self.an = CInterp(prog, self.h, max_depth=40, max_steps=max_steps)
        self.an.max_recursion = 4
        self.an.ran = set()
        self.acc = prog.cls("Accum2")

    def on(self, cls, st, obj, op, *args, **kwargs):
        """like one, for a method of another class"""
        old, self.cat = self.cat, cls
        try:
            return self.one(st, obj, op, *args, **kwargs)
        finally:
            self.cat = old

    def table(self, st, t):
        """{column: values}, footer"""
        h = self.h
        if not h.is_ds(st, t):
            raise Unk("not a table: " + show(t)[:60])
        cols = {cval(k) if is_const(k) else show(k): self.value(st, v) for k, v in h.content(st, t)}
        f = st.heap.get(("footer", t))
        foot = None
        if f is not None:
            foot = {cval(k): h.e.ev(st, v) for k, v in h.content(st, f.args[1])}
        return cols, foot
