"""P17: row operations keep the cells of a row together."""
from sa.absint import Budget, C, NONE, cval, mk, show

from .ds_model import DSHooks, DSInterp, INV, State, Unk, call_method
from .fin import KINDS, dt_of, vals
from .gb_model import call_name, gather, is_arr, pack

N = 5
KINDS.update({"A": "l", "B": "U", "E": "U", "K": "d"})
RANK = {"A": [5, 3, 4, 3, 1], "B": [10, 11, 12, 13, 14], "K": [2, 1, 2, 1, 1], "D": [3, 1, 2, 0, 9], "E": [4, 4, 0, 1, 2]}
SELF = mk("p", "SELF")
OTHER = mk("p", "OTHER")


class Lit:
    """argument made in the state"""

    def __init__(self, kind, v):
        self.kind, self.v = kind, v


arr = lambda v: Lit("arr", v)
lst = lambda v: Lit("list", v)
dct = lambda d: Lit("dict", list(d.items()))
sl = lambda a=None, b=None, c=None: Lit("slice", (a, b, c))
tup = lambda *v: Lit("tup", v)
ds = lambda: Lit("other", None)


def rank(x):
    return RANK[x[0]][x[1]] if isinstance(x, tuple) and x[0] in RANK else x


class Hooks17(DSHooks):
    def on_call(self, an, st, n, f, args, kwargs):
        nm = call_name(f)
        if nm == "startswith" and f.op == "attr" and f.args[0].op == "c" and isinstance(cval(f.args[0]), str) and len(args) == 1 and args[0].op == "c":
            return [(st, C(cval(f.args[0]).startswith(cval(args[0]))))]
        if nm == "bytes_to_str" and args and args[0].op == "c":
            return [(st, args[0])]
        if nm == "lexsort" and f.op in ("fn", "ext") and args:
            try:
                keys = [self.e.arr(x) for x in self.e.arr(self.e.ev(st, args[0]))]
                asc = self.e.ev(st, kwargs["ascending"]) if "ascending" in kwargs else True
                asc = self.e.arr(asc)
                if not is_arr(asc):
                    asc = [asc] * len(keys)
                if len(asc) != len(keys) or not all(isinstance(x, bool) for x in asc):
                    raise Unk("ascending")
                idx = list(range(len(keys[0])))
                for k, a in zip(keys, asc):  # last key is the primary one
                    idx.sort(key=lambda i: rank(k[i]), reverse=not a)
                    if not a:  # stable for equal keys
                        pos = {}
                        for i in idx:
                            pos.setdefault(rank(k[i]), []).append(i)
            except (Unk, TypeError, KeyError, IndexError):
                return None
            return [self.token(st, idx, "order")]
        if nm == "choice" and len(args) == 2:
            try:
                m, k = self.e.ev(st, args[0]), self.e.ev(st, args[1])
                pool = list(range(m)) if isinstance(m, int) else self.e.arr(m)
                if "replace" not in kwargs or kwargs["replace"] is not C(False):
                    raise Unk("replace")
                pick = (pool[3:] + pool[:3])[:k]  # some k distinct elements, not in order
            except (Unk, TypeError):
                return None
            return [self.token(st, list(reversed(pick)), "choice")]
        if nm == "sort" and f.op in ("bm", "attr") and not args and self.is_array(st, f.args[0]):
            v = self.e.arr(self.e.ev(st, f.args[0]))
            s = st.copy()
            s.heap[("arrval", f.args[0])] = vals(sorted(v))
            return [(s, NONE)]
        if nm in ("gbu", "gb", "groupby") and f.op == "bm" and self.is_ds(st, f.args[0]) and args:
            by = an.known_elts(st, args[0])
            if by is None and args[0].op == "c":
                by = [args[0]]
            cols = dict(self.columns(st, f.args[0]) or ())
            if by is None or not all(x.op == "c" and cval(x) in cols for x in by):
                return None
            keys = list(zip(*[[rank(y) for y in self.e.arr(self.e.ev(st, cols[cval(x)]))] for x in by]))
            uniq = list(dict.fromkeys(keys))
            if nm != "gbu":
                uniq = sorted(uniq)
            self.created += 1
            g = mk("p", f"GB#{self.created}")
            self.gbs = getattr(self, "gbs", {})
            self.gbs[g] = ([cval(x) for x in by], [uniq.index(k) + 1 for k in keys], len(uniq), f.args[0])
            return [(st, g)]
        g = f.args[0] if f.op == "attr" else None
        if g is not None and g in getattr(self, "gbs", {}):
            by, ik, ng, d = self.gbs[g]
            ig, first, cnt = pack(ik, ng + 1)
            if nm == "get_groupings":
                s = st
                ts = []
                for x in (ig, first, cnt):
                    s, t = self.token(s, x, "pack")
                    ts.append(t)
                s = s.copy()
                o = an.new_obj(s, "dict", n)
                s.heap[("content", o)] = ("dict", tuple(zip((C("iGroup"), C("iFirstGroup"), C("nCountGroup")), ts)), None)
                return [(s, o)]
            if nm in ("first", "last"):
                rows = [ig[first[b]] if nm == "first" else ig[first[b] + cnt[b] - 1] for b in range(1, ng + 1)]
                cols = self.columns(st, d)
                s = st
                out = []
                for k, v in [c for c in cols if c[0] in by] + [c for c in cols if c[0] not in by]:
                    s, t = self.token(s, gather(self.e.arr(self.e.ev(s, v)), rows), k)
                    out.append((k, t))
                return [self.dataset(an, s, out, ng)]
            if nm == "count":
                s, t = self.token(st, cnt[1:], "Count")
                return [self.dataset(an, s, [("Count", t)], ng)]
        if nm == "fill_invalid" and f.op in ("bm", "attr") and self.is_array(st, f.args[0]):
            try:
                m = self.e.ev(st, kwargs["shape"]) if "shape" in kwargs else len(self.e.ev(st, f.args[0]))
            except (Unk, TypeError):
                return None
            if isinstance(m, int) and kwargs.get("inplace", C(True)) is C(False):
                return [self.token(st, [INV] * m, "inv")]
            return None
        if nm in ("label_set_names", "label_remove", "label_get_names") and f.op == "bm":
            if nm == "label_get_names":
                return [(st, st.heap.get((f.args[0], "labels"), mk("tup")))]
            s = st.copy()
            s.heap[(f.args[0], "labels")] = args[0] if args else mk("tup")
            return [(s, NONE)]
        if nm == "iscomputable" and f.op in ("bm", "attr") and self.is_array(st, f.args[0]):
            return [(st, C(dt_of(self.e.ev(st, f.args[0])).char not in "US"))]
        if nm == "USERFUNC" or f is mk("p", "USERFUNC"):
            if len(args) == 1 and self.is_array(st, args[0]):
                v = self.e.arr(self.e.ev(st, args[0]))
                return [self.token(st, [rank(x) in (5, 3, 2) for x in v], "mask")]
        return super().on_call(an, st, n, f, args, kwargs)

    def inline(self, an, st, n, fn, args, kwargs):
        if fn.qual.endswith("rt_utils.sample"):
            return True
        return super().inline(an, st, n, fn, args, kwargs)


class Run:
    def __init__(self, prog, op, args, kwargs=None, cols="kab", other=None, attrs=None, cls=None, fields=None, hooks=None):
        self.h = h = (hooks or Hooks17)(prog)
        self.an = an = DSInterp(prog, h, max_depth=16, max_steps=80000)
        st = State()
        cs = []
        self.base = {}
        for k in cols:
            st, t = h.token(st, [(cols[k] if isinstance(cols, dict) else k.upper(), i) for i in range(N)], k)
            self.base[k] = t
            cs.append((k, t))
        c = prog.cls(cls) if cls else h.ds_cls
        st, self.d = h.dataset(an, st, cs, N, "SELF", cls=c, attrs=attrs)
        for k, v in (fields or {}).items():
            st, t = self.arg(st, v)
            st.heap[(self.d, k)] = t
        h.e.env[mk("p", "USERFUNC")] = ("function",)
        if other:
            oc = []
            for k, (tag, m) in other.items():
                st, t = h.token(st, [(tag, i) for i in range(m)], "o" + k)
                self.base["o" + k] = t
                oc.append((k, t))
            st, self.o = h.dataset(an, st, oc, m, "OTHER")
        ts = []
        for a in args:
            st, t = self.arg(st, a)
            ts.append(t)
        kw = {}
        for k, a in (kwargs or {}).items():
            st, t = self.arg(st, a)
            kw[k] = t
        self.fn, self.outs = None, None
        r = call_method(h, an, st, self.d, c, op, ts, kw)
        if r is not None:
            self.fn, self.outs = r

    def arg(self, st, a):
        h, an = self.h, self.an
        if not isinstance(a, Lit):
            return st, (a if hasattr(a, "op") else C(a))
        if a.kind == "arr":
            return h.token(st, list(a.v), "arg")
        if a.kind == "list":
            ts = []
            for x in a.v:
                st, t = self.arg(st, x)
                ts.append(t)
            st = st.copy()
            o = an.new_obj(st, "list", None)
            st.heap[("content", o)] = ("list", tuple(ts), True)
            return st, o
        if a.kind == "slice":
            return st, mk("slice", *[C(x) for x in a.v])
        if a.kind == "tup":
            ts = []
            for x in a.v:
                st, t = self.arg(st, x)
                ts.append(t)
            return st, mk("tup", *ts)
        if a.kind == "dict":
            items = []
            for k, v in a.v:
                st, t = self.arg(st, v)
                items.append((C(k), t))
            st = st.copy()
            o = an.new_obj(st, "dict", None)
            st.heap[("content", o)] = ("dict", tuple(items), None)
            return st, o
        if a.kind == "other":
            return st, OTHER
        if a.kind == "self":
            return st, SELF
        raise AssertionError(a.kind)

    def table(self, st, d):
        cols = self.h.columns(st, d)
        if cols is None:
            raise Unk("result is not a table: " + show(d)[:60])
        return [(k, tuple(self.h.e.arr(self.h.e.ev(st, v)))) for k, v in cols]


def check(rep, rule, label, run, judge, want="return"):
    """judge(run, outcome) -> problem or None, for every outcome that returns"""
    fn = run.fn
    if fn is None:
        rep.undecide(rule, label, "no such operation")
        return 0
    rep.analysed(fn)
    rep.paths += len(run.outs)
    prob, n, raised = None, 0, None
    unk = None
    for o in run.outs:
        if o.kind == "raise":
            raised = o
            continue
        if o.kind != "return":
            continue
        try:
            p = judge(run, o) if want == "return" else None
            n += 1
        except (Unk, TypeError, KeyError, IndexError, ValueError, AttributeError) as e:
            unk = f"{type(e).__name__}: {e}"
            continue
        if p:
            prob = prob or p
    if run.h.unk and not (prob is None and n and unk is None):
        rep.undecide(rule, label, "branch on " + str(list(run.h.unk)[0])[:100])
        return 0
    if want == "return" and n == 0:
        if raised is not None and not run.h.unk and unk is None:
            rep.ob(rule, label, False, f"{fn.qual} refuses: {show(raised.value)[:120]}", fn.loc)
            return 1
        rep.undecide(rule, label, unk or "no returning path")
        return 0
    if want == "raise":
        if run.h.unk or unk:
            rep.undecide(rule, label, str(unk or list(run.h.unk)[0])[:100])
            return 0
        rep.ob(rule, label, n == 0 and raised is not None, f"{fn.qual} returns instead of refusing", fn.loc)
        return 1
    if unk is not None and prob is None:
        rep.undecide(rule, label, unk)
        return 0
    rep.ob(rule, label, prob is None, f"{fn.qual}: {prob}", fn.loc)
    return 1


def say(t):
    return {k: ["missing" if x == INV else (f"{x[0].lower()}{x[1]}" if isinstance(x, tuple) else x) for x in v] for k, v in t}


def expect_rows(rows, cols="kab", obj="result", nrows=True, same=False):
    """the table holds exactly these rows of SELF in this order"""
    def j(run, o):
        d = o.value if obj == "result" else SELF
        got = run.table(o.state, d)
        exp = [(c, tuple((c.upper(), r) for r in rows)) for c in cols]
        if got != exp:
            return f"gives {say(got)} instead of {say(exp)}"
        nr = o.state.heap.get((d, "_nrows"))
        if nr is None or nr.op != "c" or cval(nr) != len(rows):
            return f"row count {show(nr) if nr is not None else '?'} for {len(rows)} rows"
        if same and o.value is not SELF:
            return "the in-place form returns another object"
        if obj == "result" and d is not SELF:
            own = run.table(o.state, SELF)
            if own != [(c, tuple((c.upper(), r) for r in range(N))) for c in "kab"]:
                return f"the Dataset itself changed to {say(own)}"
        return None
    return j


def run(prog, rep):
    rep.rule("ROWS", "every column of the result is the same selection of rows in the same order, columns as requested, and the row count is that of the columns")
    rep.rule("SORT", "sorting orders whole rows by the keys in the order given, each in its own direction")
    rep.rule("DUP", "duplicate detection and removal keep the first, the last or only the single rows of each group of equal keys")
    rep.rule("CONCAT", "concatenating rows stacks the Datasets in order, column by name, with missing markers exactly for the rows of a Dataset without the column")
    rep.rule("WRITE", "assigning to selected rows and columns writes exactly those cells")
    rep.rule("BAD", "mismatched selections and unknown options are refused")
    rep.assume("array indexing, boolean-to-index conversion, stacking, lexicographic sort (last key first) and grouping are the primitives of the array layer; columns are one-dimensional")
    n = 0
    ALL = list(range(N))
    mask = [True, False, False, True, True]
    rowsel = [
        ("int 2", 2, [2]), ("int -1", -1, [4]), ("slice 1:3", sl(1, 3), [1, 2]), ("slice ::2", sl(None, None, 2), [0, 2, 4]), ("slice ::-1", sl(None, None, -1), [4, 3, 2, 1, 0]),
        ("slice -2:", sl(-2), [3, 4]), ("all", sl(), ALL), ("list", lst([3, 1]), [3, 1]), ("index array", arr([3, 0, 3]), [3, 0, 3]), ("mask", arr(mask), [0, 3, 4]),
    ]
    colsel = [
        ("all", sl(), "kab"), ("list", lst(["k", "a"]), "ka"), ("slice 1:", sl(1), "ab"), ("index list", lst([2, 0]), "bk"), ("mask list", lst([True, False, True]), "kb"),
        ("mask", arr([False, True, True]), "ab"), ("names", arr(["b", "a"]), "ba"), ("index array", arr([1]), "a"),
    ]
    for rn, rs, rows in rowsel:
        for cn, cs, cols in colsel:
            n += check(rep, "ROWS", f"ds[{rn}, {cn}]", Run(prog, "__getitem__", [tup(rs, cs)]), expect_rows(rows, cols))

        def one(run, o, rows=rows, single=not isinstance(rs, Lit)):
            v = run.h.e.arr(run.h.e.ev(o.state, o.value))
            exp = ("B", rows[0]) if single else [("B", r) for r in rows]
            return None if v == exp else f"gives {v} instead of {exp}"
        n += check(rep, "ROWS", f"ds[{rn}, name]", Run(prog, "__getitem__", [tup(rs, "b")]), one)
        n += check(rep, "ROWS", f"ds[{rn}, column number]", Run(prog, "__getitem__", [tup(rs, 2)]), one)
        n += check(rep, "ROWS", f"ds[{rn}, column number from the end]", Run(prog, "__getitem__", [tup(rs, -1)]), one)
    for cn, cs, cols in colsel:
        n += check(rep, "ROWS", f"ds[{cn}]", Run(prog, "__getitem__", [cs]), expect_rows(ALL, cols))
    for k in (0, 1, 2, N, N + 4):
        n += check(rep, "ROWS", f"head({k})", Run(prog, "head", [k]), expect_rows(ALL[:k]))
        n += check(rep, "ROWS", f"tail({k})", Run(prog, "tail", [k]), expect_rows(ALL[max(0, N - k):]))
    for fn_, fa, rows in (("mask", arr(mask), [0, 3, 4]), ("index array", arr([3, 0, 3]), [3, 0, 3]), ("list", lst([3, 1]), [3, 1])):
        n += check(rep, "ROWS", f"filter({fn_})", Run(prog, "filter", [fa]), expect_rows(rows))
        n += check(rep, "ROWS", f"filter({fn_}) in place", Run(prog, "filter", [fa], {"inplace": True}), expect_rows(rows, obj="self", same=True))
    n += check(rep, "BAD", "filter(mask of another length)", Run(prog, "filter", [arr([True, False])]), None, "raise")
    for deep in (True, False):
        n += check(rep, "ROWS", f"copy(deep={deep})", Run(prog, "copy", [], {"deep": deep}), expect_rows(ALL))
    # trim / keep by rows
    U = mk("p", "USERFUNC")
    m = {c: [x in (5, 3, 2) for x in RANK[c.upper()]] for c in "kab"}
    alltrue = [all(m[c][i] for c in "ak") for i in ALL]
    anytrue = [any(m[c][i] for c in "ak") for i in ALL]
    n += check(rep, "ROWS", "trim(func)", Run(prog, "trim", [U]), expect_rows([i for i in ALL if not alltrue[i]]))
    n += check(rep, "ROWS", "keep(func)", Run(prog, "keep", [U]), expect_rows([i for i in ALL if anytrue[i]]))
    n += check(rep, "ROWS", "trim(func, rows=False)", Run(prog, "trim", [U], {"rows": False}), expect_rows(ALL))
    # sample
    for label, kw, rows in (("", {}, ALL), ("N", {"N": 2}, [0, 1] and None), ("mask", {"N": 9, "filter": arr(mask)}, [0, 3, 4]), ("mask N", {"N": 2, "filter": arr(mask)}, None),
                            ("index", {"N": 9, "filter": arr([4, 1])}, [1, 4])):
        def sj(run, o, rows=rows, kw=kw):
            got = run.table(o.state, o.value)
            idx = [x[1] for x in got[0][1]]
            pool = [0, 3, 4] if "filter" in kw and kw["filter"].v == mask else ALL
            if rows is not None and idx != rows:
                return f"rows {idx} instead of {rows}"
            if rows is None and len(set(idx)) != min(kw.get("N", 10), len(pool)) or not set(idx) <= set(pool) or idx != sorted(idx):
                return f"rows {idx} out of {pool}"
            exp = [(c, tuple((c.upper(), r) for r in idx)) for c in "kab"]
            return None if got == exp else f"gives {say(got)}: cells of different rows"
        n += check(rep, "ROWS", f"sample({label})", Run(prog, "sample", [], kw), sj)

    # ---- sorting
    def order(by, asc):
        idx = list(ALL)
        for k, a in reversed(list(zip(by, asc))):
            idx.sort(key=lambda i: RANK[k.upper()][i], reverse=not a)
        return idx
    cases = [("k", "k", ["k"], [True], None), ("one key list", lst(["a"]), ["a"], [True], None), ("two keys", lst(["k", "a"]), ["k", "a"], [True, True], None),
             ("descending", "k", ["k"], [False], False), ("two keys descending", lst(["k", "a"]), ["k", "a"], [False, False], False),
             ("mixed", lst(["k", "a"]), ["k", "a"], [True, False], lst([True, False])), ("mixed 2", lst(["k", "b"]), ["k", "b"], [False, True], lst([False, True])),
             ("mixed 3", lst(["a", "k", "b"]), ["a", "k", "b"], [True, False, False], lst([True, False, False])), ("mixed array", lst(["k", "a"]), ["k", "a"], [False, True], arr([False, True]))]
    for label, by, bl, asc, av in cases:
        kw = {} if av is None else {"ascending": av}
        n += check(rep, "SORT", f"sort_copy {label}", Run(prog, "sort_copy", [by], kw), expect_rows(order(bl, asc)))
        n += check(rep, "SORT", f"sort_inplace {label}", Run(prog, "sort_inplace", [by], kw), expect_rows(order(bl, asc), obj="self", same=True))
    n += check(rep, "BAD", "sort_copy by an unknown column", Run(prog, "sort_copy", ["zz"]), None, "raise")
    n += check(rep, "BAD", "sort_inplace by an unknown column", Run(prog, "sort_inplace", [lst(["a", "zz"])]), None, "raise")
    n += check(rep, "BAD", "sort_copy with too few directions", Run(prog, "sort_copy", [lst(["a", "b", "k"])], {"ascending": lst([True, False])}), None, "raise")

    # ---- duplicates
    for label, sub, keys in (("k", "k", "k"), ("list", lst(["k", "a"]), "ka"), ("all", None, "kab")):
        vals = [tuple(RANK[c.upper()][i] for c in keys) for i in ALL]
        groups = {}
        for i, v in enumerate(vals):
            groups.setdefault(v, []).append(i)
        for keep in ("first", "last", False):
            kept = {"first": lambda g: [g[0]], "last": lambda g: [g[-1]], False: lambda g: g if len(g) == 1 else []}[keep]
            rows = [x for g in groups.values() for x in kept(g)]

            def dj(run, o, rows=rows):
                v = run.h.e.arr(run.h.e.ev(o.state, o.value))
                exp = [i not in rows for i in ALL]
                return None if v == exp else f"marks {v} instead of {exp}"
            a = [] if sub is None else [sub]
            n += check(rep, "DUP", f"duplicated({label}, keep={keep})", Run(prog, "duplicated", a, {"keep": keep}), dj)

            def pj(run, o, rows=rows, d=None):
                got = dict(run.table(o.state, o.value if d is None else d))
                if set(got) != set("kab"):
                    return f"columns {sorted(got)}"
                exp = {c: tuple((c.upper(), r) for r in rows) for c in "kab"}
                if got != exp:
                    return f"gives {say(sorted(got.items()))} instead of {say(sorted(exp.items()))}"
                nr = o.state.heap.get((o.value if d is None else d, "_nrows"))
                if nr is None or nr.op != "c" or cval(nr) != len(rows):
                    return "row count differs from the columns"
                if d is not None and o.value is not SELF:
                    return "the in-place form returns another object"
                return None
            n += check(rep, "DUP", f"drop_duplicates({label}, keep={keep})", Run(prog, "drop_duplicates", a, {"keep": keep}), pj)
            n += check(rep, "DUP", f"drop_duplicates({label}, keep={keep}) in place", Run(prog, "drop_duplicates", a, {"keep": keep, "inplace": True}), lambda r, o, pj=pj: pj(r, o, d=SELF))
    n += check(rep, "BAD", "duplicated with an unknown keep", Run(prog, "duplicated", ["k"], {"keep": "bogus"}), None, "raise")
    n += check(rep, "BAD", "drop_duplicates with an unknown keep", Run(prog, "drop_duplicates", ["k"], {"keep": "bogus"}), None, "raise")

    # ---- concatenation
    variants = {
        "same columns": dict(a=("D", 3), b=("E", 3), k=("F", 3)),
        "other order": dict(k=("F", 2), a=("D", 2), b=("E", 2)),
        "missing column": dict(k=("F", 2), a=("D", 2)),
        "extra column": dict(a=("D", 2), b=("E", 2), k=("F", 2), z=("G", 2)),
        "disjoint": dict(y=("F", 2), z=("G", 2)),
    }
    for label, oc in variants.items():
        m = next(iter(oc.values()))[1]
        for order_ in ("self first", "other first", "three"):
            seq = {"self first": "so", "other first": "os", "three": "sos"}[order_]
            names = []
            for x in seq:
                for c in ("kab" if x == "s" else oc):
                    if c not in names:
                        names.append(c)
            exp = []
            for c in names:
                cells = []
                for x in seq:
                    if x == "s":
                        cells += [(c.upper(), i) if c in "kab" else INV for i in range(N)]
                    else:
                        cells += [(oc[c][0], i) if c in oc else INV for i in range(m)]
                exp.append((c, tuple(cells)))

            def cj(run, o, exp=exp):
                got = run.table(o.state, o.value)
                if got != exp:
                    return f"gives {say(got)} instead of {say(exp)}"
                nr = o.state.heap.get((o.value, "_nrows"))
                return None if nr is not None and nr.op == "c" and cval(nr) == len(exp[0][1]) else "row count differs from the columns"
            lits = [Lit("self" if x == "s" else "other", None) for x in seq]
            for op in ("concat_rows", "hstack"):
                n += check(rep, "CONCAT", f"{op} {label}, {order_}", Run(prog, op, [lst(lits)], other=oc), cj)
    oc = dict(y=("F", N), z=("G", N))
    for copy_ in (True, False):
        n += check(rep, "CONCAT", f"concat_columns do_copy={copy_}", Run(prog, "concat_columns", [lst([Lit("self", None), ds()])], {"do_copy": copy_}, other=oc),
                   lambda run, o: None if run.table(o.state, o.value) == [(c, tuple((c.upper(), i) for i in ALL)) for c in "kab"] + [("y", tuple(("F", i) for i in ALL)), ("z", tuple(("G", i) for i in ALL))]
                   else f"gives {say(run.table(o.state, o.value))}")
        for od, src in (("first", "A"), ("last", "D")):
            def ccj(run, o, src=src):
                exp = [(c, tuple((src if c == "a" else c.upper(), i) for i in ALL)) for c in "kab"] + [("z", tuple(("G", i) for i in ALL))]
                got = run.table(o.state, o.value)
                return None if got == exp else f"gives {say(got)} instead of {say(exp)}"
            n += check(rep, "CONCAT", f"concat_columns duplicate {od} do_copy={copy_}", Run(prog, "concat_columns", [lst([Lit("self", None), ds()])],
                       {"do_copy": copy_, "on_duplicate": od, "on_mismatch": "ignore"}, other=dict(a=("D", N), z=("G", N))), ccj)
    n += check(rep, "BAD", "concat_columns duplicate raise", Run(prog, "concat_columns", [lst([Lit("self", None), ds()])], {"do_copy": False}, other=dict(a=("D", N))), None, "raise")
    n += check(rep, "BAD", "concat_columns of another length", Run(prog, "concat_columns", [lst([Lit("self", None), ds()])], {"do_copy": False}, other=dict(z=("D", 3))), None, "raise")
    for bad in ({"on_duplicate": "bogus"}, {"on_mismatch": "bogus"}):
        n += check(rep, "BAD", f"concat_columns {bad}", Run(prog, "concat_columns", [lst([Lit("self", None), ds()])], dict(bad, do_copy=False), other=oc), None, "raise")

    # ---- writes
    def wj(rows, cols, val):
        def j(run, o):
            got = dict(run.table(o.state, SELF))
            for c in "kab":
                exp = [(c.upper(), i) for i in ALL]
                if c in cols:
                    for p, r in enumerate(rows):
                        exp[r] = val(c, p, cols.index(c) if not isinstance(cols, dict) else 0)
                if list(got.get(c, ())) != exp:
                    return f"column {c} becomes {say([(c, got.get(c, ()))])[c]} instead of {say([(c, exp)])[c]}"
            return None if list(got) == list("kab") else f"columns {list(got)}"
        return j
    for rn, rs, rows in rowsel:
        if rn in ("all", "index array"):
            continue
        for cn, cs, cols in colsel:
            n += check(rep, "WRITE", f"ds[{rn}, {cn}] = number", Run(prog, "__setitem__", [tup(rs, cs), 77]), wj(rows, list(cols), lambda c, p, i: 77))
        n += check(rep, "WRITE", f"ds[{rn}, name] = number", Run(prog, "__setitem__", [tup(rs, "b"), 77]), wj(rows, ["b"], lambda c, p, i: 77))
        v = arr([("V", i) for i in range(len(rows))])
        n += check(rep, "WRITE", f"ds[{rn}, name] = array", Run(prog, "__setitem__", [tup(rs, "b"), v]), wj(rows, ["b"], lambda c, p, i: ("V", p)))
        oc = dict(x=("D", len(rows)), y=("E", len(rows)))
        n += check(rep, "WRITE", f"ds[{rn}, two columns] = Dataset", Run(prog, "__setitem__", [tup(rs, lst(["k", "a"])), ds()], other=oc),
                   wj(rows, ["k", "a"], lambda c, p, i: ("DE"[i], p)))
        oc = dict(a=("D", len(rows)), k=("E", len(rows)))
        n += check(rep, "WRITE", f"ds[{rn}, two columns] = Dataset with the names exchanged", Run(prog, "__setitem__", [tup(rs, lst(["k", "a"])), ds()], other=oc),
                   wj(rows, ["k", "a"], lambda c, p, i: ("DE"[i], p)))
    oc = dict(x=("D", N), y=("E", N), z=("F", N))
    n += check(rep, "WRITE", "putmask(Dataset)", Run(prog, "putmask", [arr(mask), ds()], other=oc), wj([0, 3, 4], ["k", "a", "b"], lambda c, p, i: ("DEF"[i], [0, 3, 4][p])))
    n += check(rep, "WRITE", "putmask(array)", Run(prog, "putmask", [arr(mask), arr([("V", i) for i in ALL])]), wj([0, 3, 4], ["k", "a", "b"], lambda c, p, i: ("V", [0, 3, 4][p])))
    n += check(rep, "BAD", "putmask of another shape", Run(prog, "putmask", [arr(mask), ds()], other=dict(x=("D", N))), None, "raise")
    rep.count("cases", n)
    rep.floor("decided row-operation cases", n, 150)
