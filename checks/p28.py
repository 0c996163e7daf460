"""P28: every way of reading, selecting, comparing, copying or combining a Categorical gives each row the category it holds."""
from sa.absint import State

from .cat_fin import Arr, Case, INV, Refused, Unk

K = ["k", "c", "m"]


class L:
    """a Categorical: how it is made, what each row holds (None: no category), its categories"""

    def __init__(self, name, args, kwargs, rows, cats, mode="single", base=1):
        self.name, self.args, self.kwargs, self.rows, self.cats, self.mode, self.base = name, args, kwargs, rows, cats, mode, base


def layouts():
    v = ["k", "c", "k", "m"]
    out = [
        L("codes and unsorted categories", (Arr([1, 2, 0, 3, 2]), Arr(K)), {"base_index": 1}, ["k", "c", None, "m", "c"], K),
        L("codes and sorted categories", (Arr([1, 2, 0, 3, 2]), Arr(sorted(K))), {"base_index": 1}, ["c", "k", None, "m", "k"], sorted(K)),
        L("codes and categories, base 0", (Arr([0, 1, 2, 1]), Arr(K)), {"base_index": 0}, ["k", "c", "m", "c"], K, base=0),
        L("values", (Arr(v),), {}, v, sorted(K)),
        L("values, base 0", (Arr(v),), {"base_index": 0}, v, sorted(K), base=0),
        L("values in order of appearance", (Arr(v),), {"ordered": False}, v, K),
        L("values and a filter", (Arr(v),), {"filter": Arr([True, True, True, False])}, ["k", "c", "k", None], ["c", "k"]),
        L("values and given categories", (Arr(v), Arr(["m", "z", "k", "c"])), {}, v, ["m", "z", "k", "c"]),
        L("numbers", (Arr([5, 3, 5, 9]),), {}, [5, 3, 5, 9], [3, 5, 9]),
        L("codes and numeric categories", (Arr([1, 3, 2, 0]), Arr([5, 3, 9])), {"from_matlab": False, "base_index": 1}, [5, 9, 3, None], [5, 3, 9]),
        L("mapping", (Arr([3, 7, 0, 3]), {"za": 0, "yb": 3, "xc": 7}), {}, ["yb", "xc", "za", "yb"], ["za", "yb", "xc"], "map", None),
        L("two keys", ([Arr(["k", "c", "k", "m"]), Arr([1, 2, 1, 3])],), {}, [("k", 1), ("c", 2), ("k", 1), ("m", 3)], [("k", 1), ("c", 2), ("m", 3)], "multi"),
        L("two keys, other second key", ([Arr(["k", "c", "k", "m"]), Arr([1, 2, 1, 4])],), {}, [("k", 1), ("c", 2), ("k", 1), ("m", 4)], [("k", 1), ("c", 2), ("m", 4)], "multi"),
    ]
    return out


def make(prog, lay, c=None, st=None):
    c = c or Case(prog)
    st, t = c.one(st or State(), None, "__new__", *lay.args, **lay.kwargs)
    return c, st, t


def norm(v, cats):
    return [x if x in cats else None for x in v]


def rows_of(c, st, t, mode, cats):
    """what the expanded array says each row holds"""
    if mode == "map":
        st, v = c.one(st, t, "as_string_array")
        return norm(c.value(st, v), cats)
    st, v = c.one(st, t, "expand_array")
    r = c.value(st, v)
    if mode == "multi":
        r = list(zip(*[c.h.e.arr(x) for x in r]))
    return norm(r, cats)


def read_all(c, st, t, mode, cats, n):
    """(what, value) of every reader; a reader the analysis cannot follow gives an exception"""
    def item(i):
        s, v = c.one(st, t, "__getitem__", i)
        r = c.value(s, v)
        if mode == "multi":
            r = tuple(c.h.e.arr(r)) if not isinstance(r, str) else r
        return r if r in cats else None

    yield "the expanded array", lambda: rows_of(c, st, t, mode, cats)
    yield "single elements", lambda: [item(i) for i in range(n)]

    def as_str():
        s, v = c.one(st, t, "as_string_array")
        names = {"_".join(str(y) for y in x) if mode == "multi" else str(x): x for x in cats}
        return [names.get(x) for x in c.value(s, v)]
    yield "the string array", as_str

    if mode != "map":
        def xdict():
            s, v = c.one(st, t, "expand_dict")
            cols = [c.h.e.arr(x) for x in c.value(s, v).values()]
            return norm(list(zip(*cols)) if mode == "multi" else cols[0], cats)
        yield "the expanded columns", xdict

        def groups():
            s, ik = c.one(st, t, "ikey")
            ik = c.value(s, ik)
            s, d = c.one(s, t, "category_dict")
            cols = [c.h.e.arr(x) for x in c.value(s, d).values()]
            u = list(zip(*cols)) if mode == "multi" else cols[0]
            return [u[i - 1] if i > 0 else None for i in ik]
        yield "group numbers and group keys", groups

    if mode == "single":
        def by_code():
            s, a = c.one(st, t, "category_array")
            s, b = c.one(s, t, "base_index")
            a, b = c.value(s, a), c.value(s, b)
            return [a[x - b] if x != INV and x - b >= 0 else None for x in c.value(s, t)]
        yield "codes into the category array", by_code

    if mode in ("single", "map"):
        def eq(op, one):
            out = [None] * n
            for x in cats:
                s, v = c.one(st, t, op, [x] if op == "isin" else x)
                v = c.value(s, v)
                if len(v) != n:
                    raise Unk("length")
                for i in range(n):
                    if bool(v[i]) == one:
                        out[i] = x if out[i] is None else "several"
            return out
        yield "==", lambda: eq("__eq__", True)
        if mode == "single":
            yield "isin", lambda: eq("isin", True)

            def several(op, arg):
                some = cats[::2] if len(cats) > 2 else cats
                other = ["absent" if isinstance(cats[0], str) else 77]
                s, v = c.one(st, t, op, arg(some + other))
                v = c.value(s, v)
                if len(v) != n:
                    raise Unk("length")
                return [some if x else None for x in v], some
            yield "isin of several", lambda: several("isin", list)
            yield "isin of an array", lambda: several("isin", Arr)
            if isinstance(cats[0], str) and n != len(cats[::2]) + 1:
                yield "== a list", lambda: several("__eq__", list)

        def ne():
            out = [None] * n
            for x in cats:
                s, v = c.one(st, t, "__ne__", x)
                for i, z in enumerate(c.value(s, v)):
                    if not z:
                        out[i] = x if out[i] is None else "several"
            return out
        yield "!=", ne

        def absent():
            s, v = c.one(st, t, "__eq__", "absent" if isinstance(cats[0], str) else 77)
            return [None if not z else "absent" for z in c.value(s, v)]
        if mode == "single":
            yield "== a value that is no category", absent

    def filt():
        s, v = c.one(st, t, "isfiltered")
        return [None if z else "held" for z in c.value(s, v)]
    if mode != "map":
        yield "isfiltered", filt


def expected(what, rows):
    if what == "== a value that is no category":
        return [None] * len(rows)
    if what == "isfiltered":
        return [None if x is None else "held" for x in rows]
    return rows


class Run:
    def __init__(self, prog, rep):
        self.prog, self.rep, self.n = prog, rep, 0

    def readers(self, rule, con, c, st, t, mode, cats, rows, loc, only=None, skip=(), one=False):
        cats = list(cats)
        for what, f in read_all(c, st, t, mode, cats, len(rows)):
            if what in skip or only and what not in only:
                continue
            k = con if one else f"{con}: {what}"
            try:
                got = f()
            except (Unk, Refused, TypeError, KeyError, IndexError, ValueError, AttributeError) as e:
                self.rep.undecide(rule, k, f"{type(e).__name__} {str(e)[:160]}")
                continue
            exp = expected(what, rows)
            if isinstance(got, tuple):
                got, some = got
                exp = [some if x in some else None for x in rows]
            if c.h.unk and got != exp:
                self.rep.undecide(rule, k, "open condition " + list(c.h.unk)[0][:120])
                continue
            self.n += 1
            self.rep.ob(rule, k, got == exp, f"rows hold {exp}, {what} gives {got}", loc)
        for f in c.an.ran:
            self.rep.analysed(f)

    def guard(self, rule, con, f):
        try:
            f()
        except (Unk, Refused, TypeError, KeyError, IndexError, ValueError, AttributeError) as e:
            self.rep.undecide(rule, con, f"{type(e).__name__} {str(e)[:160]}")

    def loc(self, op):
        f = self.prog.cls("Categorical").find(op)
        return f.loc if f is not None else ""


def pick(rows, ix):
    if isinstance(ix, slice):
        return rows[ix]
    if ix and isinstance(ix[0], bool):
        return [r for r, m in zip(rows, ix) if m]
    return [rows[i] for i in ix]


def run(prog, rep):
    rep.rule("READ", "every reader of a new Categorical reports for each row the category it was built with")
    rep.rule("COPY", "a copy reads like its original, and the original still reads as before")
    rep.rule("SELECT", "a slice, mask, index list or index array selects the categories of the selected rows")
    rep.rule("FILTER", "filtering rows or categories takes the category away from exactly those rows")
    rep.rule("COMPARE", "two Categoricals compare row by row by category, whatever their codes and base indices are")
    rep.rule("COMBINE", "stacking and aligning keep each row's category")
    rep.rule("CONVERT", "mapping categories to new values and expanding through given values follow each row's category")
    rep.assume("hashing, sorting, membership, stacking and reindexing primitives return what their documentation says")
    R = Run(prog, rep)
    lays = layouts()
    for lay in lays:
        n = len(lay.rows)

        def fresh():
            c, st, t = make(prog, lay)
            R.readers("READ", lay.name, c, st, t, lay.mode, lay.cats, lay.rows, R.loc("__new__"))
        R.guard("READ", lay.name, fresh)

        def copies(label, op, args, kwargs):
            c, st, t = make(prog, lay)
            st, u = c.one(st, t, op, *args, **kwargs) if op != "__new__" else c.one(st, None, op, t)
            R.readers("COPY", f"{lay.name}, {label}", c, st, u, lay.mode, lay.cats, lay.rows, R.loc(op))
            R.readers("COPY", f"{lay.name} after {label}", c, st, t, lay.mode, lay.cats, lay.rows, R.loc(op))
        for label, op, args, kwargs in (("copy", "copy", (), {}), ("shallow copy", "copy", (), {"deep": False}), ("new from it", "__new__", (), {})):
            R.guard("COPY", f"{lay.name}, {label}", lambda: copies(label, op, args, kwargs))
        if lay.mode != "single" or lay.base == 1:
            def sk():
                c, st, t = make(prog, lay)
                st, u = c.one(st, t, "as_singlekey")
                m, cats, rows = lay.mode, lay.cats, lay.rows
                if m == "multi":
                    j = lambda x: None if x is None else "_".join(str(y) for y in x)
                    cats, rows = [j(x) for x in cats], [j(x) for x in rows]
                R.readers("CONVERT", f"{lay.name}, as single key", c, st, u, "single", cats, rows, R.loc("as_singlekey"))
            R.guard("CONVERT", f"{lay.name}, as single key", sk)
        mask = [i % 2 == 0 for i in range(n)]
        sel = [("slice", slice(1, 3, None), slice(1, 3, None)), ("tail slice", slice(-2, None, None), slice(-2, None, None)), ("reversed", slice(None, None, -1), slice(None, None, -1)),
               ("index list", [3, 0, 3], [3, 0, 3]), ("index array", [2, 1], Arr([2, 1])), ("mask", mask, Arr(mask))]
        for label, ix, arg in sel:
            def select():
                c, st, t = make(prog, lay)
                st, u = c.one(st, t, "__getitem__", arg)
                R.readers("SELECT", f"{lay.name}, {label}", c, st, u, lay.mode, lay.cats, pick(lay.rows, ix), R.loc("__getitem__"))
                R.readers("SELECT", f"{lay.name} after {label}", c, st, t, lay.mode, lay.cats, lay.rows, R.loc("__getitem__"))
            R.guard("SELECT", f"{lay.name}, {label}", select)
        if lay.mode != "map":
            for label, f in (("set_valid", None), ("set_valid with a filter", mask), ("set_valid with another filter", [i != 1 for i in range(n)]), ("set_valid with a filter of one row", [i == 1 for i in range(n)])):
                def valid():
                    c, st, t = make(prog, lay)
                    st, u = c.one(st, t, "set_valid", *([] if f is None else [Arr(f)]))
                    rows = [x if f is None or f[i] else None for i, x in enumerate(lay.rows)]
                    R.readers("FILTER", f"{lay.name}, {label}", c, st, u, lay.mode, lay.cats, rows, R.loc("set_valid"))
                    R.readers("FILTER", f"{lay.name} after {label}", c, st, t, lay.mode, lay.cats, lay.rows, R.loc("set_valid"))
                R.guard("FILTER", f"{lay.name}, {label}", valid)
        if lay.mode == "single" and lay.base == 1:
            text = isinstance(lay.cats[0], str)
            new, z = ("absent", "rest") if text else (77, 99)
            for label, keep in (("", [lay.cats[-1], lay.cats[0]]), (" to a new category too", [lay.cats[0], new]), (" to a new category first", [new, lay.cats[-1], lay.cats[0]]),
                                (" to new categories only", [new]), (" to all of them", list(lay.cats))):
                def shrink(misc):
                    c, st, t = make(prog, lay)
                    st, u = c.one(st, t, "shrink", Arr(keep), **({"misc": z} if misc else {}))
                    con = f"{lay.name}, shrink{' with a rest' if misc else ''}{label}"
                    rest = z if misc else None
                    R.readers("FILTER", con, c, st, u, "single", keep + ([z] if misc else []), [x if x in keep else None if x is None else rest for x in lay.rows], R.loc("shrink"),
                              skip=("== a value that is no category",) if new in keep else ())
                    R.readers("FILTER", f"{con}, afterwards", c, st, t, "single", lay.cats, lay.rows, R.loc("shrink"), only=("the expanded array", "codes into the category array"))
                R.guard("FILTER", f"{lay.name}, shrink{label}", lambda: shrink(False))
                R.guard("FILTER", f"{lay.name}, shrink with a rest{label}", lambda: shrink(True))
        if lay.mode == "single":
            # rows without a category get the fill value
            up = {x: f"{x}!" for x in lay.cats}
            some = dict(list(up.items())[1:])

            def mapped(label, arg, table, ordered=None):
                c, st, t = make(prog, lay)
                st, v = c.one(st, t, "map", arg)
                got = [x if x in table.values() else None for x in c.value(st, v)]
                exp = [table.get(x) for x in lay.rows]
                rep.ob("CONVERT", f"{lay.name}, map by {label}", got == exp, f"rows {lay.rows} map to {got}, expected {exp}", R.loc("map"))
                R.n += 1
            R.guard("CONVERT", f"{lay.name}, map by a dictionary", lambda: mapped("a dictionary", up, up))
            R.guard("CONVERT", f"{lay.name}, map by a dictionary of some", lambda: mapped("a dictionary of some", some, some))
            R.guard("CONVERT", f"{lay.name}, map by an array", lambda: mapped("an array", Arr([up[x] for x in lay.cats]), up))

            def expand_any():
                c, st, t = make(prog, lay)
                st, v = c.one(st, t, "expand_any", Arr([up[x] for x in lay.cats]))
                got = [x if x in up.values() else None for x in c.value(st, v)]
                exp = [up.get(x) for x in lay.rows]
                rep.ob("CONVERT", f"{lay.name}, expanded through other values", got == exp, f"rows {lay.rows} give {got}", R.loc("expand_any"))
                R.n += 1
            R.guard("CONVERT", f"{lay.name}, expanded through other values", expand_any)
    single = [l for l in lays if l.mode == "single"]
    for a in single:
        for b in single:
            if len(a.rows) != len(b.rows) or isinstance(a.cats[0], str) != isinstance(b.cats[0], str):
                continue
            con = f"{a.name} against {b.name}"

            def compare():
                for op, one in (("__eq__", True), ("__ne__", False)):
                    c, st, t = make(prog, a)
                    c, st, u = make(prog, b, c, st)
                    st, v = c.one(st, t, op, u)
                    got = [bool(x) for x in c.value(st, v)]
                    exp = [(x == y) == one for x, y in zip(a.rows, b.rows)]
                    ok = [i for i in range(len(exp)) if a.rows[i] is not None or b.rows[i] is not None]
                    good = len(got) == len(exp) and all(got[i] == exp[i] for i in ok)
                    rep.ob("COMPARE", f"{con}: {'==' if one else '!='}", good, f"{a.rows} and {b.rows} compare as {got}", R.loc(op))
                    R.n += 1
                    R.readers("COMPARE", f"{con}: afterwards", c, st, t, "single", a.cats, a.rows, R.loc(op))
            R.guard("COMPARE", con, compare)
    for a in lays:
        for b in lays:
            if a.mode != b.mode or a.base != b.base or a.mode == "map" and a is not b or isinstance(a.cats[0], str) != isinstance(b.cats[0], str):
                continue
            con = f"{a.name} with {b.name}"
            cats = list(dict.fromkeys(list(a.cats) + list(b.cats)))

            def stack():
                c, st, t = make(prog, a)
                c, st, u = make(prog, b, c, st)
                st, v = c.one(st, t, "hstack", [t, u])
                R.readers("COMBINE", f"{con}, stacked", c, st, v, a.mode, cats, a.rows + b.rows, R.loc("hstack"))
                R.readers("COMBINE", f"{con}, after stacking", c, st, u, b.mode, b.cats, b.rows, R.loc("hstack"))
            R.guard("COMBINE", f"{con}, stacked", stack)

            def align():
                c, st, t = make(prog, a)
                c, st, u = make(prog, b, c, st)
                st, v = c.one(st, t, "align", [t, u])
                e = c.an.known_elts(st, v)
                if e is None or len(e) != 2:
                    raise Unk("result of align")
                for x, l in zip(e, (a, b)):
                    R.readers("COMBINE", f"{con}, aligned, {'first' if l is a and x is e[0] else 'second'}", c, st, x, a.mode, cats, l.rows, R.loc("align"))
                codes = []
                for x in e:
                    s, arr = c.one(st, x, "category_dict")
                    codes.append([c.h.e.arr(z) for z in c.value(s, arr).values()])
                rep.ob("COMBINE", f"{con}, aligned: same categories", codes[0] == codes[1], f"{codes[0]} and {codes[1]}", R.loc("align"))
                R.n += 1
            if a.mode != "map":
                R.guard("COMBINE", f"{con}, aligned", align)
    rep.counts["readings decided"] = R.n
    rep.floor("P28 readings decided", R.n, 3000)
