"""P12: grouped results of a Categorical never reflect old codes, old categories or an earlier filter."""
from .cat_fin import Arr, Refused, Unk
from .grp_fin import GCase, INV, Nothing, readings, wanted
from .p02 import MAPS, mapping_edits
from .p28 import layouts, make

ERR = (Unk, TypeError, KeyError, IndexError, ValueError, AttributeError)


def changes(lay):
    """(operation, label, arguments, keyword arguments, rows after)"""
    rows, cats, n = lay.rows, lay.cats, len(lay.rows)
    if lay.mode == "map":
        for op, label, args, exp in mapping_edits():
            if exp is not None:
                m, codes = exp
                yield op, label, args, {}, [m.get(x, f"!<{x}>") for x in codes]
        return
    yield "fill_invalid", "in place", (), {"inplace": True}, [None] * n
    if lay.mode == "multi":
        for i in (0, n - 1):
            for p, x in enumerate(cats):
                yield "__setitem__", f"row {i} to the code of category {p}", (i, lay.base + p), {}, [x if j == i else r for j, r in enumerate(rows)]
        return
    for i in (0, n - 1):
        for p, x in enumerate(cats):
            after = [x if j == i else r for j, r in enumerate(rows)]
            yield "__setitem__", f"row {i} to the code of category {p}", (i, lay.base + p), {}, after
            if isinstance(x, str):      # a number is taken as a code
                yield "__setitem__", f"row {i} to category {p}", (i, x), {}, after
    x = cats[0]
    if isinstance(x, str):
        yield "__setitem__", "masked rows to the first category", (Arr([j % 2 == 1 for j in range(n)]), x), {}, [x if j % 2 == 1 else r for j, r in enumerate(rows)]
        yield "__setitem__", "the rows of the last category to the first code", (cats[-1], lay.base), {}, [x if r == cats[-1] else r for r in rows]
    if isinstance(cats[0], str):
        yield "category_add", "a new category", ("zzz",), {}, rows
        for p, x in enumerate(cats):
            yield "category_remove", f"category {p}", (x,), {}, [None if r == x else r for r in rows]
            yield "category_replace", f"category {p} by a new one", (x, "new"), {}, ["new" if r == x else r for r in rows]
            y = cats[(p + 1) % len(cats)]
            yield "category_replace", f"category {p} by another one", (x, y), {}, [y if r == x else r for r in rows]
        yield "__setitem__", "row 1 to a new category, adding automatically", (1, "aa"), {"*auto": True}, ["aa" if j == 1 else r for j, r in enumerate(rows)]
    if lay.base == 1:
        keep = [cats[-1], cats[0]]
        yield "shrink", "in place", (Arr(keep),), {"inplace": True}, [r if r in keep else None for r in rows]


def keys_of(c, st, t, mode, listed=False):
    """the keys of the groups, in order"""
    if listed:
        s, v = c.one(st, t, "category_array")
        return c.value(s, v)
    s, v = c.attr(st, t, "grouping", "gbkeys")
    cols = [c.h.e.arr(x) for x in c.value(s, v).values()]
    if not all(isinstance(x, list) for x in cols) or not cols:
        raise Unk("group keys")
    return list(zip(*cols)) if mode == "multi" else cols[0]


class P12:
    def __init__(self, prog, rep):
        self.prog, self.rep, self.n = prog, rep, 0
        cat = prog.cls("Categorical")
        self.loc = lambda op: cat.find(op).loc if cat.find(op) is not None else ""

    def read(self, rule, con, c, st, t, mode, rows, filt, loc, listed=False, only=None):
        rep = self.rep
        try:
            keys = keys_of(c, st, t, mode, listed)
        except ERR as e:
            rep.undecide(rule, con, f"group keys: {type(e).__name__} {str(e)[:140]}")
            return st
        if not listed:
            lost = [x for x in dict.fromkeys(rows) if x is not None and x not in keys]
            self.n += 1
            rep.ob(rule, f"{con}: group keys", not lost, f"rows hold {rows}, the group keys are {keys}", loc)
            if lost:
                return st
        for name, f in readings(c, mode, filt, len(rows)):
            if only and name not in only or rule == "AFTER" and name == "apply_reduce":
                continue
            k = f"{con}: {name}" + (" with a filter" if filt is not None else "")
            exp = wanted(name, rows, keys, filt)
            if exp is None or listed and name in ("groups", "number of groups"):      # the group keys after a removal: P02's known finding
                continue
            try:
                s, got = f(st, t, keys)
            except Nothing:
                got = "nothing at all"
            except ERR as e:
                rep.undecide(rule, k, f"{type(e).__name__} {str(e)[:160]}")
                continue
            if c.h.unk and got != exp:
                rep.undecide(rule, k, "open condition " + list(c.h.unk)[0][:120])
                continue
            self.n += 1
            rep.ob(rule, k, got == exp, f"rows hold {rows}, the rows of the groups should be {exp}, found {got}", loc)
        for x in c.an.ran:
            rep.analysed(x)

    def fill(self, c, st, t, mode, filt, n):
        """every reading once, each on the state the one before left behind"""
        for name, f in readings(c, mode, filt, n):
            if name == "apply_reduce":
                continue
            try:
                st, _ = f(st, t, keys_of(c, st, t, mode))
            except ERR + (Nothing,):
                pass
        return st


def run(prog, rep):
    rep.rule("FRESH", "grouped readings of a new Categorical are those of its rows")
    rep.rule("AFTER", "after an operation that changes codes, categories or mapping, every grouped reading is that of the new rows, whatever was read before the change")
    rep.rule("FILTER", "after a grouped operation with a filter, every reading without a filter or with another filter is that of its own rows")
    rep.assume("codes changed through numpy routines that bypass the Categorical's own operations (putmask, sort in place, writes through a view) are outside the property")
    rep.assume("the native counting and packing routines return what their documentation says")
    P = P12(prog, rep)
    for lay in layouts():
        n = len(lay.rows)
        f1, f2 = [i % 2 == 0 for i in range(n)], [i != 1 for i in range(n)]
        for filt in (None, f1):
            try:
                c, st, t = make(prog, lay, GCase(prog))
                P.read("FRESH", lay.name, c, st, t, lay.mode, lay.rows, filt, P.loc("__new__"))
            except ERR + (Refused, Nothing) as e:
                rep.undecide("FRESH", lay.name, f"{type(e).__name__} {str(e)[:160]}")
        for name in ("get_groupings", "sum", "first", "rolling_sum", "cumsum", "cumcount", "apply_reduce", "*all"):
            con = f"{lay.name}, after {name} with a filter" if name != "*all" else f"{lay.name}, after every operation with a filter"
            try:
                c, st, t = make(prog, lay, GCase(prog))
                for nm, f in readings(c, lay.mode, f1, n):
                    if nm == name or name == "*all":
                        st, _ = f(st, t, keys_of(c, st, t, lay.mode))
                P.read("FILTER", con, c, st, t, lay.mode, lay.rows, None, P.loc(name if name != "*all" else "get_groupings"))
                P.read("FILTER", con, c, st, t, lay.mode, lay.rows, f2, P.loc(name if name != "*all" else "get_groupings"))
            except ERR + (Refused, Nothing) as e:
                rep.undecide("FILTER", con, f"{type(e).__name__} {str(e)[:160]}")
        for op, label, args, kw, rows in changes(lay):
            for before in (None, f1):
                con = f"Categorical.{op}: {lay.name}, {label}, after reading with{'out' if before is None else ''} a filter"
                try:
                    c, st, t = make(prog, lay, GCase(prog))
                    st = P.fill(c, st, t, lay.mode, before, n)
                    st, _ = c.one(st, t, "unlock")      # grouped operations lock it
                    k = dict(kw)
                    if k.pop("*auto", False):
                        st, _ = c.one(st, t, "auto_add_on")
                    st, v = c.one(st, t, op, *args, **k)
                    P.read("AFTER", con, c, st, t, lay.mode, rows, None, P.loc(op), listed=op == "category_remove")
                    if before is not None:
                        P.read("AFTER", con, c, st, t, lay.mode, rows, f2, P.loc(op), listed=op == "category_remove", only=("get_groupings", "sum", "first"))
                except ERR + (Refused, Nothing) as e:
                    rep.undecide("AFTER", con, f"{type(e).__name__} {str(e)[:160]}")
    rep.counts["grouped readings decided"] = P.n
    rep.floor("P12 grouped readings decided", P.n, 7000)
