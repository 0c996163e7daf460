"""P30: every cell and every total of a two-dimensional table stands at the row and column key its rows hold."""
from sa.absint import State

from .acc_fin import ACase, INV, USER, Arr, Refused, Unk, rows_in

ERR = (Unk, TypeError, KeyError, IndexError, ValueError, AttributeError)
R = ["b", "a", "b", "c", "a", "c", "b", "a"]
X = ["y", "x", "x", "z", "y", "y", "z", "y"]
N = len(R)


class D:
    """one dimension: how its Categorical is made and the key every row holds (None: filtered)"""

    def __init__(self, name, args, kwargs, rows, keys):
        self.name, self.args, self.kwargs, self.rows, self.keys = name, args, kwargs, rows, keys


def dims(v):
    """the layouts of a dimension with the given values (three different ones)"""
    s = sorted(set(v))
    app = list(dict.fromkeys(v))
    hole = [None if i in (1, 3) else x for i, x in enumerate(v)]
    num = {s[0]: 7, s[1]: 9, s[2]: 5}
    return [
        D("values", (Arr(v),), {}, v, s),
        D("order of appearance", (Arr(v),), {"ordered": False}, v, app),
        D("sorted for display", (Arr(v),), {"ordered": False, "sort_gb": True}, v, s),
        D("base 0", (Arr([app.index(x) for x in v]), Arr(app)), {"base_index": 0}, v, app),
        D("some rows filtered", (Arr([0 if x is None else app.index(x) + 1 for x in hole]), Arr(app)), {"base_index": 1}, hole, app),
        D("filtered at construction, sorted for display", (Arr(v),), {"ordered": False, "sort_gb": True, "filter": Arr([x is not None for x in hole])}, hole, [x for x in s if x in hole]),
        D("a key without rows", (Arr([app.index(x) + 1 for x in v]), Arr(app + ["w"])), {"base_index": 1}, v, app + ["w"]),
        D("numbers", (Arr([num[x] for x in v]),), {}, [num[x] for x in v], sorted(num.values())),
        D("mapping", (Arr([{s[0]: 3, s[1]: 7, s[2]: 1}[x] for x in v]), {s[0]: 3, s[1]: 7, s[2]: 1}), {}, v, None),
        D("two keys", ([Arr(v), Arr([num[x] for x in v])],), {}, [(x, num[x]) for x in v], [(x, num[x]) for x in app]),
        D("two keys sorted for display", ([Arr(v), Arr([num[x] for x in v])],), {"sort_gb": True}, [(x, num[x]) for x in v], [(x, num[x]) for x in s]),
    ]


def text(k):
    return str(k) if not isinstance(k, str) else k


def select(rk, ck, fl, r, c, sf):
    """the rows a cell stands for; r or c: a key, '*F' the filtered bin, '*' the total over the dimension"""
    out = []
    for i in range(N):
        a, b = (rk[i], ck[i]) if fl is None or fl[i] else (None, None)
        okr = a is None if r == "*F" else (sf or a is not None) if r == "*" else a == r
        okc = b is None if c == "*F" else (sf or b is not None) if c == "*" else b == c
        if okr and okc:
            out.append(i)
    return out


class P30:
    def __init__(self, prog, rep):
        self.prog, self.rep, self.n = prog, rep, 0
        self.acc = prog.cls("Accum2")
        self.loc = lambda op: self.acc.find(op).loc if self.acc.find(op) is not None else ""

    def make(self, rd, cd, c=None, **kw):
        c = c or ACase(self.prog)
        st, r = c.one(State(), None, "__new__", *rd.args, **rd.kwargs)
        st, k = c.one(st, None, "__new__", *cd.args, **cd.kwargs)
        st, a = c.on(c.acc, st, None, "__new__", r, k, **kw)
        st, v = c.h.token(st, [("val", i) for i in range(N)], "data")
        return c, st, a, v

    def table(self, c, st, a, v, op, fl, sf, extra=()):
        kw = {"showfilter": sf} if sf is not None else {}
        if fl is not None:
            kw["filter"] = Arr(fl)
        if op == "apply_reduce":
            return c.on(c.acc, st, a, op, USER, v, **kw)
        return c.on(c.acc, st, a, op, *([v] if op != "count" else []), *extra, **kw)

    def check(self, rule, con, c, st, t, rd, cd, op, fl, sf, totals=True):
        """one table against its definition"""
        rep = self.rep
        loc = self.loc(op)
        try:
            cols, foot = c.table(st, t)
        except ERR as e:
            rep.undecide(rule, con, f"{type(e).__name__} {str(e)[:160]}")
            return
        for x in c.an.ran:
            rep.analysed(x)
        if c.h.unk:
            rep.undecide(rule, con, "open condition " + list(c.h.unk)[0][:120])
            return
        rk, ck = rd.rows, cd.rows
        names = list(cols)
        nk = len(rk[0]) if any(isinstance(x, tuple) for x in rk) and isinstance(next(x for x in rk if x is not None), tuple) else 1
        keyc = [cols[x] for x in names[:nk]]
        body = {k: cols[k] for k in names[nk:]}
        rkeys = list(zip(*keyc)) if nk > 1 else list(keyc[0])
        wantr = list(dict.fromkeys(x for x in rk if x is not None)) if rd.keys is None else rd.keys
        wantc = list(dict.fromkeys(x for x in ck if x is not None)) if cd.keys is None else cd.keys
        shown = rkeys[1:] if sf else rkeys
        self.n += 1
        if not rep.ob(rule, f"{con}: row keys", sorted(map(text, shown)) == sorted(map(text, wantr)) and (rd.keys is None or shown == rd.keys),
                      f"the row keys of the table are {shown}, the rows hold {wantr}", loc):
            return
        labels = ["*F"] + shown if sf else shown
        cn = {text(k): k for k in wantc}
        lost = [k for k in cn if k not in body]
        self.n += 1
        if not rep.ob(rule, f"{con}: columns", not lost and (cd.keys is None or [x for x in body if x in cn] == [text(k) for k in cd.keys]),
                      f"the columns are {list(body)}, the columns' keys are {wantc}", loc):
            return
        want = {text(k): k for k in wantc}
        if sf:
            want["Filtered"] = "*F"
        tot = [k for k in body if k not in want]
        for name, vals in body.items():
            col = want.get(name, "*")
            bad = None
            if len(vals) != len(labels):
                bad = f"column {name} has {len(vals)} values for {len(labels)} rows"
            for r, x in zip(labels, vals):
                bad = bad or self.differs(x, select(rk, ck, fl, r, col, sf), op, f"column {name}, row {'Filtered' if r == '*F' else r}", col == "*")
            self.n += 1
            rep.ob(rule, f"{con}: column {name}" if col != "*" else f"{con}: row totals", bad is None, bad or "", loc)
        if totals and op in self.has_total:
            self.n += 1
            if rep.ob(rule, f"{con}: totals present", bool(tot) and foot is not None, f"no totals among {list(body)}", loc):
                for name, x in foot.items():
                    col = want.get(name, "*")
                    if sf and col == "*":
                        continue            # whether the grand total counts filtered rows when they are shown is not settled by the documentation
                    bad = self.differs(x, select(rk, ck, fl, "*", col, sf), op, f"footer of column {name}", True)
                    self.n += 1
                    rep.ob(rule, f"{con}: footer of {name if col != '*' else 'the totals'}", bad is None, bad or "", loc)
                self.n += 1
                lostf = [k for k in want if k not in foot]
                rep.ob(rule, f"{con}: footer complete", not lostf, f"no footer for {lostf}", loc)

    has_total = ("sum", "nansum", "min", "nanmin", "max", "nanmax", "mean", "nanmean", "var", "nanvar", "std", "nanstd", "median", "count", "apply_reduce")

    @staticmethod
    def differs(x, rows, op, where, total):
        if op == "count":
            return None if x == len(rows) else f"{where}: {x} rows, it holds {len(rows)} ({rows})"
        if not rows and x == INV:
            return None
        try:
            got = sorted(rows_in(x))
        except Unk:
            return f"{where}: {x}, not the {op} of rows {rows}"
        if got != rows:
            return f"{where}: the {op} of rows {got}, its rows are {rows}"
        name = x[1]
        if op == "apply_reduce":
            return None
        ok = name == op or op in ("median", "nanmedian") and (name.startswith("quantile_mult") if not total else name in ("quantile_mult", ("nan" if op == "nanmedian" else "") + "quantile 0.5"))
        return None if ok else f"{where}: {name} of its rows instead of {op}"


def run(prog, rep):
    rep.rule("CELLS", "every cell, row total and column total is the requested reduction of exactly the rows that hold its keys")
    rep.rule("AGAIN", "a table does not depend on the tables computed from the same object before")
    rep.rule("KEYS", "the pair of keys read for a row is the pair the row holds")
    rep.assume("the native grouped kernels, key combination and whole-array reductions compute what their documentation says; values of empty cells are not claimed")
    P = P30(prog, rep)
    rs, cs = dims(R), dims(X)
    pairs = [(rs[0], c) for c in cs] + [(r, cs[0]) for r in rs[1:]] + [(rs[i], cs[j]) for i, j in ((2, 2), (3, 3), (4, 4), (5, 5), (2, 5), (5, 2), (1, 6), (8, 8), (9, 2), (10, 9), (3, 4), (4, 3))]
    f1 = [i != 4 for i in range(N)]
    most = ("sum", "nanmax", "mean", "median", "first", "count")
    for rd, cd in pairs:
        ops = most + ("nansum", "min", "max", "nanmin", "nanmean", "var", "nanvar", "std", "nanstd", "last") if rd is rs[0] and cd is cs[0] else most
        for op in ops:
            for fl in (None, f1):
                for sf in (False, True):
                    con = f"Accum2.{op}: rows {rd.name}, columns {cd.name}{', with a filter' if fl else ''}{', filtered shown' if sf else ''}"
                    try:
                        c, st, a, v = P.make(rd, cd)
                        st, t = P.table(c, st, a, v, op, fl, sf)
                    except ERR + (Refused,) as e:
                        rep.undecide("CELLS", con, f"{type(e).__name__} {str(e)[:200]}")
                        continue
                    P.check("CELLS", con, c, st, t, rd, cd, op, fl, sf)
    for rd, cd in pairs:
        for fl in (None, f1):
            for sf in (False, True):
                con = f"Accum2.apply_reduce: rows {rd.name}, columns {cd.name}{', with a filter' if fl else ''}{', filtered shown' if sf else ''}"
                try:
                    c, st, a, v = P.make(rd, cd)
                    st, t = P.table(c, st, a, v, "apply_reduce", fl, sf)
                except ERR + (Refused,) as e:
                    rep.undecide("CELLS", con, f"{type(e).__name__} {str(e)[:200]}")
                    continue
                P.check("CELLS", con, c, st, t, rd, cd, "apply_reduce", fl, sf)
    # the filter given when the table object is made
    for rd, cd in ((rs[0], cs[0]), (rs[2], cs[2]), (rs[4], cs[4])):
        for op in ("sum", "mean", "first", "count"):
            for fl in (None, [i not in (0, 6) for i in range(N)]):
                con = f"Accum2.{op}: rows {rd.name}, columns {cd.name}, made with a filter{' and another filter' if fl else ''}"
                try:
                    c, st, a, v = P.make(rd, cd, filter=Arr(f1))
                    st, t = P.table(c, st, a, v, op, fl, False)
                except ERR + (Refused,) as e:
                    rep.undecide("CELLS", con, f"{type(e).__name__} {str(e)[:200]}")
                    continue
                P.check("CELLS", con, c, st, t, rd, cd, op, [x and (fl is None or fl[i]) for i, x in enumerate(f1)], False)
    # histories
    for rd, cd in ((rs[0], cs[0]), (rs[2], cs[2]), (rs[4], cs[3]), (rs[5], cs[5]), (rs[9], cs[10])):
        for op in ("sum", "mean", "first", "count"):
            con = f"Accum2.{op}: rows {rd.name}, columns {cd.name}"
            try:
                c, st, a, v = P.make(rd, cd)
            except ERR + (Refused,) as e:
                rep.undecide("AGAIN", con, f"{type(e).__name__} {str(e)[:200]}")
                continue
            for o, fl, sf in (("sum", f1, True), (op, None, False), ("first", f1, False), (op, f1, True), ("mean", None, True), (op, None, False), (op, None, True)):
                try:
                    st, t = P.table(c, st, a, v, o, fl, sf)
                except ERR + (Refused,) as e:
                    rep.undecide("AGAIN", con, f"{type(e).__name__} {str(e)[:200]}")
                    break
                if o == op:
                    P.check("AGAIN", f"{con}, after other tables{', with a filter' if fl else ''}{', filtered shown' if sf else ''}", c, st, t, rd, cd, op, fl, sf)
    # the pair of a row
    for rd, cd in pairs:
        con = f"Accum2.__getitem__: rows {rd.name}, columns {cd.name}"
        if rd.keys is None or cd.keys is None:
            continue
        try:
            c, st, a, v = P.make(rd, cd)
            got = []
            for i in range(N):
                st, t = c.on(c.acc, st, a, "__getitem__", i)
                got.append(tuple(c.value(st, x) for x in t.args))
        except ERR + (Refused,) as e:
            rep.undecide("KEYS", con, f"{type(e).__name__} {str(e)[:200]}")
            continue
        bad = [(i, g, (cd.rows[i], rd.rows[i])) for i, g in enumerate(got) if any(w is not None and x != w for x, w in zip(g, (cd.rows[i], rd.rows[i])))]
        P.n += 1
        rep.ob("KEYS", con, not bad, f"row, keys read, keys held: {bad[:3]}", P.loc("__getitem__"))
    rep.counts["obligations on tables"] = P.n
    rep.floor("P30 obligations on tables", P.n, 6000)
