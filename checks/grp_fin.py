"""Grouped results on top of the finite Categorical model: packing, first and last rows, and what the native grouped routines are called with."""
from sa.absint import Budget, C, NONE, Outcome, cval, is_const, mk, show

from .cat_fin import Arr, Case, CHooks, CInterp, INV, Refused, Unk
from .gb_model import call_name, is_arr

NATIVE = {"_groupbycalculateall": ("values", "ikey", "unique"), "GroupByAll32": ("values", "ikey", "unique"), "GroupByAll64": ("values", "ikey", "unique"),
          "_groupbycalculateallpack": ("values", "ikey", "iGroup", "iFirstGroup", "nCountGroup", "unique"), "GroupByAllPack32": ("values", "ikey", "iGroup", "iFirstGroup", "nCountGroup", "unique"),
          "EmaAll32": ("values", "ikey", "unique")}


USER = mk("p", "USERFUNC")


def pack(ik, nbins):
    """rows of every bin in order, first position and length of every bin"""
    rows = [[i for i, x in enumerate(ik) if x == b] for b in range(nbins)]
    grp = [i for r in rows for i in r]
    first, k = [], 0
    for r in rows:
        first.append(k)
        k += len(r)
    return grp, first, [len(r) for r in rows]


class Nothing(Exception):
    """there is no packing where one is used"""


class GHooks(CHooks):
    def __init__(self, prog):
        super().__init__(prog)
        self.native = []

    def num(self, st, t):
        v = self.e.arr(self.e.ev(st, t))
        if is_arr(v) and all(isinstance(x, int) for x in v):
            return v
        raise Unk("group numbers")

    def many(self, st, *vs):
        ts = []
        for v in vs:
            st, t = self.token(st, v, "grp")
            ts.append(t)
        return st, ts

    def on_call(self, an, st, n, f, args, kwargs):
        nm = call_name(f)
        if nm == "LedgerFunction" and args:
            f, args = args[0], list(args[1:])
            nm = call_name(f)
        if f is USER:
            try:
                self.native.append({"name": "user", "state": st, "rows": self.e.arr(self.e.ev(st, args[0]))})
            except (Unk, TypeError, KeyError, IndexError):
                self.native.append({"name": "user", "state": st, "rows": None})
            return [(st, C(1))]
        try:
            if nm == "callable" and len(args) == 1 and args[0] is USER:
                return [(st, C(True))]
            if nm in NATIVE and f.op in ("fn", "ext"):
                rec = {"name": nm, "state": st}
                for k, a in zip(NATIVE[nm], args):
                    try:
                        rec[k] = self.e.arr(self.e.ev(st, a))
                    except (Unk, TypeError, KeyError):
                        rec[k] = Unk
                self.native.append(rec)
                an._raise_sink[-1].append(Outcome("raise", st, mk("call", mk("ext", "builtins.SystemExit"), (), ()), n))
                return []
            if nm in ("groupbypack",) and f.op in ("fn", "ext") and len(args) >= 2:
                ik = self.num(st, args[0])
                u = args[2] if len(args) > 2 else kwargs.get("unique_count", NONE)
                cut = args[3] if len(args) > 3 else kwargs.get("cutoffs", NONE)
                if cut is not NONE or args[1] is not NONE or not is_const(u) and u not in self.e.env and u.op not in ("bin", "call"):
                    return None
                u = self.e.ev(st, u)
                if not isinstance(u, int):
                    return None
                s, ts = self.many(st, *pack(ik, u))
                s = s.copy()
                o = an.new_obj(s, "dict", n)
                s.heap[("content", o)] = ("dict", tuple((C(k), t) for k, t in zip(("iGroup", "iFirstGroup", "nCountGroup"), ts)), None)
                return [(s, o)]
            if nm == "BinCount" and len(args) == 2:
                ik, u = self.num(st, args[0]), self.e.ev(st, args[1])
                g, fi, c = pack(ik, u)
                if "pack" in kwargs and self.e.ev(st, kwargs["pack"]):
                    s, ts = self.many(st, c, g, fi)
                    return [(s, mk("tup", *ts))]
                return [self.token(st, c, "count")]
            if nm == "GroupFromBinCount" and len(args) == 2:
                ik, c = self.num(st, args[0]), self.num(st, args[1])
                g, fi, _ = pack(ik, len(c))
                s, ts = self.many(st, g, fi)
                return [(s, mk("tup", *ts))]
            if nm == "ReverseShuffle" and len(args) == 1:
                v = self.num(st, args[0])
                out = [0] * len(v)
                for i, x in enumerate(v):
                    out[x] = i
                return [self.token(st, out, "rev")]
            if nm in ("makeifirst", "makeilast") and len(args) == 2 and not kwargs:
                ik, u = self.num(st, args[0]), self.e.ev(st, args[1])
                w = [[i for i, x in enumerate(ik) if x == b] for b in range(u + 1)]
                return [self.token(st, [(INV if not r or b == 0 else r[0] if nm == "makeifirst" else r[-1]) for b, r in enumerate(w)], "first")]
            if nm in ("makeinext", "makeiprev") and len(args) == 2 and not kwargs:
                ik = self.num(st, args[0])
                out = []
                for i, x in enumerate(ik):
                    r = [j for j, y in enumerate(ik) if y == x and (j > i if nm == "makeinext" else j < i)]
                    out.append(INV if not r or x == 0 else min(r) if nm == "makeinext" else max(r))
                return [self.token(st, out, "next")]
            if nm == "combine_filter" and len(args) == 2:
                ik, fl = self.num(st, args[0]), self.e.arr(self.e.ev(st, args[1]))
                if is_arr(fl) and len(fl) == len(ik):
                    return [self.token(st, [x if k else 0 for x, k in zip(ik, fl)], "filtered")]
        except (Unk, TypeError, KeyError, IndexError):
            return None
        return super().on_call(an, st, n, f, args, kwargs)


class GCase(Case):
    def __init__(self, prog, max_steps=120000):
        super().__init__(prog, max_steps)
        self.h = GHooks(prog)
        self.an = CInterp(prog, self.h, max_depth=40, max_steps=max_steps)
        self.an.max_recursion = 4
        self.an.ran = set()

    def attr(self, st, t, *names):
        """t.a.b.c"""
        for x in names:
            self.an._raise_sink.append([])
            self.an.steps = 0
            try:
                r = self.an.get_attr(st, None, t, x)
            except (Budget, RecursionError):
                raise Unk("budget")
            finally:
                bad = self.an._raise_sink.pop()
            if len(r) != 1 or bad:
                raise Unk(f"{x}: {len(r)} results {list(self.h.unk)[:1]}")
            st, t = r[0]
        return st, t

    def native_of(self, st, t, op, *args, **kwargs):
        """what the native routine behind a grouped operation is called with, and the state at that point"""
        self.h.native = []
        r, x = [], []
        steps = self.an.max_steps
        try:
            if op == "apply_reduce":        # what follows the calls of the user function is not looked at
                self.an.max_steps = 3000
            r, x = self.call(st, t, op, *args, **kwargs)
        except Unk:
            pass
        finally:
            self.an.max_steps = steps
        if not self.h.native:
            raise Unk(f"{op}: no native call, {len(r)} results {[show(o.value)[:90] for o in x][:2]} {list(self.h.unk)[:1]}")
        return self.h.native


def readings(c, lay_mode, filt, n):
    """(name, filtered, read(st, t, keys) -> (state, {key: rows} or value))

    Every reading is normalised to the rows of each group, in the order the library reports them.
    """
    F = [] if filt is None else [Arr(filt)]

    def by_bins(keys, vals, first=0):
        if len(vals) < len(keys) + first:
            raise Unk("fewer bins than groups")
        return {k: vals[j + first] for j, k in enumerate(keys)}

    def attr(name):
        def f(st, t, keys):
            s, v = c.attr(st, t, "grouping", name)
            v = c.value(s, v)
            if v is None:
                raise Nothing()
            return s, v
        return f

    def ikey(st, t, keys):
        s, v = attr("ikey")(st, t, keys)
        return s, {k: [i for i, x in enumerate(v) if x == j + 1] for j, k in enumerate(keys)}

    def edge(name, last):
        def f(st, t, keys):
            s, v = attr(name)(st, t, keys)
            return s, by_bins(keys, [[] if x == INV else [x] for x in v])
        return f

    def packed(st, keys, g, fi, nc):
        return {k: g[fi[j + 1]:fi[j + 1] + nc[j + 1]] for j, k in enumerate(keys)} if len(fi) > len(keys) and len(nc) > len(keys) else {"bins": len(fi)}

    def groups(st, t, keys):
        s, g = attr("igroup")(st, t, keys)
        s, fi = attr("ifirstgroup")(s, t, keys)
        s, nc = attr("ncountgroup")(s, t, keys)
        return s, packed(s, keys, g, fi, nc)

    def count(st, t, keys):
        s, nc = attr("ncountgroup")(st, t, keys)
        return s, {k: x for k, x in by_bins(keys, nc, 1).items()}

    def countkey(st, t, keys):
        s, nc = attr("ncountkey")(st, t, keys)
        return s, by_bins(keys, nc)

    def rev(st, t, keys):
        s, g = attr("igroup")(st, t, keys)
        s, r = attr("igroupreverse")(s, t, keys)
        return s, [r[x] if x < len(r) else None for x in g]

    def native(op, *args):
        def f(st, t, keys):
            a = [x(t) if callable(x) else x for x in args]
            recs = c.native_of(st, t, op, *a, **({"filter": F[0]} if F else {}))
            r = recs[0]
            if len(recs) != 1 or any(x is Unk for x in (r.get("ikey"), r.get("iGroup"), r.get("iFirstGroup"), r.get("nCountGroup"))):
                raise Unk("native call")
            if r["ikey"] is None or "iGroup" in r and any(r[k] is None for k in ("iGroup", "iFirstGroup", "nCountGroup")):
                raise Nothing()
            if "iGroup" in r:
                return r["state"], packed(st, keys, r["iGroup"], r["iFirstGroup"], r["nCountGroup"])
            return r["state"], {k: [i for i, x in enumerate(r["ikey"]) if x == j + 1] for j, k in enumerate(keys)}
        return f

    def groupings(st, t, keys):
        s, v = c.one(st, t, "get_groupings", **({"filter": F[0]} if F else {}))
        d = c.value(s, v)
        if any(d[k] is None for k in ("iGroup", "iFirstGroup", "nCountGroup")):
            raise Nothing()
        return s, packed(s, keys, *[c.h.e.arr(d[k]) for k in ("iGroup", "iFirstGroup", "nCountGroup")])

    def dictgroups(st, t, keys):
        s, v = c.one(st, t, "groups")
        return s, {k: c.h.e.arr(x) for k, x in c.value(s, v).items()}

    def fancy(op):
        def f(st, t, keys):
            s, v = c.one(st, t, op)
            return s, by_bins(keys, [[x] if x != INV else [] for x in c.value(s, v)])
        return f

    def mask(op):
        def f(st, t, keys):
            s, v = c.one(st, t, op)
            return s, [bool(x) for x in c.value(s, v)]
        return f

    def user(st, t, keys):
        unk = dict(c.h.unk) if isinstance(c.h.unk, dict) else set(c.h.unk)
        recs = c.native_of(st, t, "apply_reduce", USER, Arr(list(range(n))), **({"filter": F[0]} if F else {}))
        c.h.unk = unk
        if any(r["rows"] is None for r in recs):
            raise Unk("user function")
        calls = [r["rows"] for r in recs]
        s, ik = attr("ikey")(st, t, keys)
        out = [i for i, x in enumerate(ik) if x == 0 or filt is not None and not filt[i]]
        if out and calls[0] == out:
            calls = calls[1:]
        return recs[-1]["state"], calls

    vals = Arr(list(range(10, 10 + n)))
    out = [("get_groupings", groupings), ("sum", native("sum", vals)), ("first", native("first", vals)), ("rolling_sum", native("rolling_sum", vals)), ("cumsum", native("cumsum", vals)),
           ("median", native("median", vals)), ("nth", native("nth", vals)), ("cumcount", native("cumcount")), ("apply_reduce", user)]
    if filt is None:
        out += [("number of groups", attr("unique_count")), ("group numbers", ikey), ("first rows", edge("ifirstkey", False)), ("last rows", edge("ilastkey", True)), ("packed groups", groups), ("group sizes", count), ("sizes of the groups", countkey),
                ("reverse of the packing", rev), ("groups", dictgroups), ("first_fancy", fancy("first_fancy")), ("last_fancy", fancy("last_fancy")), ("first_bool", mask("first_bool")), ("last_bool", mask("last_bool")), ("next rows", attr("inextkey")), ("previous rows", attr("iprevkey"))]
    return out


def wanted(name, rows, keys, filt):
    """the definition of a reading from what the rows hold; None: no claim"""
    if name == "cumsum":
        filt = None         # the filter goes to the routine itself
    r = [x if filt is None or filt[i] else None for i, x in enumerate(rows)]
    g = {k: [i for i, x in enumerate(r) if x == k] for k in keys}
    if name == "number of groups":
        return len(keys)
    if name == "apply_reduce":
        return [v for v in g.values() if v]
    if name in ("first rows",):
        return {k: v[:1] for k, v in g.items()}
    if name in ("last rows",):
        return {k: v[-1:] for k, v in g.items()}
    if name in ("first_fancy", "last_fancy"):
        return {k: v[:1] if name == "first_fancy" else v[-1:] for k, v in g.items()}
    if name in ("first_bool", "last_bool"):
        at = {v[0] if name == "first_bool" else v[-1] for v in g.values() if v}
        return [i in at for i in range(len(rows))]
    if name in ("group sizes", "sizes of the groups"):
        return {k: len(v) for k, v in g.items()}
    if name == "reverse of the packing":
        return list(range(len(rows)))
    if name in ("next rows", "previous rows"):
        out = []
        for i, x in enumerate(r):
            js = [j for j, y in enumerate(r) if x is not None and y == x and (j > i if name == "next rows" else j < i)]
            out.append((min(js) if name == "next rows" else max(js)) if js else INV)
        return out
    return g
