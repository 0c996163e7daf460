"""P10: every cell of a grouped result stands for the named operation over exactly its group's rows."""
from sa.absint import Budget, C, NONE, cval, mk, show, subterms

from .gb_model import (A, B, FIL, FILT, IKEY, INV, ISORT, KEYS, NG, ROWS, Scen, SELF, Unk, columns, run_op)

# function codes of the native kernels (their binary interface)
CODES = dict(sum=0, mean=1, min=2, max=3, var=4, std=5, nansum=50, nanmean=51, nanmin=52, nanmax=53, nanvar=54, nanstd=55, first=100, last=102, mode=104, trimbr=105)
NTH, QM = 101, 106
ROLL = dict(rolling_sum=200, rolling_nansum=201, rolling_diff=202, rolling_shift=203, rolling_mean=205, rolling_nanmean=206)
RQ, RCOUNT = 207, 204
EMA = dict(cumsum=300, ema_decay=301, cumprod=302, findnth=303, ema_normal=304, cummax=306, cummin=307)
MULT = 10 ** 9
WIN, DECAY, NTERM = mk("p", "WINDOW"), mk("p", "DECAY"), mk("p", "N")
TIME, RESET, CF = mk("p", "TIME"), mk("p", "RESET"), mk("p", "CFILTER")


def qparam(q, isnan):
    return int(q * 1e9) + (MULT + 1 if isnan else 0)


def rows_of(g, filt):
    return tuple(r for r in range(ROWS) if (IKEY[r] if not filt or FILT[r] else 0) == g)


def order(sort):
    return [ISORT[i] + 1 for i in range(NG)] if sort else [1, 2, 3]


class Case:
    def __init__(self, rep, prog):
        self.rep, self.prog = rep, prog
        self.decided = 0

    def run(self, rule, cls, op, args, kwargs, scen, con, judge, data="AB"):
        rep = self.rep
        try:
            r = run_op(self.prog, cls, op, args, kwargs, scen)
        except Budget:
            rep.undecide(rule, con, "path budget exceeded")
            return
        if r is None:
            rep.undecide(rule, con, f"{cls}.{op} does not take these arguments")
            return
        fn, h, an, outs = r
        rep.analysed(fn, *an.visited_funcs)
        rets = [o for o in outs if o.kind == "return"]
        rep.paths += len(outs)
        if not rets:
            return rep.undecide(rule, con, "no returning path: " + "; ".join(show(o.value)[:60] for o in outs[:2]))
        unk = bool(h.unk)
        for o in rets:
            if "unk-kernel" in [m[0] for m in o.state.marks if isinstance(m, tuple)]:
                rep.undecide(rule, con, "kernel argument: " + str(list(h.unk.items())[:2])[:160])
                continue
            try:
                cols = None if judge.raw else columns(h, o.state, o.value)
                msg = judge(h, o, cols)
            except (Unk, KeyError, IndexError, TypeError) as e:
                rep.undecide(rule, con, f"{type(e).__name__} {e} {show(o.value)[:80]}")
                continue
            if msg and unk and len(rets) > 1:
                rep.undecide(rule, con, "on a path whose condition is not determined: " + str(list(h.unk)[:2])[:150])
                continue
            self.decided += 1
            rep.ob(rule, con, not msg, f"{fn.qual}: {msg}", fn.loc)


def judged(raw=False):
    def deco(f):
        f.raw = raw
        return f
    return deco


def names_for(cls):
    return (("a", "A"), ("b", "B")) if cls == "GroupBy" else ((None, "A"),)


def pick(cols, cls, nm, keys=("k",)):
    if nm is not None:
        if nm not in cols:
            return None
        return cols[nm]
    rest = [v for k, v in cols.items() if k not in keys]
    return rest[0] if len(rest) == 1 else None


def like_ok(h, st, t, tag):
    """a result column takes its class and attributes from the column it was computed from"""
    for s in subterms(t):
        if s.op == "like" and s.args[1].op == "p" and s.args[1].args[0] in ("A", "B", "K") and s.args[1].args[0] != tag:
            return False
    return True


def reduce_judge(cls, code, param, filt=False, showfilter=False, transform=False, sort=False, only=None, nogroup=None):
    @judged()
    def j(h, o, cols):
        exp_cols = [x for x in names_for(cls) if only is None or x[0] in only or x[0] is None]
        for nm, tag in exp_cols:
            c = pick(cols, cls, nm)
            if c is None:
                return f"column {nm or 'of the data'} is missing from the result {sorted(map(str, cols))}"
            t, cells = c
            if not like_ok(h, o.state, t, tag):
                return f"column {nm or ''} takes the class of another column"

            def cell(g):
                return ("red", code, param, tuple((tag, r) for r in rows_of(g, filt)))

            if transform:
                if len(cells) != ROWS:
                    return f"{len(cells)} values for {ROWS} rows"
                for r in range(ROWS):
                    g = IKEY[r]
                    if g == 0 and not showfilter:
                        if nogroup is not None and cells[r] != INV:
                            nogroup.append(cells[r])
                        continue
                    if cells[r] != cell(g):
                        return f"row {r} of group {g} gets {say(cells[r])} instead of {say(cell(g))}"
            else:
                bins = order(sort)
                if showfilter:
                    bins = [0] + bins
                exp = [cell(g) for g in bins]
                if len(cells) != len(exp):
                    return f"{len(cells)} cells for {len(exp)} groups"
                kc = cols.get("k")
                if kc is None:
                    return "the key column is missing"
                kv = [KEYS[g - 1] if g else None for g in bins]
                for i, g in enumerate(bins):
                    if g and kc[1][i] != kv[i]:
                        return f"key of cell {i} is {kc[1][i]} instead of {kv[i]}"
                    if not g and kc[1][i] in KEYS:
                        return "the filtered bin is labelled with a group's key"
                    if cells[i] != exp[i]:
                        return f"the cell of key {kv[i]} (bin {g}) holds {say(cells[i])} instead of {say(exp[i])}"
        if only is not None and cls == "GroupBy":
            extra = [k for k in cols if k not in only and k != "k"]
            if extra:
                return f"columns {extra} were not asked for"
        return None
    return j


def say(c):
    if isinstance(c, tuple) and c and c[0] == "red":
        return f"kernel {c[1]} (parameter {c[2]}) over rows {[x[1] for x in c[3]]} of {sorted({x[0] for x in c[3]})}"
    if isinstance(c, tuple) and c and c[0] == "roll":
        return f"rolling kernel {c[1]} (parameter {c[2]}) at {c[3]} over rows {list(c[4])}"
    if isinstance(c, tuple) and c and c[0] == "ema":
        return f"kernel {c[1]} (parameter {c[2]}) at {c[3]} in group rows {[x[1] for x in c[4]]}"
    return str(c)


def row_judge(cls, fam, code, param, filt=False, raw=False):
    @judged(raw=raw)
    def j(h, o, cols):
        if raw:
            its = [("values", None, h.e.ev(o.state, o.value))]
        else:
            its = []
            for nm, tag in names_for(cls):
                c = pick(cols, cls, nm)
                if c is None:
                    return f"column {nm or 'of the data'} is missing from the result {sorted(map(str, cols))}"
                if not like_ok(h, o.state, c[0], tag):
                    return f"column {nm or ''} takes the class of another column"
                its.append((nm, tag, c[1]))
        for nm, tag, cells in its:
            if len(cells) != ROWS:
                return f"{len(cells)} values for {ROWS} rows"
            for r in range(ROWS):
                g = IKEY[r]
                if g == 0:
                    continue
                if fam == "roll":
                    if filt and not FILT[r]:
                        continue
                    exp = ("roll", code, param, (tag, r) if tag else ("row", r), rows_of(g, filt))
                else:
                    exp = ("ema", code, param, (tag, r), tuple((tag, x) for x in rows_of(g, False)), NG)
                if cells[r] != exp:
                    return f"row {r} of group {g} gets {say(cells[r])} instead of {say(exp)}"
        return None
    return j


def run(prog, rep):
    rep.rule("CELL", "following the public method to the native kernel call and back, cell (group, column) of the result is the kernel of that name applied to exactly the rows of that group that pass the filter, next to that group's key, with the caller's parameters")
    rep.rule("ROW", "for row-shaped grouped results (rolling, cumulative, moving averages, transform) row r is computed from the rows of r's own group that pass the filter, with the caller's parameters")
    rep.rule("COUNT", "group counts count exactly the rows of each group that pass the filter")
    rep.rule("ROWS", "the row indices returned for a group are the rows of that group, in row order")
    rep.rule("AGG", "a named aggregation runs the operation of that name")
    rep.rule("USER", "a function of the caller is called on exactly the rows of each group, column by column, and its results stand next to the group's key in an array of their own type")
    rep.rule("NOGROUP", "a row that belongs to no group does not get a group's value")
    rep.assume("the native kernels compute the function named by their code over the rows whose bin lies in the requested range; groupbypack lists the rows of each bin in row order; combine_filter sets the code of filtered rows to 0")
    rep.assume("columns are numeric arrays; group code, filter and display order are represented by a six-row, three-group abstraction with a row in no group and a fully filtered group")
    k = Case(rep, prog)
    thorough = rep.tier == "thorough"
    ng = []

    # ---- reductions
    reds = {n: (c, {}, 0) for n, c in CODES.items()}
    for n, isn in (("median", 0), ("nanmedian", 1)):
        reds[n] = (QM, {}, qparam(0.5, isn))
    for n, isn in (("quantile", 0), ("nanquantile", 1)):
        reds[n] = (QM, {"q": C(0.25)}, qparam(0.25, isn))
    for n, isn in (("percentile", 0), ("nanpercentile", 1)):
        reds[n] = (QM, {"q": C(75)}, qparam(0.75, isn))
    T, F_ = C(True), C(False)
    for cls in ("GroupBy", "Categorical"):
        args = [] if cls == "GroupBy" else [A]
        for op, (code, kw, param) in reds.items():
            opts = [
                ("", {}, {}, {}),
                ("filter", {"filter": FIL}, dict(filt=True), {}),
                ("showfilter", {"showfilter": T}, dict(showfilter=True), {}),
                ("filter showfilter", {"showfilter": T, "filter": FIL}, dict(showfilter=True, filt=True), {}),
                ("transform", {"transform": T}, dict(transform=True), {}),
                ("filter transform", {"transform": T, "filter": FIL}, dict(transform=True, filt=True), {}),
                ("transform showfilter", {"transform": T, "showfilter": T}, dict(transform=True, showfilter=True), {}),
                ("sorted display", {}, dict(sort=True), dict(sort=True)),
                ("sorted display, filter, showfilter", {"filter": FIL, "showfilter": T}, dict(sort=True, filt=True, showfilter=True), dict(sort=True)),
                ("sorted display, transform", {"transform": T}, dict(transform=True), dict(sort=True)),
                ("not computable-only", {"computable": F_}, {}, {}),
            ]
            if cls == "GroupBy":
                opts.append(("one column", {"col_idx": mk("tup", C("a"))}, dict(only=("a",)), {}))
                opts.append(("one column, filter", {"col_idx": mk("tup", C("b")), "filter": FIL}, dict(only=("b",), filt=True), {}))
                opts.append(("all columns returned", {}, {}, dict(return_all=True)))
            else:
                opts.append(("base 0", {}, {}, dict(base=0)))
                opts.append(("base 0, transform", {"transform": T}, dict(transform=True), dict(base=0)))
                opts.append(("mapped, transform", {"transform": T}, dict(transform=True), dict(enum=True)))
            for pk in ("plain", "filter"):
                opts.append((f"packed before ({pk})", {}, {}, dict(packed=pk)))
                opts.append((f"packed before ({pk}), filter", {"filter": FIL}, dict(filt=True), dict(packed=pk)))
            if op in CODES:
                opts.append(("parameter", {"func_param": C(7)}, dict(param=7), {}))
            for nm, kws, spec, sc in opts:
                spec = dict(spec)
                pr = spec.pop("param", param)
                j = reduce_judge(cls, code, pr, nogroup=ng, **spec)
                k.run("ROW" if spec.get("transform") else "CELL", cls, op, args, dict(kw, **kws), Scen(**sc), f"{cls}.{op} {nm}".strip(), j)
    rep.ob("NOGROUP", "transform=True, row in no group", not ng, f"such a row gets {say(ng[0]) if ng else ''}", "riptable/rt_groupbyops.py")

    # ---- nth
    k.run("CELL", "GroupBy", "nth", [], {"n": NTERM}, Scen(), "GroupBy.nth", reduce_judge("GroupBy", NTH, ("N",)))
    k.run("CELL", "Categorical", "nth", [A], {"n": NTERM}, Scen(), "Categorical.nth", reduce_judge("Categorical", NTH, ("N",)))
    k.run("CELL", "Categorical", "nth", [A], {"n": NTERM, "filter": FIL}, Scen(), "Categorical.nth filter", reduce_judge("Categorical", NTH, ("N",), filt=True))

    # ---- row-shaped results
    for cls in ("GroupBy", "Categorical"):
        args = [] if cls == "GroupBy" else [A]
        for op, code in ROLL.items():
            k.run("ROW", cls, op, args, {"window": WIN}, Scen(), f"{cls}.{op}", row_judge(cls, "roll", code, ("WINDOW",)))
            k.run("ROW", cls, op, args, {}, Scen(), f"{cls}.{op} default window", row_judge(cls, "roll", code, 1 if op in ("rolling_shift", "rolling_diff") else 3))
            k.run("ROW", cls, op, args, {"window": WIN, "filter": FIL}, Scen(), f"{cls}.{op} filter", row_judge(cls, "roll", code, ("WINDOW",), filt=True))
            k.run("ROW", cls, op, args, {"window": WIN}, Scen(packed="filter"), f"{cls}.{op} packed before", row_judge(cls, "roll", code, ("WINDOW",)))
            k.run("ROW", cls, op, args, {"window": WIN}, Scen(sort=True), f"{cls}.{op} sorted display", row_judge(cls, "roll", code, ("WINDOW",)))
        for w in (2, 4):
            rq = lambda q: int(q * 1e9) + w * (MULT + 1)
            k.run("ROW", cls, "rolling_quantile", args, {"q": C(0.25), "window": C(w)}, Scen(), f"{cls}.rolling_quantile window {w}", row_judge(cls, "roll", RQ, rq(0.25)))
            k.run("ROW", cls, "rolling_quantile", args, {"q": C(0.25), "window": C(w), "filter": FIL}, Scen(), f"{cls}.rolling_quantile window {w} filter", row_judge(cls, "roll", RQ, rq(0.25), filt=True))
            k.run("ROW", cls, "rolling_median", args, {"window": C(w)}, Scen(), f"{cls}.rolling_median window {w}", row_judge(cls, "roll", RQ, rq(0.5)))
        for op, code in EMA.items():
            base = {}
            pre = (0.0, None)
            if op.startswith("ema"):
                base = {"time": TIME, "decay_rate": DECAY}
                pre = (("DECAY",), tuple(("T", i) for i in range(ROWS)))
            fl = tuple(FILT)
            cf = tuple(("CF", i) for i in range(ROWS))
            rs = tuple(("X", i) for i in range(ROWS))
            has_reset = op != "findnth"
            k.run("ROW", cls, op, args, dict(base), Scen(), f"{cls}.{op}", row_judge(cls, "ema", code, pre + (None, None)))
            k.run("ROW", cls, op, args, dict(base, filter=FIL), Scen(), f"{cls}.{op} filter", row_judge(cls, "ema", code, pre + (fl, None)))
            if has_reset:
                k.run("ROW", cls, op, args, dict(base, reset_filter=RESET), Scen(), f"{cls}.{op} reset filter", row_judge(cls, "ema", code, pre + (None, rs)))
                k.run("ROW", cls, op, args, dict(base, filter=FIL, reset_filter=RESET), Scen(), f"{cls}.{op} filter and reset filter", row_judge(cls, "ema", code, pre + (fl, rs)))
            if op != "findnth" or True:
                k.run("ROW", cls, op, args, dict(base), Scen(cfilter=True), f"{cls}.{op} filter of the grouping", row_judge(cls, "ema", code, pre + (cf, None)))
                k.run("ROW", cls, op, args, dict(base, filter=FIL), Scen(cfilter=True), f"{cls}.{op} own filter over the grouping's", row_judge(cls, "ema", code, pre + (fl, None)))
        for op, code in (("cummin", 309), ("cummax", 308)):
            k.run("ROW", cls, op, args, {"skipna": F_}, Scen(), f"{cls}.{op} with invalids", row_judge(cls, "ema", code, (0.0, None, None, None)))
        for asc, p in ((True, 1), (False, -1)):
            k.run("ROW", cls, "cumcount", [], {"ascending": C(asc)}, Scen(), f"{cls}.cumcount ascending={asc}", row_judge(cls, "roll", RCOUNT, p, raw=True))
            k.run("ROW", cls, "cumcount", [], {"ascending": C(asc), "filter": FIL}, Scen(), f"{cls}.cumcount ascending={asc} filter", row_judge(cls, "roll", RCOUNT, p, filt=True, raw=True))
    k.run("ROW", "GroupBy", "shift", [], {"window": WIN}, Scen(), "GroupBy.shift", row_judge("GroupBy", "roll", 203, ("WINDOW",)))
    k.run("ROW", "GroupBy", "diff", [], {"period": WIN}, Scen(), "GroupBy.diff", row_judge("GroupBy", "roll", 202, ("WINDOW",)))
    k.run("ROW", "Categorical", "shift", [A], {"window": WIN}, Scen(), "Categorical.shift", row_judge("Categorical", "roll", 203, ("WINDOW",)))
    k.run("ROW", "Categorical", "shift", [A], {"periods": WIN, "filter": FIL}, Scen(), "Categorical.shift filter", row_judge("Categorical", "roll", 203, ("WINDOW",), filt=True))

    counts(prog, rep, k)
    rows(prog, rep, k)
    aggs(prog, rep, k)
    user(prog, rep, k)
    rep.count("decided_paths", k.decided)
    rep.floor("decided grouped-operation paths", k.decided, 500)


def counts(prog, rep, k):
    T = C(True)

    def cj(filt=False, showfilter=False, transform=False, sort=False, nogroup=None):
        @judged()
        def j(h, o, cols):
            if "Count" not in cols:
                return "no Count column"
            cells = cols["Count"][1]
            n = lambda g: len(rows_of(g, filt))
            if transform:
                for r in range(ROWS):
                    if IKEY[r] == 0:
                        if not showfilter and nogroup is not None and cells[r] != INV:
                            nogroup.append(cells[r])
                        continue
                    if cells[r] != n(IKEY[r]) and not (showfilter and filt):
                        return f"row {r} of group {IKEY[r]} gets {cells[r]} instead of {n(IKEY[r])}"
                return None
            bins = ([0] if showfilter else []) + order(sort)
            if list(cells) != [n(g) for g in bins]:
                return f"counts {cells} instead of {[n(g) for g in bins]} for bins {bins}"
            if "k" not in cols:
                return "no key column"
            kv = cols["k"][1]
            if [x for x, g in zip(kv, bins) if g] != [KEYS[g - 1] for g in bins if g]:
                return f"keys {kv} for bins {bins}"
            return None
        return j

    ng = []
    for cls in ("GroupBy", "Categorical"):
        for pk in (None, "plain", "filter"):
            for sort in (False, True):
                sc = dict(packed=pk, sort=sort)
                tag = f"{cls}.count{' packed before (' + pk + ')' if pk else ''}{' sorted display' if sort else ''}"
                k.run("COUNT", cls, "count", [], {}, Scen(**sc), tag, cj(sort=sort))
                k.run("COUNT", cls, "count", [], {"filter": FIL}, Scen(**sc), tag + " filter", cj(sort=sort, filt=True))
                k.run("COUNT", cls, "count", [], {"transform": T}, Scen(**sc), tag + " transform", cj(transform=True, nogroup=ng))
                k.run("COUNT", cls, "count", [], {"transform": T, "filter": FIL}, Scen(**sc), tag + " filter transform", cj(transform=True, filt=True, nogroup=ng))
                if cls == "GroupBy":
                    k.run("COUNT", cls, "count", [], {"showfilter": T}, Scen(**sc), tag + " showfilter", cj(sort=sort, showfilter=True))
                    k.run("COUNT", cls, "count", [], {"showfilter": T, "filter": FIL}, Scen(**sc), tag + " filter showfilter", cj(sort=sort, showfilter=True, filt=True))
                    k.run("COUNT", cls, "count", [], {"showfilter": T, "transform": T}, Scen(**sc), tag + " transform showfilter", cj(showfilter=True, transform=True))
        if cls == "Categorical":
            k.run("COUNT", cls, "count", [], {"transform": T}, Scen(base=0), f"{cls}.count base 0 transform", cj(transform=True, nogroup=ng))
            k.run("COUNT", cls, "count", [], {"transform": T}, Scen(enum=True), f"{cls}.count mapped transform", cj(transform=True, nogroup=ng))
    rep.ob("NOGROUP", "count(transform=True), row in no group", not ng, f"such a row gets {ng[0] if ng else ''}", "riptable/rt_grouping.py")


def rows(prog, rep, k):
    def arr_judge(exp):
        @judged(raw=True)
        def j(h, o, cols):
            v = h.e.arr(h.e.ev(o.state, o.value))
            return None if list(v) == exp else f"returns rows {v} instead of {exp}"
        return j

    def dict_judge(exp):
        @judged(raw=True)
        def j(h, o, cols):
            v = h.e.ev(o.state, o.value)
            got = {a: list(h.e.arr(b)) for a, b in v.items()}
            return None if got == exp else f"returns {got} instead of {exp}"
        return j

    for cls in ("GroupBy", "Categorical"):
        for pk in (None, "plain", "filter"):
            tag = f" packed before ({pk})" if pk else ""
            sc = lambda: Scen(packed=pk)
            for g in (1, 2, 3):
                k.run("ROWS", cls, "as_filter", [C(g)], {}, sc(), f"{cls}.as_filter({g}){tag}", arr_judge(list(rows_of(g, False))))
            k.run("ROWS", cls, "first_fancy", [], {}, sc(), f"{cls}.first_fancy{tag}", arr_judge([rows_of(g, False)[0] for g in (1, 2, 3)]))
            k.run("ROWS", cls, "last_fancy", [], {}, sc(), f"{cls}.last_fancy{tag}", arr_judge([rows_of(g, False)[-1] for g in (1, 2, 3)]))


def aggs(prog, rep, k):
    names = [n for n in list(CODES) + ["median", "nanmedian"] if n not in ("mode", "trimbr")]

    def judge(label, prep, exp):
        """exp: kernel code -> columns it runs on"""
        try:
            fn, h, an, outs = run_op(prog, "GroupBy", "agg", [], {}, Scen(), prep=prep)
        except Budget:
            rep.undecide("AGG", label, "path budget exceeded")
            return
        got = {}
        for nm, vals, _ in h.kernels:
            for f, c in zip(h.e.arr(vals[6 if "Pack" in nm else 3]), h.e.arr(vals[0])):
                got.setdefault(f, set()).add(c[0][0])
        if not got or h.unk:
            rep.undecide("AGG", label, "kernel not reached: " + str(list(h.unk)[:2])[:100])
            return
        k.decided += 1
        rep.analysed(fn)
        rep.ob("AGG", label, got == exp, f"{fn.qual} runs {got} (kernel code: columns) instead of {exp}", fn.loc)

    def as_list(*ops):
        def prep(an, st):
            o = an.new_obj(st, "list", None)
            st.heap[("content", o)] = ("list", tuple(C(x) for x in ops), True)
            return [o]
        return prep

    def as_dict(**ops):
        def prep(an, st):
            o = an.new_obj(st, "dict", None)
            st.heap[("content", o)] = ("dict", tuple((C(c), mk("tup", *[C(x) for x in v]) if isinstance(v, tuple) else C(v)) for c, v in ops.items()), None)
            return [o]
        return prep

    code = lambda n: CODES.get(n, QM)
    for i, op in enumerate(names):
        nxt = names[(i + 1) % len(names)]
        judge(f"GroupBy.agg({op!r})", lambda an, st, op=op: [C(op)], {code(op): {"A", "B"}})
        judge(f"GroupBy.agg([{op!r}, {nxt!r}])", as_list(op, nxt), {code(op): {"A", "B"}, code(nxt): {"A", "B"}})
        if code(op) != code(nxt):
            judge(f"GroupBy.agg(a={op!r}, b={nxt!r})", as_dict(a=op, b=nxt), {code(op): {"A"}, code(nxt): {"B"}})
            judge(f"GroupBy.agg(a={op!r}, {nxt!r}; b={nxt!r})", as_dict(a=(op, nxt), b=nxt), {code(op): {"A"}, code(nxt): {"A", "B"}})


def user(prog, rep, k):
    """functions of the caller, called group by group on one, two and several columns at a time"""
    from sa.absint import State, cval, mk

    from .acc_fin import ACase, INV as NOVAL, SERIES, USER, Arr, Refused, rows_in
    from .p30 import ERR, N, R, dims
    fls = (None, [i not in (4, 5) for i in range(N)])
    forms = [(op, names, extra) for op in ("apply_reduce", "apply_nonreduce") for names, extra in (("p", 0), ("pq", 0), (("p", "q"), 0), ("p", 1), (("p", "q"), 1))]
    for d in dims(R):
        if d.keys is None:
            continue
        for op, names, extra in forms:
            loc = prog.cls("Categorical").find(op).loc
            for fl in fls:
                for sf in (False, True) if op == "apply_reduce" else (False,):
                    kind = "one column" if names == "p" else "two columns" if names == "pq" else "two columns at a time"
                    con = f"Categorical.{op} on {kind}{' and parameters' if extra else ''}: {d.name}{', with a filter' if fl else ''}{', filtered shown' if sf else ''}"
                    try:
                        c = ACase(prog)
                        st, t = c.one(State(), None, "__new__", *d.args, **d.kwargs)
                        ts = []
                        for x in names:
                            st, v = c.h.token(st, [("val", i, x) for i in range(N)], "data")
                            ts.append(v)
                        kw = {"showfilter": sf} if op == "apply_reduce" else {}
                        if fl:
                            kw["filter"] = Arr(fl)
                        if extra:
                            kw["func_param"] = (11, 12)
                        a = mk("tup", *ts) if isinstance(names, tuple) else ts if len(ts) > 1 else ts[0]
                        st, r = c.one(st, t, op, USER if op == "apply_reduce" else SERIES, a, **kw)
                        cols, _ = c.table(st, r)
                    except ERR + (Refused,) as e:
                        rep.undecide("USER", con, f"{type(e).__name__} {str(e)[:160]}")
                        continue
                    for x in c.an.ran:
                        rep.analysed(x)
                    if c.h.unk:
                        rep.undecide("USER", con, "open condition " + list(c.h.unk)[0][:120])
                        continue
                    k.decided += 1
                    bad = None
                    vals = {x: v for x, v in cols.items() if x.startswith("col_")}
                    keyc = [v for x, v in cols.items() if not x.startswith("col_")]
                    keys = list(zip(*keyc)) if len(keyc) > 1 else list(keyc[0]) if keyc else []
                    if op == "apply_reduce":
                        shown = keys[1:] if sf else keys
                        if shown != d.keys:
                            bad = f"the keys are {shown}, the groups are {d.keys}"
                        places = [(key, None) for key in keys]
                    else:
                        if [v for x, v in c.h.content(st, r) if not str(cval(x)).startswith("col_")] != [t]:
                            bad = "the key column of the rows is not the Categorical itself"
                        places = [(key, i) for i, key in enumerate(d.rows)]
                    want_cols = [names] if isinstance(names, tuple) else list(names)
                    if len(vals) != len(want_cols):
                        bad = bad or f"{len(vals)} result columns for {len(want_cols)} columns"
                    for x, v in zip(want_cols, vals.values()):
                        if len(v) != len(places):
                            bad = bad or f"{len(v)} results for {len(places)} {'keys' if op == 'apply_reduce' else 'rows'}"
                        for (key, i), cell in list(zip(places, v))[1 if sf else 0:]:
                            if i is not None and (key is None or fl and not fl[i]):
                                continue
                            want = [j for j in range(N) if d.rows[j] == key and (fl is None or fl[j])]
                            if not want and cell == NOVAL:
                                continue
                            call = ("user", 11, 12) if extra else "user"
                            try:
                                got, of, how = list(rows_in(cell)), cell[2], cell[1]
                            except ERR:
                                got, of, how = cell, None, None
                            if got != want or of != x:
                                bad = bad or f"{'group' if i is None else f'row {i} of group'} {key}: the function of column {of}, rows {got} instead of column {x}, rows {want}"
                            elif how != (call if i is None else (call, i)):
                                bad = bad or f"{'group' if i is None else f'row {i} of group'} {key}: {how} instead of {call if i is None else (call, i)}"
                    if c.h.cross:
                        bad = bad or f"results of column {c.h.cross[0][0]} are stored in an array made for the results of column {c.h.cross[0][1]}"
                    rep.ob("USER", con, bad is None, bad or "", loc)
