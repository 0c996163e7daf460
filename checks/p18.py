"""P18: column edits move names and positions, never values; a refused edit changes nothing."""
from sa.absint import C, NONE, cval, mk, show

from .ds_model import INV, Unk
from .gb_model import call_name
from .p17 import N, OTHER, SELF, Hooks17, Lit, Run, arr, check, dct, lst, say, sl

COLS = {"m": "A", "ab": "B", "k": "K", "kb": "D"}
NAMES = list(COLS)
LBL = mk("p", "LABEL")


class Hooks18(Hooks17):
    def other_cond(self, an, st, c):
        if c.op == "isinst" and c.args[0] is LBL:
            return any(getattr(x, "name", "") == "ItemAttribute" for x in c.args[1])
        return super().other_cond(an, st, c)

    def on_call(self, an, st, n, f, args, kwargs):
        if call_name(f) == "copy" and f.op in ("attr", "bm") and f.args[0] is LBL:
            return [(st, LBL)]
        return super().on_call(an, st, n, f, args, kwargs)


def state(run, st, d=SELF):
    """[(name, letter of the cells, has the attribute)]"""
    at = run.h.attributes(st, d)
    out = []
    for k, cells in run.table(st, d):
        ls = {x[0] for x in cells if isinstance(x, tuple)}
        if len(ls) != 1 or [x[1] for x in cells] != list(range(N)):
            raise Unk("cells")
        out.append((k, ls.pop(), at[k] is LBL))
    return out


BASE = [(k, v, k == "ab") for k, v in COLS.items()]


def fmt(t):
    return ", ".join(f"{k}:{v.lower()}{'*' if a else ''}" for k, v, a in t)


def kept(run, st, base=None):
    """problem when a refused edit left something changed"""
    base = base or BASE
    got = state(run, st)
    if got != base:
        return f"refused, but the columns are now {fmt(got)}"
    nc = st.heap.get((SELF, "_ncols"))
    if nc is None or nc.op != "c" or cval(nc) != len(base):
        return "refused, but the column count changed"
    return None


def edit(exp, ret=None):
    def j(run, o):
        got = state(run, o.state)
        if got != exp:
            return f"columns are {fmt(got)} instead of {fmt(exp)}"
        nc = o.state.heap.get((SELF, "_ncols"))
        if nc is None or nc.op != "c" or cval(nc) != len(exp):
            return f"column count {show(nc) if nc is not None else None} for {len(exp)} columns"
        return ret(run, o) if ret else None
    return j


def refuse(rep, rule, label, run, base=None):
    """every path raises and leaves the columns as they were"""
    fn = run.fn
    if fn is None:
        rep.undecide(rule, label, "no such operation")
        return 0
    rep.analysed(fn)
    rep.paths += len(run.outs)
    if run.h.unk:
        rep.undecide(rule, label, "branch on " + str(list(run.h.unk)[0])[:100])
        return 0
    prob, n = None, 0
    for o in run.outs:
        if o.kind == "return":
            prob = prob or "returns instead of refusing"
            n += 1
        elif o.kind == "raise":
            n += 1
            try:
                prob = prob or kept(run, o.state, base)
            except (Unk, TypeError, KeyError, IndexError, ValueError, AttributeError) as e:
                rep.undecide(rule, label, f"{type(e).__name__}: {e}")
                return 0
    if not n:
        rep.undecide(rule, label, "no path")
        return 0
    rep.ob(rule, label, prob is None, f"{fn.qual}: {prob}", fn.loc)
    return 1


def run(prog, rep):
    rep.rule("EDIT", "after a column edit every column holds the values (and attributes) it should under the name and position it should, and the column count agrees")
    rep.rule("REFUSE", "an edit that is refused leaves names, order, values and count as they were")
    rep.rule("LOCK", "a locked container refuses every column edit")
    rep.rule("SORTED", "the names of the active sort follow a renamed column")
    rep.rule("ADD", "a new column goes to the end; replacing keeps the place; a wrong length is refused")
    n = 0
    at = {"ab": LBL}
    A, B, K, D = BASE

    def R(cls, op, args, kw=None, fields=None, other=None):
        return Run(prog, op, args, kw, cols=COLS, attrs=at, cls=cls, fields=fields, hooks=Hooks18, other=other)

    ren = lambda t, nm: (nm, t[1], t[2])
    moved = lambda t, v: (t[0], v, t[2])
    for cls in ("Dataset", "Struct"):
        ok = [
            ("col_rename", ["ab", "x"], {}, [A, ren(B, "x"), K, D]),
            ("col_rename", ["m", "m"], {}, BASE),
            ("col_rename", ["kb", "b"], {}, [A, B, K, ren(D, "b")]),
            ("col_map", [dct({"m": "x", "kb": "y"})], {}, [ren(A, "x"), B, K, ren(D, "y")]),
            ("col_map", [dct({"m": "k", "k": "z"})], {}, [ren(A, "k"), B, ren(K, "z"), D]),
            ("col_map", [dct({"m": "k", "k": "m"})], {}, [moved(A, "K"), B, moved(K, "A"), D]),
            ("col_map", [dct({"ab": "x"})], {}, [A, ren(B, "x"), K, D]),
            ("col_swap", [lst(["m", "k"]), lst(["k", "m"])], {}, [moved(A, "K"), B, moved(K, "A"), D]),
            ("col_swap", [lst(["m", "k", "kb"]), lst(["k", "kb", "m"])], {}, [moved(A, "D"), B, moved(K, "A"), moved(D, "K")]),
            ("col_move_to_front", [lst(["k", "ab"])], {}, [K, B, A, D]),
            ("col_move_to_front", ["kb"], {}, [D, A, B, K]),
            ("col_move_to_front", [2], {}, [K, A, B, D]),
            ("col_move_to_back", [lst(["k", "m"])], {}, [B, D, K, A]),
            ("col_move_to_back", ["ab"], {}, [A, K, D, B]),
            ("col_move_to_back", [0], {}, [B, K, D, A]),
            ("col_move", [lst(["k"]), lst(["m", "ab"])], {}, [K, D, A, B]),
            ("col_add_prefix", ["p_"], {}, [ren(x, "p_" + x[0]) for x in BASE]),
            ("col_add_suffix", ["_s"], {}, [ren(x, x[0] + "_s") for x in BASE]),
            ("col_str_replace", ["b", "z"], {}, [A, ren(B, "az"), K, ren(D, "kz")]),
            ("col_str_replace", ["q", "z"], {}, BASE),
            ("col_str_replace", ["k", "zz"], {"max": 1}, [A, B, ren(K, "zz"), ren(D, "zzb")]),
            ("col_remove", ["ab"], {}, [A, K, D]),
            ("col_remove", [lst(["kb", "m"])], {}, [B, K]),
            ("col_remove", [1], {}, [A, K, D]),
            ("col_remove", [lst([0, "k"])], {}, [B, D]),
            ("col_remove", [], {"like": "b"}, [A, K]),
            ("col_remove", [], {"regex": "^k"}, [A, B]),
            ("col_remove", [lst(["m", "zz"])], {"on_missing": "ignore"}, [B, K, D]),
            ("col_remove", [lst(["m", "zz"])], {"on_missing": "warn"}, [B, K, D]),
            ("col_delete", ["k"], {}, [A, B, D]),
            ("__delitem__", ["k"], {}, [A, B, D]),
            ("__delattr__", ["m"], {}, [B, K, D]),
        ]
        for op, args, kw, exp in ok:
            label = f"{cls}.{op}({desc(args)}{', ' + str(kw) if kw else ''})"
            n += check(rep, "EDIT", label, R(cls, op, args, kw), edit(exp))
        n += check(rep, "EDIT", f"{cls}.col_pop(k)", R(cls, "col_pop", ["k"]), edit([A, B, D], lambda run, o: None if run.h.e.arr(run.h.e.ev(o.state, o.value)) == [("K", i) for i in range(N)] else "returns another column"))
        n += check(rep, "EDIT", f"{cls}.col_pop(list)", R(cls, "col_pop", [lst(["kb", "m"])]),
                   edit([B, K], lambda run, o: None if [(k, c[0][0]) for k, c in run.table(o.state, o.value)] == [("kb", "D"), ("m", "A")] else f"returns {say(run.table(o.state, o.value))}"))
        for op, args, kw, exp in (("col_filter", [lst(["kb", "m"])], {}, "DA"), ("col_filter", [], {"like": "b"}, "BD"), ("col_filter", [], {"regex": "^k"}, "KD"), ("col_filter", [lst(["kb"])], {"like": "m"}, "DA"),
                                  ("col_filter", [lst(["m", "zz"])], {"on_missing": "ignore"}, "A")):
            inv = {v: k for k, v in COLS.items()}
            label = f"{cls}.{op}({desc(args)}{', ' + str(kw) if kw else ''})"

            def fj(run, o, exp=exp):
                got = [(k, c[0][0]) for k, c in run.table(o.state, o.value)]
                want = [(inv[x], x) for x in exp]
                if got != want:
                    return f"gives {got} instead of {want}"
                return None if state(run, o.state) == BASE else "changes the container itself"
            n += check(rep, "EDIT", label, R(cls, op, args, kw), fj)
        bad = [
            ("col_rename", ["ab", "k"], {}), ("col_rename", ["zz", "x"], {}), ("col_map", [dct({"m": "x", "k": "x"})], {}), ("col_map", [dct({"m": "x", "zz": "y"})], {}), ("col_map", [dct({"m": "ab"})], {}),
            ("col_map", [dct({"kb": "x", "m": "ab"})], {}), ("col_map", [lst(["m", "b"])], {}),
            ("col_swap", [lst(["m", "k"]), lst(["m", "ab"])], {}), ("col_swap", [lst(["m", "k"]), lst(["k"])], {}), ("col_swap", [lst(["m", "zz"]), lst(["zz", "m"])], {}),
            ("col_str_replace", ["b", ""], {}), ("col_str_replace", ["kb", "m"], {}), ("col_str_replace", ["m", "k"], {}), ("col_remove", [], {}), ("col_remove", [lst(["m", "zz"])], {"on_missing": "raise"}),
            ("col_remove", [lst(["m"])], {"on_missing": "bogus"}), ("col_remove", [lst(["m", 9])], {}), ("col_pop", [lst(["m", "zz"])], {}), ("col_pop", ["zz"], {}), ("col_filter", [lst(["m", "zz"])], {}),
            ("col_filter", [], {"like": "zz"}), ("__delitem__", ["zz"], {}), ("col_move_to_front", [9], {}), ("col_move_to_back", [9], {}),
        ]
        for op, args, kw in bad:
            label = f"{cls}.{op}({desc(args)}{', ' + str(kw) if kw else ''})"
            n += refuse(rep, "REFUSE", label, R(cls, op, args, kw))
        # two columns that would meet under one new name
        two = {"ax": "A", "ab": "B", "axx": "K", "y": "D"}
        base = [(k, v, k == "ab") for k, v in two.items()]
        for op, args in (("col_str_replace", ["x", ""]), ("col_map", [dct({"ax": "n", "axx": "n"})]), ("col_map", [dct({"y": "ax", "axx": "ax"})])):
            n += refuse(rep, "REFUSE", f"{cls}.{op}({desc(args)}) with names {', '.join(two)}", Run(prog, op, args, None, cols=two, attrs=at, cls=cls, hooks=Hooks18), base)
        n += check(rep, "EDIT", f"{cls}.col_str_replace(ax, n) with names {', '.join(two)}", Run(prog, "col_str_replace", ["ax", "n"], None, cols=two, attrs=at, cls=cls, hooks=Hooks18),
                   edit([("n", "A", False), base[1], ("nx", "K", False), base[3]]))
        for op, args, kw, exp in ok + [("col_pop", ["k"], {}, None), ("col_set_value", ["m", arr([("V", i) for i in range(N)])], {}, None), ("__setattr__", ["m", arr([("V", i) for i in range(N)])], {}, None),
                                       ("__setattr__", ["new", arr([("V", i) for i in range(N)])], {}, None)]:
            if exp == BASE or op == "col_set_value":
                continue
            label = f"{cls}.{op}({desc(args)}{', ' + str(kw) if kw else ''}) locked"
            n += refuse(rep, "LOCK", label, R(cls, op, args, kw, fields={"_locked": True}))
        # ---- names of the active sort
        for op, args, exp in (("col_rename", ["k", "x"], ["x", "m"]), ("col_rename", ["kb", "x"], ["k", "m"]), ("col_add_prefix", ["p"], ["pk", "pm"]), ("col_add_suffix", ["s"], ["ks", "ms"]),
                              ("col_str_replace", ["k", "zz"], ["zz", "m"]), ("col_map", [dct({"k": "x", "m": "y"})], ["x", "y"])):
            def sj(run, o, exp=exp):
                t = o.state.heap.get((SELF, "_col_sortlist"))
                e = run.an.known_elts(o.state, t) if t is not None else None
                if e is None:
                    raise Unk("sort list")
                got = [cval(x) for x in e]
                return None if got == exp else f"active sort {got} instead of {exp}"
            n += check(rep, "SORTED", f"{cls}.{op}({desc(args)})", R(cls, op, args, fields={"_col_sortlist": lst(["k", "m"])}), sj)
        for op, args in (("__delitem__", ["k"]), ("col_remove", ["m"]), ("__setattr__", ["k", arr([("V", i) for i in range(N)])])):
            n += check(rep, "SORTED", f"{cls}.{op}({desc(args)}) of a sort column", R(cls, op, args, fields={"_col_sortlist": lst(["k", "m"])}),
                       lambda run, o: None if o.state.heap.get((SELF, "_col_sortlist")) is NONE else "the active sort survives the loss of its key")
        # ---- adding and replacing
        V = arr([("V", i) for i in range(N)])
        for op in ("__setattr__", "__setitem__"):
            n += check(rep, "ADD", f"{cls}.{op}(new)", R(cls, op, ["new", V]), edit(BASE + [("new", "V", False)]))
            n += check(rep, "ADD", f"{cls}.{op}(old)", R(cls, op, ["k", V]), edit([A, B, moved(K, "V"), D]))
            if cls == "Dataset":
                for m in (N - 1, N + 1, 0):
                    W = arr([("V", i) for i in range(m)])
                    n += refuse(rep, "ADD", f"{cls}.{op}(new) of length {m}", R(cls, op, ["new", W]))
                    n += refuse(rep, "ADD", f"{cls}.{op}(old) of length {m}", R(cls, op, ["k", W]))
    # every column of a Dataset has the row count
    V = lambda m, c="V": arr([(c, i) for i in range(m)])
    n += check(rep, "ADD", "Dataset.col_replace_all", R("Dataset", "col_replace_all", [dct({"kb": V(N, "V"), "m": V(N, "W"), "ab": V(N, "X"), "k": V(N, "Y")})]),
               edit([moved(A, "W"), moved(B, "X"), moved(K, "Y"), moved(D, "V")]))
    n += refuse(rep, "REFUSE", "Dataset.col_replace_all with a missing column", R("Dataset", "col_replace_all", [dct({"m": V(N)})]))
    n += refuse(rep, "REFUSE", "Dataset.col_replace_all with an unknown column", R("Dataset", "col_replace_all", [dct({"kb": V(N), "m": V(N), "ab": V(N), "k": V(N), "zz": V(N)})]))
    n += refuse(rep, "REFUSE", "Dataset.col_replace_all with lengths that differ", R("Dataset", "col_replace_all", [dct({"kb": V(N), "m": V(N), "ab": V(N - 1), "k": V(N)})]))
    rep.count("cases", n)
    rep.floor("decided column-edit cases", n, 80)


def desc(args):
    out = []
    for a in args:
        if isinstance(a, Lit):
            out.append(str(dict(a.v)) if a.kind == "dict" else ("array" if a.kind == "arr" else str(a.v)))
        else:
            out.append(str(a))
    return ", ".join(out)
