"""P02: category edits keep codes, categories and mapping in step; a locked Categorical refuses them."""
from . import cat_common as cc
from .cat_fin import Arr, Case, Refused, Unk
from .p28 import L, Run, layouts, make

ERR = (Unk, TypeError, KeyError, IndexError, ValueError, AttributeError)
SHARED = ("the expanded array", "single elements", "group numbers and group keys", "the expanded columns")
MAPS = {0: "za", 3: "yb", 7: "xc"}


def edits(lay):
    """(operation, label, arguments, rows after, categories after or None, needs automatic adding)"""
    cats, rows = lay.cats, lay.rows
    sub = lambda x, y: [y if r == x else r for r in rows]
    for label, new in (("a category that sorts last", "zzz"), ("a category that sorts first", "aa")):
        yield "category_add", label, (new,), rows, cats + [new], False
    for p, x in enumerate(cats):
        yield "category_remove", f"category {p}", (x,), sub(x, None), [z for z in cats if z != x], False
        yield "category_replace", f"category {p} by a new longer one", (x, "newname"), sub(x, "newname"), [z if z != x else "newname" for z in cats], False
        for q, y in enumerate(cats):
            if q != p:
                yield "category_replace", f"category {p} by category {q}", (x, y), sub(x, y), None, False
    n = len(rows)
    for i in (0, n - 1):
        for p, x in enumerate(cats):
            after = [x if j == i else r for j, r in enumerate(rows)]
            yield "__setitem__", f"row {i} to category {p}", (i, x), after, cats, False
            yield "__setitem__", f"row {i} to the code of category {p}", (i, lay.base + p), after, cats, False
    for p, x in enumerate(cats):
        yield "__setitem__", f"some rows to category {p}", ([1, 2], x), [x if j in (1, 2) else r for j, r in enumerate(rows)], cats, False
        mask = [j % 2 == 0 for j in range(n)]
        yield "__setitem__", f"masked rows to category {p}", (Arr(mask), x), [x if mask[j] else r for j, r in enumerate(rows)], cats, False
        yield "__setitem__", f"a slice to category {p}", (slice(1, 3, None), x), [x if j in (1, 2) else r for j, r in enumerate(rows)], cats, False
        yield "__setitem__", f"the rows of category {p} to the first code", (x, lay.base), sub(x, cats[0]), cats, False
    for new in ("zzz", "aa"):
        yield "__setitem__", f"row 1 to the new category {new}, adding automatically", (1, new), [new if j == 1 else r for j, r in enumerate(rows)], cats + [new], True


def others(base, n):
    """Categoricals to assign from"""
    K = ["k", "c", "m"]
    for b in (1, 0):
        codes = [b + i % 3 for i in range(n)]
        yield L(f"the same categories, base {b}", (Arr(codes), Arr(K)), {"base_index": b}, [K[i % 3] for i in range(n)], K, base=b)
        yield L(f"reordered categories, base {b}", (Arr(codes), Arr(K[::-1])), {"base_index": b}, [K[::-1][i % 3] for i in range(n)], K[::-1], base=b)
        yield L(f"fewer categories, base {b}", (Arr([b + i % 2 for i in range(n)]), Arr(["m", "c"])), {"base_index": b}, [["m", "c"][i % 2] for i in range(n)], ["m", "c"], base=b)
    yield L("rows without a category", (Arr([0, 1] + [i % 3 for i in range(2, n)]), Arr(["c", "m"])), {"base_index": 1}, [None, "c"] + [[None, "c", "m"][i % 3] for i in range(2, n)], ["c", "m"])


def cats_of(c, st, t, n):
    st, a = c.one(st, t, "category_array")
    return c.value(st, a)


def mapping_edits():
    codes = [3, 7, 0, 3]
    yield "mapping_add", "new code", (9, "new"), ({**MAPS, 9: "new"}, codes)
    yield "mapping_add", "existing code", (3, "new"), None
    for k in MAPS:
        yield "mapping_remove", f"code {k}", (k,), ({a: b for a, b in MAPS.items() if a != k}, codes)
        yield "mapping_replace", f"code {k}", (k, "new"), ({**MAPS, k: "new"}, codes)
        for i in range(4):
            after = list(codes)
            after[i] = k
            yield "__setitem__", f"row {i} to code {k} of a mapping", (i, k), (MAPS, after)
            yield "__setitem__", f"row {i} to the name of code {k} of a mapping", (i, MAPS[k]), (MAPS, after)
    yield "mapping_remove", "missing code", (9,), None
    yield "mapping_replace", "the same name", (3, "yb"), (MAPS, codes)
    yield "mapping_replace", "missing code", (9, "new"), None
    yield "__setitem__", "code outside the mapping", (1, 5), None
    yield "mapping_new", "another mapping", ({"p": 3, "q": 7},), ({3: "p", 7: "q"}, codes)


def run(prog, rep):
    rep.rule("EFFECT", "after a category edit or element assignment every reader gives each row the category it had (or the edited or assigned one), for every position of the edited category, both base indices and every layout")
    rep.rule("SYNC", "what is read through the grouping behind the Categorical (expanded values, elements, group keys) shows the edited categories or mapping")
    rep.rule("REFUSE", "codes outside the categories, missing codes, existing codes to add and categories that do not exist are refused")
    rep.rule("LOOKUP", "a category lookup returns the code of exactly that category, or none")
    rep.rule("INPLACE", "copies and selections taken before an edit read as they did before it")
    rep.rule("LOCK", "a locked Categorical reaches no change of its categories or mapping")
    rep.assume("unique, ismember and the other array primitives return what their documentation says")
    R = Run(prog, rep)
    for lay in layouts():
        if lay.mode != "single" or not isinstance(lay.cats[0], str):
            continue
        for op, label, args, rows, cats, auto in edits(lay):
            con = f"Categorical.{op}: {lay.name}, {label}"

            def edit():
                c, st, t = make(prog, lay)
                before = []
                for w, o, a in (("deep copy", "copy", ()), ("mask selection", "__getitem__", (Arr([True] * len(lay.rows)),)), ("index selection", "__getitem__", (list(range(len(lay.rows))),))):
                    st, u = c.one(st, t, o, *a)
                    before.append((w, u))
                if auto:
                    st, _ = c.one(st, t, "auto_add_on")
                try:
                    st, _ = c.one(st, t, op, *args)
                except Refused as e:
                    if c.h.unk:
                        raise Unk(str(e))
                    rep.ob("EFFECT", con, False, f"refused with {e}", R.loc(op))
                    R.n += 1
                    return
                all_ = list(dict.fromkeys((cats or []) + lay.cats))
                sh = None
                if op == "category_remove":
                    sh = f"Categorical.{op}"
                R.readers("EFFECT", con, c, st, t, "single", all_, rows, R.loc(op), skip=SHARED + ("isfiltered",) if sh else ())
                if sh:
                    R.readers("SYNC", sh, c, st, t, "single", all_, rows, R.loc(op), only=SHARED, one=True)
                if cats is not None:
                    got = cats_of(c, st, t, len(rows))
                    rep.ob("EFFECT", con + ": the categories", got == cats or auto and isinstance(got, list) and sorted(got) == sorted(cats), f"the categories become {got}, expected {cats}", R.loc(op))
                    R.n += 1
                for w, u in before:
                    R.readers("INPLACE", f"{con}: earlier {w}", c, st, u, "single", lay.cats, lay.rows, R.loc(op), only=("the expanded array", "codes into the category array", "=="))
            R.guard("EFFECT", con, edit)
        n = len(lay.rows)
        if set(lay.cats) >= {"k", "c", "m"}:
            for o in others(lay.base, n):
                con = f"Categorical.__setitem__: {lay.name}, all rows from a Categorical with {o.name}"

                def assign():
                    c, st, t = make(prog, lay)
                    c, st, u = make(prog, o, c, st)
                    st, _ = c.one(st, t, "__setitem__", slice(None), u)
                    R.readers("EFFECT", con, c, st, t, "single", lay.cats, o.rows, R.loc("__setitem__"))
                    R.readers("INPLACE", con + ": the assigned one", c, st, u, "single", o.cats, o.rows, R.loc("__setitem__"), only=("the expanded array", "codes into the category array"))
                if not (lay.base == 0 and None in o.rows):
                    R.guard("EFFECT", con, assign)
        refuse = [("__setitem__", "an unknown category without automatic adding", (1, "zzz")), ("__setitem__", "a code above the categories", (1, lay.base + len(lay.cats))),
                  ("__setitem__", "a negative code", (1, -1)), ("category_remove", "an unknown category", ("zzz",)), ("category_replace", "an unknown category", ("zzz", "yyy"))]
        for op, label, args in refuse:
            con = f"Categorical.{op}: {lay.name}, {label}"

            def ref():
                c, st, t = make(prog, lay)
                try:
                    s2, _ = c.one(st, t, op, *args)
                except Refused:
                    rep.ob("REFUSE", con, True)
                    R.n += 1
                    return
                if c.h.unk:
                    raise Unk("open condition")
                # not refused: then nothing may have changed
                if op == "__setitem__":
                    rep.ob("REFUSE", con, False, "accepted", R.loc(op))
                    R.n += 1
                else:
                    R.readers("REFUSE", con, c, s2, t, "single", lay.cats, lay.rows, R.loc(op))
            R.guard("REFUSE", con, ref)
        con = f"Categorical.__setitem__: {lay.name}, a Categorical with a category that does not exist here"

        def missing():
            c, st, t = make(prog, lay)
            st, u = c.one(st, None, "__new__", Arr(["k"] * (n - 1) + ["zzz"]))
            try:
                c.one(st, t, "__setitem__", slice(None), u)
            except Refused:
                rep.ob("REFUSE", con, True)
                R.n += 1
                return
            if c.h.unk:
                raise Unk("open condition")
            rep.ob("REFUSE", con, False, "accepted", R.loc("__setitem__"))
        R.guard("REFUSE", con, missing)
    for lay in layouts():
        if lay.mode == "multi" or not isinstance(lay.cats[0], str):
            continue
        for key in lay.cats + ["zzz", "b"]:
            con = f"from_category: {key!r}, {lay.name}"

            def look():
                c, st, t = make(prog, lay)
                want = None if key not in lay.cats else lay.cats.index(key) + lay.base if lay.mode == "single" else {v: k for k, v in MAPS.items()}[key]
                try:
                    st, v = c.one(st, t, "from_category", key)
                except Refused as e:
                    if c.h.unk:
                        raise Unk(str(e))
                    rep.ob("LOOKUP", con, want is None, f"refused with {e}", R.loc("from_category"))
                    R.n += 1
                    return
                got = c.value(st, v)
                if isinstance(got, list) and len(got) == 1:
                    got = got[0]
                rep.ob("LOOKUP", con, got == want or want is None and got == [], f"returns {got!r}, the code is {want!r}", R.loc("from_category"))
                R.n += 1
            R.guard("LOOKUP", con, look)
    for op, label, args, exp in mapping_edits():
        con = f"Categorical.{op}: {label}"

        def mapping():
            lay = next(l for l in layouts() if l.mode == "map")
            c, st, t = make(prog, lay)
            st, u = c.one(st, t, "copy")
            try:
                st, _ = c.one(st, t, op, *args)
            except Refused as e:
                if exp is not None and c.h.unk:
                    raise Unk(str(e))
                rep.ob("REFUSE" if exp is None else "EFFECT", con, exp is None, f"refused with {e}", R.loc(op))
                R.n += 1
                return
            if exp is None:
                if c.h.unk:
                    raise Unk("open condition")
                rep.ob("REFUSE", con, False, "accepted", R.loc(op))
                R.n += 1
                return
            m, codes = exp
            names = list(m.values())
            R.readers("EFFECT", con, c, st, t, "map", names, [m.get(x) for x in codes], R.loc(op))
            s2, v = c.one(st, t, "category_mapping")
            got = c.value(s2, v)
            rep.ob("EFFECT", con + ": code to name", got == m, f"the mapping becomes {got}", R.loc(op))
            for nm in set(names) | set(MAPS.values()):
                want = {v: k for k, v in m.items()}.get(nm)
                try:
                    s2, v = c.one(st, t, "from_category", nm)
                    got = c.value(s2, v)
                    got = got[0] if isinstance(got, list) and len(got) == 1 else got
                    got = None if got == [] else got
                except Refused:
                    got = None
                rep.ob("EFFECT", f"{con}: name {nm} to code", got == want, f"{nm} has the code {got}, expected {want}", R.loc(op))
            R.n += 1 + len(names)
            R.readers("INPLACE", f"{con}: earlier copy", c, st, u, "map", list(MAPS.values()), lay.rows, R.loc(op), only=("the expanded array", "=="))
        R.guard("EFFECT", con, mapping)
    rep.counts["edit scenarios decided"] = R.n
    rep.floor("P02 decided scenarios", R.n, 3500)
    rset, acc, fns = cc.reach(prog)
    pm = dict(cc.public_methods(prog, rset))
    k = 0
    for name, f in pm.items():
        for mode in cc.MODES:
            h, outs, ok = cc.analyse(prog, f, mode, rset | acc, locked=True)
            ev = [e for e in h.events if e[0] in ("list", "mapping", "gstorage", "replace")]
            if not ok and not ev:
                rep.undecide("LOCK", f"{name} [{mode}]", "path budget")
                continue
            k += 1
            msg = ""
            if ev:
                kind, fn, node, st, data = ev[0]
                msg = f"{fn.qual if fn else '?'} line {getattr(node, 'lineno', '?')} changes the categories of a locked Categorical: " + " > ".join(st.trace_list(6)[-4:])
            rep.ob("LOCK", f"Categorical.{name} [{mode}]", not ev, msg, f.loc)
    rep.floor("P02 operations analysed under lock", k, 25)
