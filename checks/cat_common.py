"""Typestate analysis of Categorical: writes of the codes, writes of the category storage, resets of the cached grouping."""
import ast

from sa.absint import NONE, Budget, C, Hooks, Interp, State, cval, is_const, leaves, mk, show, subterms
from sa.prog import straight

SELF = mk("p", "self")
WRAP = mk("attr", SELF, "_categories_wrap")
GRP = mk("attr", SELF, "_grouping")
ENUM = mk("attr", GRP, "_enum")
I2S = mk("attr", ENUM, "_int_to_str_dict")
S2I = mk("attr", ENUM, "_str_to_int_dict")
WGRP = mk("attr", WRAP, "_grouping")
WENUM = mk("attr", WGRP, "_enum")
LIST0 = mk("attr", WRAP, "_list")
CODES = mk("attr", SELF, "_fa")
STORAGE = {"_list", "_column_dict", "_int_to_str_dict", "_str_to_int_dict"}
GSTORAGE = {"_grouping_unique_dict", "_enum"}
ARR_MUT = {"fill", "sort", "put", "partition", "itemset", "resize", "setfield"}
EXT_MUT0 = {"numpy.putmask", "numpy.put", "numpy.copyto", "numpy.place"}
DICT_MUT = {"pop", "update", "clear", "setdefault", "popitem"}
MODES = {
    "single": {"isenum": False, "issinglekey": True, "ismultikey": False},
    "mapped": {"isenum": True, "issinglekey": False, "ismultikey": False},
    "multi": {"isenum": False, "issinglekey": False, "ismultikey": True},
}


LOOKUPS = {"get_category_match_index", "get_category_index", "from_category", "get_multikey_index"}
FRESH = {"full", "zeros", "empty", "copy", "zeros_like", "empty_like", "full_like", "ones"}


def call_name(t):
    f = t.args[0]
    if f.op in ("fn", "cls"):
        return f.args[0].name
    if f.op == "bm":
        return f.args[1].name
    if f.op == "ext":
        return f.args[0].rsplit(".", 1)[-1]
    if f.op == "attr":
        return f.args[1]
    return None


class CatHooks(Hooks):
    def __init__(self, prog, mode):
        self.prog = prog
        self.mode = MODES[mode]
        self.cat, self.cats, self.grp, self.enum = (prog.cls(x) for x in ("Categorical", "Categories", "Grouping", "GroupingEnum"))
        self.events = []

    # ---- what the terms denote
    def codes(self, t):
        while t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("view", "ravel", "reshape"):
            t = t.args[0].args[0]
        return t is CODES or t is SELF or (t.op == "attr" and t.args[1] in ("_np", "_fa") and t.args[0] in (SELF, CODES))

    def is_grp(self, st, t):
        return t is WGRP or t is st.heap.get((WRAP, "_grouping")) or self.own_grp(st, t)

    def own_grp(self, st, t):
        """the grouping that serves the Categorical's grouped results"""
        g = st.heap.get((SELF, "_grouping"))
        return t is (GRP if g is None else g)

    def live_enum(self, st):
        """mapping objects of the grouping the Categorical currently uses, or of its category wrapper"""
        out = {ENUM, WENUM}
        for g in (st.heap.get((SELF, "_grouping")), st.heap.get((WRAP, "_grouping")), GRP, WGRP):
            if g is not None:
                e = st.heap.get((g, "_enum"))
                if e is not None:
                    out.add(e)
        return out

    def dict_kind(self, st, t):
        if t.op == "attr" and t.args[1] in ("_int_to_str_dict", "_str_to_int_dict") and (t.args[0] in self.live_enum(st) or t.args[0] is WRAP):
            return t.args[1]
        return None

    def ev(self, an, st, n, kind, *data):
        self.events.append((kind, an.stack[-1] if an.stack else None, n, st, data))

    @staticmethod
    def seq(st):
        """how many writes happened before (the marks of a state are a set: each write carries its place)"""
        return sum(1 for m in st.marks if isinstance(m, tuple))

    def code_write(self, an, st, n, idx, value):
        self.ev(an, st, n, "codes", idx, value)
        return st.mark("stale", "stalekeys", ("w", self.seq(st), idx, value))

    def now(self, st, t):
        """the codes as they are at this moment"""
        return mk("codesat", self.seq(st)) if self.codes(t) and t is not SELF else t

    def on_compare(self, an, st, n, op, a, b):
        a2, b2 = self.now(st, a), self.now(st, b)
        if (a2 is not a or b2 is not b) and op in ("==", "!=", "<", "<=", ">", ">="):
            t, neg = an.mk_cmp(op, a2, b2)
            return [(st, mk("not", t) if neg else t)]
        return None

    def on_binop(self, an, st, n, op, a, b):
        a2, b2 = self.now(st, a), self.now(st, b)
        if a2 is not a or b2 is not b:
            return [(st, mk("bin", op, a2, b2))]
        return None

    def on_getitem(self, an, st, n, base, idx):
        b2 = self.now(st, base)
        if b2 is not base:
            return [(st, mk("sub", b2, idx))]
        return None

    # ---- hooks
    def on_getattr(self, an, st, n, b, name):
        if name in self.mode and (b is SELF or b is WRAP or self.is_grp(st, b)):
            return [(st, C(self.mode[name]))]
        if b is SELF and name in ("_fa", "_np"):
            return [(st, CODES)]
        return None

    def inline(self, an, st, n, fn, args, kwargs):
        if not args:
            return False
        if fn.name in self.skip_inline:
            return False
        if fn.cls in (self.cat, self.cats):
            return (args[0] is SELF or args[0] is WRAP) and fn.qual in self.reach
        if fn.cls is self.grp:
            return fn.qual in self.reach
        return False

    skip_inline = ()
    lookups = True

    def on_call(self, an, st, n, f, args, kwargs):
        nm = None
        if f.op == "bm":
            nm = f.args[1].name
            recv = f.args[0]
            if self.lookups and nm in LOOKUPS and recv in (SELF, WRAP) and args:
                return [(st, mk("lookup", nm, self.seq(st), tuple(args)))]
            if nm == "set_dirty" and self.own_grp(st, recv):
                s = st.unmark("stale")
                s.heap = dict(s.heap)
                return [(s, NONE)]
            if nm == "copy" and self.is_grp(st, recv) and recv.op != "obj":
                g = mk("gcopy", recv, n)
                s = st.copy()
                s.types[g] = (frozenset([("exact", self.grp)]), frozenset())
                for fl in ("_enum", "_grouping_unique_dict", "_unique_count"):
                    v = st.heap.get((recv, fl))
                    v = v if v is not None else mk("attr", recv, fl)
                    s.heap[(g, fl)] = mk("ecopy", v, "mapedit" in st.marks) if fl == "_enum" else v
                return [(s, g)]
            if recv is SELF and nm == "__setitem__" and f.args[1].cls is not self.cat and len(args) >= 2:
                return [(self.code_write(an, st, n, args[0], args[1]), NONE)]
        elif f.op == "attr":
            nm = f.args[1]
            recv = f.args[0]
            if nm == "__setitem__" and recv.op == "extsuper" and len(args) >= 2:
                return [(self.code_write(an, st, n, args[0], args[1]), NONE)]
            if nm in ARR_MUT and self.codes(recv):
                return [(self.code_write(an, st, n, mk("all"), args[0] if args else mk("top", nm, ())), NONE)]
            k = self.dict_kind(st, recv)
            if k and nm in DICT_MUT:
                self.ev(an, st, n, "mapping", k, nm)
                s = st.mark("mapedit", "stale", "stalekeys")
                if nm == "pop" and args:
                    s = s.mark(("mdel", self.seq(st), k, args[0]))
                else:
                    s = s.mark(("mset", self.seq(st), k, mk("all"), mk("all")))
                return [(s, mk("call", f, tuple(args), ()))]
            if nm == "at" and args and self.codes(args[0]):
                return [(self.code_write(an, st, n, args[1], mk("top", "at", ())), NONE)]
        elif f.op == "ext" and f.args[0] in EXT_MUT0 and args and self.codes(args[0]):
            return [(self.code_write(an, st, n, args[1] if len(args) > 1 else mk("all"), args[-1]), NONE)]
        return None

    def on_setitem(self, an, st, n, base, idx, value):
        if base is not SELF and self.codes(base):
            return [self.code_write(an, st, n, idx, value)]
        k = self.dict_kind(st, base)
        if k:
            self.ev(an, st, n, "mapping", k, "set")
            return [st.mark("mapedit", "stale", "stalekeys", ("mset", self.seq(st), k, idx, value))]
        cur = st.heap.get((WRAP, "_list"), LIST0)
        if base is cur or base is LIST0:
            self.ev(an, st, n, "list", "element", idx, value)
            return [st.mark("listelem", "stale", "stalekeys", ("listelem", self.seq(st), idx, value))]
        if base.op == "call" and call_name(base) in FRESH:
            return [st.mark(("aset", self.seq(st), base, idx, value))]
        return None

    def on_delitem(self, an, st, n, base, idx):
        k = self.dict_kind(st, base)
        if k:
            self.ev(an, st, n, "mapping", k, "del")
            return [st.mark("mapedit", "stale", "stalekeys", ("mdel", self.seq(st), k, idx))]
        return None

    def on_setattr(self, an, st, n, base, name, value):
        if base is WRAP and name in STORAGE:
            self.ev(an, st, n, "list", name, value)
            s = st.mark("listedit", "stale", "stalekeys", ("list", self.seq(st), name, value)) if name in ("_list", "_column_dict") else st.mark("mapedit", "stale", "stalekeys", ("wrapmap", self.seq(st), name))
            s.heap = dict(s.heap)
            s.heap[(base, name)] = value
            return [s]
        if self.is_grp(st, base) and name in GSTORAGE:
            self.ev(an, st, n, "gstorage", name, value)
            s = st.copy()
            s.heap[(base, name)] = value
            if name == "_enum":
                if not (value in self.live_enum(st) or value.op == "ecopy"):
                    s = s.mark("mapedit", "stale", "stalekeys", ("newenum", self.seq(st), value))
            return [s]
        if base is SELF and name in ("_categories_wrap", "_grouping"):
            self.ev(an, st, n, "replace", name, value)
            s = st.mark("replaced" + name)
            s.heap = dict(s.heap)
            s.heap[(base, name)] = value
            if name == "_grouping" and value.op != "gcopy":
                s.marks = s.marks - {"stale"}
            return [s]
        if base is SELF and name == "_gb_keychain" and value is NONE:
            s = st.unmark("stalekeys")
            s.heap = dict(s.heap)
            s.heap[(base, name)] = value
            return [s]
        return None


def reach(prog):
    """qualified names of Categorical/Categories/Grouping methods from which codes or category storage can be written or reset, plus simple accessors"""
    cat, cats, grp = (prog.cls(x) for x in ("Categorical", "Categories", "Grouping"))
    fns = {}
    for c in (cat, cats, grp):
        for n, f in c.methods.items():
            fns[f.qual] = f
        for n, f in getattr(c, "setters", {}).items():
            fns[f.qual] = f
    byname = {}
    for q, f in fns.items():
        byname.setdefault(f.name, set()).add(q)
    seeds, uses = set(), {}
    for q, f in fns.items():
        u = set()
        hit = False
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute):
                u.add(x.attr)
                if isinstance(x.ctx, ast.Store) and x.attr in STORAGE | GSTORAGE | {"_gb_keychain"}:
                    hit = True
                if x.attr in ARR_MUT | {"set_dirty"}:
                    hit = True
                if x.attr == "__setitem__":
                    hit = True
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                hit = True
            elif isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)):
                nm = x.func.id if isinstance(x.func, ast.Name) else x.func.attr
                if nm in ("putmask", "copyto", "put", "place"):
                    hit = True
        if hit and f.cls is not grp:
            seeds.add(q)
        uses[q] = u
    out = set(seeds)
    names = {fns[q].name for q in out}
    ch = True
    while ch:
        ch = False
        for q, u in uses.items():
            if q not in out and fns[q].cls is not grp and u & names:
                out.add(q)
                names.add(fns[q].name)
                ch = True
    # accessors: short bodies that only return an expression
    acc = set()
    for q, f in fns.items():
        if straight(f.node, 200):
            acc.add(q)
    return out, acc, fns


SKIP = {"__new__", "__init__", "__init_subclass__", "__array_finalize__", "newclassfrominstance", "__del__"}


def analyse(prog, fn, mode, rset, locked=None, steps=60000, cond=None, types=None, lookups=True, selfterm=None):
    h = CatHooks(prog, mode)
    h.lookups = lookups
    if cond is not None:
        h.on_cond = cond
    h.reach = rset
    an = Interp(prog, h, max_steps=steps, max_depth=7, max_states=600)
    st = State()
    st.types[SELF] = (frozenset([("exact", h.cat)]), frozenset())
    st.types[WRAP] = (frozenset([("exact", h.cats)]), frozenset())
    st.types[GRP] = (frozenset([("exact", h.grp)]), frozenset())
    st.types[ENUM] = (frozenset([("exact", h.enum)]), frozenset())
    st.types[WGRP] = (frozenset([("exact", h.grp)]), frozenset())
    st.types[WENUM] = (frozenset([("exact", h.enum)]), frozenset())
    for k, v in (types or {}).items():
        st.types[mk("p", k)] = v
    if locked is not None:
        st.heap[(SELF, "_locked")] = C(locked)
    b = {}
    ps = fn.params()
    for i, q in enumerate(ps):
        b[q] = (selfterm or SELF) if i == 0 else mk("p", q)
    a = fn.node.args
    if a.vararg:
        b[a.vararg.arg] = mk("p", a.vararg.arg)
    if a.kwarg:
        b[a.kwarg.arg] = mk("p", a.kwarg.arg)
    try:
        outs = an.run_function(fn, b, st)
        return h, outs, True
    except Budget:
        return h, [], False


def public_methods(prog, rset):
    cat = prog.cls("Categorical")
    out = []
    for n, f in cat.methods.items():
        if n in SKIP or f.kind in ("static", "class") or not f.params():
            continue
        if n.startswith("_") and not n.startswith("__"):
            continue
        if f.qual in rset:
            out.append((n, f))
    for n, f in getattr(cat, "setters", {}).items():
        if f.qual in rset:
            out.append((n + ".setter", f))
    return out
