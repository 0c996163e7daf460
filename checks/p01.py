"""P01: a locked Struct / Dataset / Multiset refuses structural change."""
import ast

from sa.absint import Budget, C, Hooks, Interp, State, cval, is_const, mk, show
from .dt_common import _defaults, call_name

FAMILY = ("Struct", "Dataset", "Multiset", "PDataset")
# container methods that keep the set, order, names and identity of the elements (they write into contained arrays or attributes)
CONTENT = {"apply", "_set_attribute", "item_set_attribute", "footer_set_value", "label_set_names", "label_remove",
           "summary_set_names", "summary_remove", "_tagged_set_names", "_tagged_remove"}
MUT = {"clear", "pop", "update", "setdefault", "popitem"}


def structural(prog):
    """methods of the item container that may add, remove, rename, reorder or reassign elements"""
    c = prog.cls("ItemContainer")
    direct, calls = set(), {}
    for name, f in c.methods.items():
        selfn = f.params()[0] if f.params() else None
        alias = {selfn + "._items"} if selfn else set()
        selfs = {selfn}
        for _ in range(3):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in selfs:
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            selfs.add(t.id)
                            alias.add(t.id + "._items")
                if isinstance(n, ast.Assign) and ast.unparse(n.value) in alias:
                    alias |= {ast.unparse(t) for t in n.targets}
        calls[name] = set()
        elem = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.For):
                src = ast.unparse(n.iter)
                if any(src.startswith(a + ".values") or src.startswith(a + ".items") for a in alias):
                    elem |= {ast.unparse(t) for t in ast.walk(n.target) if isinstance(t, ast.Name)}
        elem -= {t.id for n in ast.walk(f.node) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                base = n.value
                txt = ast.unparse(n)
                if txt in alias:
                    direct.add(name)
                while isinstance(base, ast.Subscript):
                    base = base.value
                if isinstance(n, ast.Subscript) and (ast.unparse(base) in alias or ast.unparse(base) in elem):
                    direct.add(name)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                r = ast.unparse(n.func.value)
                if r in alias and n.func.attr in MUT:
                    direct.add(name)
                if r in selfs:
                    calls[name].add(n.func.attr)
    out = set(direct)
    ch = True
    while ch:
        ch = False
        for n, cs in calls.items():
            if n not in out and cs & (out - CONTENT):
                out.add(n)
                ch = True
    return out - CONTENT - {"__init__"}, c


def lock_users(prog, fam):
    """names of family methods that read the lock, directly or through another method"""
    uses = {}
    for c in fam:
        for n, f in c.methods.items():
            uses.setdefault(n, set()).update(x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute))
    out = {"_locked", "is_locked"}
    ch = True
    while ch:
        ch = False
        for n, u in uses.items():
            if n not in out and not n.startswith("__") and (n.startswith("_") or n.endswith("lock") or n.endswith("locked")) and u & out:
                out.add(n)
                ch = True
    return out | {n for n, u in uses.items() if u & {"_locked", "is_locked"}}


class LockHooks(Hooks):
    def __init__(self, prog, muts, ic, fam, reach, lock):
        self.lock = lock
        self.prog, self.muts, self.ic, self.fam, self.reach = prog, muts, ic, fam, reach
        self.events = []
        self.sv = mk("p", "self")

    def _mine(self, st, t):
        """is t the element container of self?"""
        return t.op == "attr" and t.args[0] is self.sv and t.args[1] == "_all_items"

    def inline(self, an, st, n, fn, args, kwargs):
        if fn.cls is not None and fn.cls in self.fam:
            return bool(args) and args[0] is self.sv and (fn.name in self.reach or fn.name in self.lock)
        return bool(args) and any(a is self.sv for a in args) and fn.cls is None and any(fn.module is c.module for c in self.fam)

    def event(self, an, st, n, what):
        if st.heap.get((self.sv, "_locked")) is C(True):
            self.events.append((what, an.stack[-1] if an.stack else None, n, st.trace_list(12)))

    def on_call(self, an, st, n, f, args, kwargs):
        if f.op in ("bm", "attr") and self._mine(st, f.args[0]):
            nm = f.args[1].name if f.op == "bm" else f.args[1]
            if nm in self.muts:
                self.event(an, st, n, nm)
            return [(st, an.call_term(mk("attr", f.args[0], nm), args, kwargs))]
        if f.op in ("bm", "attr") and f.args[0].op == "attr" and f.args[0].args[1] == "_items" and self._mine(st, f.args[0].args[0]):
            nm = f.args[1] if f.op == "attr" else f.args[1].name
            if nm in MUT:
                self.event(an, st, n, nm)
            return None
        if f.op == "ext" and f.args[0] == "builtins.setattr" and len(args) == 3 and args[0] is self.sv and not is_const(args[1]):
            sa = an.cls_of(st, self.sv).find("__setattr__")
            if sa is not None:
                return an.call_fn(st, n, sa, list(args), {}, None)
        if f.op == "ext" and f.args[0] == "builtins.delattr" and len(args) == 2 and args[0] is self.sv:
            sa = an.cls_of(st, self.sv).find("__delattr__")
            if sa is not None:
                return an.call_fn(st, n, sa, list(args), {}, None)
        if f.op == "ext" and f.args[0] == "builtins.hasattr" and args and args[0] is self.sv and is_const(args[1]) and cval(args[1]) == "_locked":
            return [(st, C(True))]
        return None

    def on_setattr(self, an, st, n, base, name, value):
        if base is self.sv:
            if name == "_all_items":
                self.event(an, st, n, "replaces the element container")
            if not name.startswith("_"):
                c = an.cls_of(st, base)
                if c.find_setter(name) is None:
                    sa = c.find("__setattr__")
                    if sa is not None:
                        return [s for s, _ in an.call_fn(st, n, sa, [base, C(name), value], {}, None)]
        elif name == "_items" and self._mine(st, base):
            self.event(an, st, n, "replaces the element dictionary")
        return None

    def on_setitem(self, an, st, n, base, idx, value):
        if base.op == "attr" and base.args[1] == "_items" and self._mine(st, base.args[0]) or self._mine(st, base):
            self.event(an, st, n, "stores an element")
        return None

    def on_delitem(self, an, st, n, base, idx):
        if base.op == "attr" and base.args[1] == "_items" and self._mine(st, base.args[0]) or self._mine(st, base):
            self.event(an, st, n, "deletes an element")
        elif base is self.sv:
            sa = an.cls_of(st, self.sv).find("__delitem__")
            if sa is not None:
                return [s for s, _ in an.call_fn(st, n, sa, [base, idx], {}, None)]
        return None

    def on_delattr(self, an, st, n, base, name):
        if base is self.sv:
            sa = an.cls_of(st, self.sv).find("__delattr__")
            if sa is not None:
                return [s for s, _ in an.call_fn(st, n, sa, [base, C(name)], {}, None)]
        return None


SKIP = {"__init__", "__exit__", "__enter__", "__new__", "__init_subclass__"}


def unalias(node, al):
    """source text of node with local aliases of self and of its element container replaced"""
    b = node
    while isinstance(b, (ast.Attribute, ast.Subscript)):
        b = b.value
    t = ast.unparse(node)
    if isinstance(b, ast.Name) and b.id in al:
        t = al[b.id] + t[len(b.id):]
    return t


def reach(prog, fam, muts):
    """names of family methods from which a structural mutation of self is syntactically reachable"""
    names = {}
    for c in fam:
        for n, f in c.methods.items():
            names.setdefault(n, []).append(f)
    seeds = set()
    uses = {}
    for n, fs in names.items():
        u = set()
        for f in fs:
            ps = f.params()
            if not ps:
                continue
            s = ps[0]
            al = {}
            for _ in range(3):
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Assign) and isinstance(x.value, (ast.Name, ast.Attribute)):
                        v = unalias(x.value, al)
                        if v == s or v.startswith(s + "._all_items"):
                            for t in x.targets:
                                if isinstance(t, ast.Name) and t.id != s:
                                    al[t.id] = v
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute):
                    t = unalias(x.value, al)
                    if t == s:
                        u.add(x.attr)
                        if isinstance(x.ctx, ast.Store) and not x.attr.startswith("_"):
                            u.add("__setattr__")
                        if isinstance(x.ctx, ast.Store) and x.attr == "_all_items":
                            seeds.add(n)
                        if isinstance(x.ctx, ast.Del):
                            u.add("__delattr__")
                    elif t == "super()":
                        u.add(x.attr)
                    elif t.startswith(s + "._all_items") and (x.attr in muts or x.attr in MUT or isinstance(x.ctx, (ast.Store, ast.Del))):
                        seeds.add(n)
                elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    t = unalias(x.value, al)
                    if t == s:
                        u.add("__setitem__" if isinstance(x.ctx, ast.Store) else "__delitem__")
                    elif t.startswith(s + "._all_items"):
                        seeds.add(n)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                    if x.func.id == "setattr" and x.args and unalias(x.args[0], al) == s:
                        u.add("__setattr__")
                    elif any(unalias(a, al) == s for a in x.args) and x.func.id not in ("isinstance", "len", "type", "hasattr", "getattr", "list", "set", "repr",
                                                                                        "str", "id", "iter", "zip", "enumerate", "super", "callable"):
                        u.add("?" + x.func.id)
        uses[n] = u
    out = set(seeds)
    ch = True
    while ch:
        ch = False
        for n, u in uses.items():
            if n not in out and u & out:
                out.add(n)
                ch = True
    return out


def run(prog, rep):
    rep.rule("LOCKED", "in a locked container no path of a public method reaches a write of the element dictionary (add, remove, rename, reorder, reassign)")
    rep.rule("REFUSE", "the named mutators raise on every path of a locked container that would have changed it")
    rep.assume("writing into a contained array and element attributes are not structural change; "
               "code that unlocks the object first acts on an unlocked object")
    muts, ic = structural(prog)
    rep.counts["structural container methods"] = len(muts)
    rep.floor("P01 structural container methods", len(muts), 8)
    fam = [prog.cls(c) for c in FAMILY]
    rs = reach(prog, fam, muts)
    lk = lock_users(prog, fam)
    n = dec = 0
    refused = set()
    for c in fam:
        seen = set()
        for k in c.mro:
            for name, f in getattr(k, "methods", {}).items():
                if name in seen or k not in fam:
                    continue
                seen.add(name)
                if name in SKIP or (name.startswith("_") and not name.startswith("__")) or f.kind in ("static", "class") or name not in rs:
                    continue
                n += 1
                con = f"{c.name}.{name}"
                h = LockHooks(prog, muts, ic, fam, rs, lk)
                an = Interp(prog, h, max_steps=60000, max_depth=7)
                an.max_recursion = 2
                st = State()
                sv = h.sv
                st.types[sv] = (frozenset([("exact", c)]), frozenset())
                st.heap[(sv, "_locked")] = C(True)
                b = {}
                ps = f.params()
                for i, q in enumerate(ps):
                    b[q] = sv if i == 0 else mk("p", q)
                a = f.node.args
                if a.vararg:
                    b[a.vararg.arg] = mk("p", a.vararg.arg)
                if a.kwarg:
                    b[a.kwarg.arg] = mk("p", a.kwarg.arg)
                try:
                    outs = an.run_function(f, b, st)
                except Budget:
                    outs = []
                    if not h.events:
                        rep.undecide("LOCKED", con, "path budget")
                rep.analysed(f)
                rep.paths += len(outs)
                dec += 1
                msg = ""
                if h.events:
                    what, fn, node, tr = h.events[0]
                    msg = f"{what} in {fn.qual if fn else '?'} line {getattr(node, 'lineno', '?')} is reachable on a locked object: " + " > ".join(tr[-5:])
                rep.ob("LOCKED", con, not h.events, msg, f.loc)
                if outs and any(o.kind == "raise" for o in outs):
                    refused.add(name)
    rep.counts["methods that can reach a structural write"] = n
    rep.counts["refusing"] = len(refused)
    rep.floor("P01 analysed methods", dec, 20)
    for m in ("__setattr__", "__delattr__", "col_rename", "col_remove"):
        rep.ob("REFUSE", m, m in refused, f"{m} never raises on a locked object", "")
