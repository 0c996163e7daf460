"""Interprocedural effect (MOD) and alias summaries.

For a function and a binding context (constant arguments, argument classes) the summary lists which parameters'
contents or state the function may write on some feasible path, with the write site, and which parameters the result
may share memory with.  Summaries are computed bottom-up on demand by the path-sensitive interpreter; calls are not
inlined but replaced by the callee's summary.  Aliasing is tracked only through constructs known to share memory
(the object itself, its views, its columns), so an effect is reported only where a write to shared memory is explicit.
"""
from __future__ import annotations

import ast

from .absint import NONE, Budget, C, Hooks, Interp, State, cval, is_const, mk
from .prog import straight
from .prog import AnalysisBroken, ClassInfo

SHARE_ATTR = {"_np", "_fa", "T", "real"}
SHARE_METH = {"view", "reshape", "ravel", "squeeze", "transpose", "swapaxes", "newbyteorder"}
COPY_METH = {"copy", "astype", "flatten", "tolist", "repeat", "take", "cumsum", "__add__"}
EXT_SHARE = {"numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.atleast_1d", "numpy.ravel", "numpy.squeeze", "numpy.reshape"}
ARR_MUT = {"sort", "fill", "resize", "partition", "put", "itemset", "setfield", "byteswap_"}
CONT_MUT = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "popitem", "reverse", "add", "discard", "sort"}
EXT_MUT0 = {"numpy.putmask", "numpy.put", "numpy.copyto", "numpy.place", "numpy.put_along_axis", "numpy.fill_diagonal", "random.shuffle", "numpy.random.shuffle"}
RC_MUT = {"PutMask": (0,), "SetItem": (0,), "BooleanSum": ()}
NAMED_MUT = {"col_rename", "col_remove", "col_move_to_front", "col_move_to_back", "col_add_prefix", "col_add_suffix", "col_map", "col_str_replace",
             "col_set_value", "col_replace_all", "sort_inplace", "footer_set_values", "set_timezone", "category_add", "category_remove", "category_replace"}
AUGM = {"__iadd__", "__isub__", "__imul__", "__itruediv__", "__ifloordiv__", "__imod__", "__ipow__", "__iand__", "__ior__", "__ixor__", "__ilshift__", "__irshift__"}


def hints_of(fn):
    """parameters declared to be arrays (annotation or the array-converting decorator)"""
    out = set()
    a = fn.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.annotation is not None:
            t = ast.unparse(x.annotation)
            if any(k in t for k in ("ndarray", "FastArray", "NDArray", "ArrayLike")) and not any(k in t for k in ("int,", "float,", "str,", "[int]", "Callable")):
                out.add(x.arg)
    for d in getattr(fn.node, "decorator_list", []):
        if isinstance(d, ast.Call) and "args_to_fast_arrays" in ast.unparse(d.func):
            out |= {y.value for y in d.args if isinstance(y, ast.Constant)}
    return out


class Effect:
    __slots__ = ("param", "kind", "what", "site", "chain", "coarse")

    def __init__(self, param, kind, what, site, chain, coarse=False):
        self.param, self.kind, self.what, self.site, self.chain, self.coarse = param, kind, what, site, chain, coarse

    def __repr__(self):
        return f"{self.param}:{self.kind}:{self.what} at {' > '.join(self.chain)}"


class Summary:
    def __init__(self):
        self.effects = {}
        self.ret = set()
        self.complete = True
        self.paths = 0
        self.steps = 0


class EffectHooks(Hooks):
    def __init__(self, ea, fn, summ, roots):
        self.ea, self.fn, self.summ = ea, fn, summ
        self.rootparams = roots  # term -> param name
        self.alias = {}
        self.hints = hints_of(fn)

    def inline(self, an, st, n, fn, args, kwargs):
        # only closures defined in the analysed function are executed in place
        if ".<locals>." in fn.qual or fn.name == "<lambda>":
            return True
        return self.ea.tiny(fn)

    # ---- types
    def is_array(self, an, st, t, d=0):
        if d > 8:
            return False
        if an.isinst(st, t, "ndarray") or an.isinst(st, t, "numpy.ndarray"):
            return True
        c = an.cls_of(st, t)
        if c is not None:
            return self.ea.arraylike(c)
        if t in self.rootparams and self.rootparams[t] in self.hints:
            return an.isinst(st, t, "ndarray") is not False
        if t.op == "attr" and t.args[1] in SHARE_ATTR:
            return True
        if t.op == "sub" and t.args[1].op == "slice":
            return self.is_array(an, st, t.args[0], d + 1)
        if t.op == "valof" or t.op == "sub" or t.op == "call" and t.args[0].op == "bm" and t.args[0].args[1].name in ("col_get_value", "__getitem__"):
            b = t.args[0] if t.op != "call" else t.args[0].args[0]
            c = an.cls_of(st, b)
            if c is not None and self.ea.structlike(c) and self.ea.struct_dataset(c):
                return t.op != "sub" or is_const(t.args[1]) and isinstance(cval(t.args[1]), str) or t.args[1].op in ("keyof",)
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in EXT_SHARE:
            return True
        if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in SHARE_METH:
            return self.is_array(an, st, t.args[0].args[0], d + 1)
        if t in self.alias:
            return any(self.is_array(an, st, x, d + 1) for x, how in self.alias[t])
        return False

    # ---- roots: {(param name, how)}
    def roots(self, an, st, t, d=0):
        if d > 10:
            return frozenset()
        if t in self.rootparams:
            return frozenset([(self.rootparams[t], "self")])
        if t in self.alias:
            out = set()
            for x, how in self.alias[t]:
                for p, h in self.roots(an, st, x, d + 1):
                    out.add((p, how if h == "self" else ("reach" if "reach" in (h, how) else h)))
            return frozenset(out)
        if t.op == "attr":
            r = self.roots(an, st, t.args[0], d + 1)
            if not r:
                return r
            if t.args[1] in SHARE_ATTR and self.is_array(an, st, t.args[0]):
                return frozenset((p, "mem" if h == "self" else h) for p, h in r)
            return frozenset((p, "reach") for p, h in r)
        if t.op == "sub":
            b, i = t.args
            r = self.roots(an, st, b, d + 1)
            if not r:
                return r
            c = an.cls_of(st, b)
            if i.op == "slice" and self.is_array(an, st, b):
                return frozenset((p, "mem" if h == "self" else h) for p, h in r)
            if c is not None and self.ea.structlike(c):
                if is_const(i) and isinstance(cval(i), str) or i.op == "keyof" or i.op == "iter":
                    return frozenset((p, "reach") for p, h in r)
                return frozenset()
            if self.is_array(an, st, b):
                return frozenset()
            if not (is_const(i) and isinstance(cval(i), (int, str)) or i.op in ("idx", "keyof", "iter")):
                return frozenset()
            return frozenset((p, "reach") for p, h in r)
        if t.op in ("iter", "valof"):
            b = t.args[0]
            r = self.roots(an, st, b, d + 1)
            if not r:
                return r
            c = an.cls_of(st, b)
            if t.op == "iter" and (self.is_array(an, st, b) or c is not None and self.ea.structlike(c)):
                return frozenset()
            return frozenset((p, "reach") for p, h in r)
        if t.op == "call":
            f = t.args[0]
            if f.op == "ext" and f.args[0] in EXT_SHARE and t.args[1]:
                return frozenset((p, "mem" if h == "self" else h) for p, h in self.roots(an, st, t.args[1][0], d + 1))
            if f.op == "ext" and f.args[0] == "builtins.getattr" and len(t.args[1]) >= 2:
                c = an.cls_of(st, t.args[1][0])
                if c is not None and self.ea.structlike(c):
                    return frozenset((p, "reach") for p, h in self.roots(an, st, t.args[1][0], d + 1))
            if f.op == "attr" and f.args[1] in SHARE_METH:
                if self.is_array(an, st, f.args[0]):
                    return frozenset((p, "mem" if h == "self" else h) for p, h in self.roots(an, st, f.args[0], d + 1))
            if f.op == "attr" and f.args[0].op == "extsuper" and f.args[1] in SHARE_METH:
                return frozenset((p, "mem") for p, h in self.roots(an, st, f.args[0].args[0], d + 1))
        return frozenset()

    # ---- recording
    def add(self, an, st, n, param, kind, what, chain=None, coarse=False):
        k = (param, kind, what if kind == "attr" else "")
        old = self.summ.effects.get(k)
        if old is None or old.coarse and not coarse:
            fn = an.stack[-1] if an.stack else self.fn
            here = f"{fn.qual.replace('riptable.', '')}:{getattr(n, 'lineno', '?')}"
            self.summ.effects[k] = Effect(param, kind, what, (fn, n), [here] + (chain or []), coarse)

    def write(self, an, st, n, t, what, chain=None):
        for p, h in self.roots(an, st, t):
            self.add(an, st, n, p, "content", what, chain)

    def on_setattr(self, an, st, n, base, name, value):
        for p, h in self.roots(an, st, base):
            if h == "self":
                c = an.cls_of(st, base)
                if c is not None and self.ea.structlike(c) and not name.startswith("_"):
                    if c.find_setter(name) is None:
                        self.add(an, st, n, p, "content", f"assigns element {name}")
                        continue
                self.add(an, st, n, p, "attr", name)
        return None

    def on_setitem(self, an, st, n, base, idx, value):
        # x[i] = x[i] re-stores are writes as well; local objects have no roots
        self.write(an, st, n, base, "item assignment")
        if base.op == "obj":
            return None
        s = st.copy()
        return [s]

    def on_delitem(self, an, st, n, base, idx):
        self.write(an, st, n, base, "item deletion")
        return None

    def on_delattr(self, an, st, n, base, name):
        for p, h in self.roots(an, st, base):
            if h == "self":
                self.add(an, st, n, p, "attr", name)
        return None

    def on_aug(self, an, st, n, target, op, a, b):
        if isinstance(target, ast.Name) and self.roots(an, st, a):
            if self.is_array(an, st, a) or an.isinst(st, a, "list"):
                self.write(an, st, n, a, f"in-place {op}=")
                return [(st, a)]
        return None

    # ---- calls
    def apply(self, an, st, n, fn, args, kwargs):
        ctx = self.ea.context(an, st, fn, args, kwargs, n)
        if ctx is None:
            return None
        bind, consts, types = ctx
        su = self.ea.summary(fn, consts, types)
        for e in su.effects.values():
            a = bind.get(e.param)
            if a is None:
                continue
            for p, h in self.roots(an, st, a):
                if e.kind == "content":
                    self.add(an, st, n, p, "content", e.what, e.chain, e.coarse)
                elif h == "self":
                    self.add(an, st, n, p, "attr", e.what, e.chain, e.coarse)
        al = []
        for p, how in su.ret:
            a = bind.get(p)
            if a is not None and self.roots(an, st, a):
                al.append((a, how))
        return al

    def on_call(self, an, st, n, f, args, kwargs):
        out = kwargs.get("out")
        if out is not None and out.op == "tup" and len(out.args) == 1:
            out = out.args[0]
        fn, full = None, list(args)
        if f.op == "fn":
            fn = f.args[0]
        elif f.op == "bm":
            fn, full = f.args[1], [f.args[0]] + full
        if fn is not None:
            if ".<locals>." in fn.qual or self.ea.tiny(fn):
                return None
            al = self.apply(an, st, n, fn, full, kwargs)
            if fn.kind in ("method", "property") and full:
                t = mk("call", mk("bm", full[0], fn), tuple(full[1:]), tuple(sorted(kwargs.items())))
            else:
                t = an.call_term(mk("fn", fn), full, kwargs)
            if al:
                self.alias[t] = al
            return [(st, t)]
        if out is not None and f.op in ("ext", "attr"):
            self.write(an, st, n, out, "out= argument")
        if f.op == "ext":
            nm = f.args[0]
            if nm in EXT_MUT0 and args:
                self.write(an, st, n, args[0], nm)
            if nm.split(".")[0] == "riptide_cpp" and nm.split(".")[-1] in RC_MUT:
                for i in RC_MUT[nm.split(".")[-1]]:
                    if i < len(args):
                        self.write(an, st, n, args[i], nm)
            if nm == "builtins.setattr" and len(args) == 3:
                an2 = cval(args[1]) if is_const(args[1]) else "?"
                for p, h in self.roots(an, st, args[0]):
                    if h == "self":
                        c = an.cls_of(st, args[0])
                        if c is not None and self.ea.structlike(c) and (an2 == "?" or not str(an2).startswith("_")):
                            self.add(an, st, n, p, "content", "assigns an element")
                        else:
                            self.add(an, st, n, p, "attr", an2)
                if is_const(args[1]):
                    s = st.copy()
                    s.heap[(args[0], an2)] = args[2]
                    return [(s, NONE)]
                return [(st, NONE)]
            if nm.startswith("numpy.") and len(args) > 2 and nm.split(".")[-1] in ("add", "subtract", "multiply", "divide", "true_divide", "maximum", "minimum", "bitwise_and", "bitwise_or", "logical_and", "logical_or"):
                self.write(an, st, n, args[2], "out argument")
            return None
        if f.op == "attr":
            b, nm = f.args
            if b.op == "obj":
                return None
            c = an.cls_of(st, b)
            r = self.roots(an, st, b)
            if r:
                if b.op == "attr" and b.args[1] == "_all_items":
                    if nm in self.ea.item_muts:
                        for p, h in self.roots(an, st, b.args[0]):
                            self.add(an, st, n, p, "content", f"element container {nm}")
                    if nm in ("items", "values", "keys"):
                        return None
                elif nm in ARR_MUT and self.is_array(an, st, b) or nm in AUGM and self.is_array(an, st, b):
                    self.write(an, st, n, b, f"{nm}()")
                elif c is None and nm in NAMED_MUT or is_const(kwargs.get("inplace", NONE)) and cval(kwargs.get("inplace", NONE)) is True:
                    self.write(an, st, n, b, f"{nm}()")
                elif nm in CONT_MUT and not self.is_array(an, st, b) and c is None:
                    # containers: lists, dicts and sets given by the caller (owned **kwargs are local objects)
                    direct = any(h == "self" for p, h in r)
                    if direct:
                        self.write(an, st, n, b, f"{nm}()")
            if b.op == "extsuper" and nm in ("__setitem__",) + tuple(AUGM) + tuple(ARR_MUT):
                self.write(an, st, n, b.args[0], nm)
            return None
        if f.op == "cls":
            c = f.args[0]
            if an.is_enum_class(c):
                return None
            t = mk("inst", c, tuple(args), tuple(sorted(kwargs.items())))
            if self.ea.arraylike(c) and args and self.is_array(an, st, args[0]):
                self.alias[t] = [(args[0], "mem")] if self.ea.shares_ctor(c) else []
            return [(st, t)]
        return None


class EffectAnalysis:
    def __init__(self, prog, item_muts=(), max_steps=20000, max_depth=14, max_ctx=80):
        self.prog = prog
        self.item_muts = set(item_muts)
        self.memo = {}
        self.active = set()
        self.nctx = {}
        self.heavy = set()
        self.max_steps = max_steps
        self.max_depth = max_depth
        self.max_ctx = max_ctx
        self.struct = prog.cls("Struct")
        self.dataset = prog.cls("Dataset")
        self.budget_hit = set()

    def arraylike(self, c):
        return any(isinstance(k, str) and k.split(".")[-1] == "ndarray" for k in c.mro)

    def structlike(self, c):
        return self.struct in c.mro

    def tiny(self, fn):
        """single-expression helpers (predicates, accessors) are evaluated in place so that branch facts survive"""
        return straight(fn.node, 60)

    def struct_dataset(self, c):
        return self.dataset in c.mro

    def shares_ctor(self, c):
        return c.name == "FastArray"

    def context(self, an, st, fn, args, kwargs, n):
        if fn.is_generator() or fn.module.name.endswith("rt_display"):
            return None
        bind = an.bind(st, fn, args, kwargs, n)
        if bind is None:
            return None
        bind.pop("__state__", None)
        consts, types = [], []
        for p, v in bind.items():
            if is_const(v) or v.op in ("fn", "cls", "enum", "ext"):
                consts.append((p, v))
            else:
                pos, neg = an.type_of(st, v)
                pos = frozenset(x for x in pos if x[0] in ("exact", "is", "oneof"))
                if an.cls_of(st, v) is None and not pos and v.op == "attr" and v.args[1] in SHARE_ATTR:
                    pos = frozenset([("is", "ndarray")])
                if pos or neg:
                    types.append((p, (pos, neg)))
        return bind, tuple(sorted(consts, key=lambda x: x[0])), tuple(sorted(types, key=lambda x: x[0]))

    def summary(self, fn, consts=(), types=()) -> Summary:
        key = (fn.qual, fn.node.lineno, consts, types)
        r = self.memo.get(key)
        if r is not None:
            return r
        if key in self.active or len(self.active) > self.max_depth or sum(1 for k in self.active if k[0] == fn.qual) >= 2:
            s = Summary()
            s.complete = False
            return s
        if self.nctx.get(fn.qual, 0) > 12 or fn.qual in self.heavy:
            # many contexts: a context-free summary (only boolean constants kept) without effects serves them all
            k2 = tuple((p, v) for p, v in consts if is_const(v) and isinstance(cval(v), bool))
            t2 = tuple(t for t in types if t[0] in ("self",))
            key2 = (fn.qual, fn.node.lineno, k2, t2)
            if key2 != key:
                r = self.summary(fn, k2, t2)
                if not r.effects and not r.ret:
                    self.memo[key] = r
                    return r
                if self.nctx.get(fn.qual, 0) > self.max_ctx:
                    s = Summary()
                    s.complete, s.paths = r.complete, r.paths
                    for k, e in r.effects.items():
                        s.effects[k] = Effect(e.param, e.kind, e.what, e.site, e.chain, True)
                    self.memo[key] = s
                    return s
        self.active.add(key)
        self.nctx[fn.qual] = self.nctx.get(fn.qual, 0) + 1
        try:
            s = self.memo[key] = self._compute(fn, dict(consts), dict(types))
            if s.steps > 4000:
                self.heavy.add(fn.qual)
        finally:
            self.active.discard(key)
        return s

    def _compute(self, fn, consts, types):
        s = Summary()
        st = State()
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        roots, bind = {}, {}
        for q in names:
            if q in consts:
                bind[q] = consts[q]
                continue
            t = mk("p", q)
            bind[q] = t
            roots[t] = q
            if q in types:
                st.types[t] = types[q]
        if a.vararg:
            t = bind[a.vararg.arg] = consts.get(a.vararg.arg, mk("p", a.vararg.arg))
            st.types[t] = (frozenset([("exact", "tuple")]), frozenset())
            if t.op == "p":
                roots[t] = a.vararg.arg
        h = EffectHooks(self, fn, s, roots)
        an = Interp(self.prog, h, max_steps=self.max_steps, max_depth=6)
        if a.kwarg:
            # ** parameters are a fresh dictionary of the callee
            o = an.new_obj(st, "dict", fn.node)
            st.heap[("content", o)] = ("dict", (), mk("p", a.kwarg.arg))
            bind[a.kwarg.arg] = o
        try:
            outs = an.run_function(fn, bind, st)
        except Budget:
            self.budget_hit.add(fn.qual)
            s.complete = False
            s.steps = an.steps
            return s
        except (AnalysisBroken, RecursionError) as e:
            self.budget_hit.add(fn.qual)
            s.complete = False
            return s
        s.paths = len(outs)
        s.steps = an.steps
        for o in outs:
            if o.kind == "return" and o.value is not None:
                for p, how in h.roots(an, o.state, o.value):
                    s.ret.add((p, how))
        return s
