"""P26: joins over finite Datasets: keys are a few equal or different values, every other cell is an opaque token."""
import ast

from sa.absint import Budget, C, NONE, Outcome, cval, is_const, mk, show

from .ds_model import DSHooks, DSInterp, INV, State, Unk, call_method
from .fin import Dt, FEv, vals
from .gb_model import broadcast, call_name, gather, is_arr, pack
from .p17 import Lit, arr, check, lst, say, tup

UNINIT = ("uninitialised",)
LEFT, RIGHT = mk("p", "LEFT"), mk("p", "RIGHT")
DT = mk("p", "DTYPE")


def rel(op):
    f = {"<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y}[op]

    def g(x, y):
        if x == INV or y == INV:
            return False
        if not isinstance(x, (int, float)) or not isinstance(y, (int, float)):
            raise Unk("order of opaque cells")
        return f(x, y)
    return g


class JEv(FEv):
    def ev(self, st, t):
        if t.op == "cmp" and t.args[0] in ("<", "<=", ">", ">=") and t not in self.env:
            a, b = self.arr(self.ev(st, t.args[1])), self.arr(self.ev(st, t.args[2]))
            if is_arr(a) or is_arr(b):
                return broadcast(rel(t.args[0]), a, b)
        return super().ev(st, t)

    def call(self, st, t):
        f, args, kw = t.args[0], list(t.args[1]), dict(t.args[2])
        nm = call_name(f)
        if f.op == "bm" or f.op == "attr" and f.args[0].op not in ("ext", "mod"):
            args = [f.args[0]] + args
        n = len(args)
        A = lambda i: self.arr(self.ev(st, args[i]))
        kw.pop("dtype", None)
        if nm in ("prange", "range") and n:
            vs = [self.ev(st, a) for a in args]
            if all(isinstance(v, int) for v in vs):
                return list(range(*vs))
            raise Unk(nm)
        if nm == "isnotnan" and n == 1:
            v = A(0)
            if is_arr(v):
                return [x != INV for x in v]
            return v != INV
        if nm == "isnan" and n == 1:
            v = A(0)
            if is_arr(v):
                return [x == INV for x in v]
        if nm in ("sum", "nansum") and n == 1 and not kw:
            v = A(0)
            if is_arr(v) and all(isinstance(x, int) for x in v):
                return sum(v)
            raise Unk(nm)
        if nm == "cumsum" and n == 1 and not kw:
            v = A(0)
            if is_arr(v) and all(isinstance(x, int) for x in v):
                out, s = [], 0
                for x in v:
                    s += x
                    out.append(s)
                return out
            raise Unk(nm)
        if nm in ("max", "min") and n == 1:
            v = A(0)
            if is_arr(v) and all(isinstance(x, int) for x in v):
                ini = [self.ev(st, kw["initial"])] if "initial" in kw else []
                if v or ini:
                    return {"max": max, "min": min}[nm](v + ini)
            raise Unk(nm)
        if nm == "empty" and n >= 1:
            m = self.ev(st, args[0])
            m = m[0] if isinstance(m, tuple) and len(m) == 1 else m
            if isinstance(m, int):
                return [UNINIT] * m
            raise Unk(nm)
        if nm in ("empty_like", "full_like", "zeros_like", "ones_like") and n >= 1:
            v = A(0)
            if is_arr(v):
                return [{"empty_like": UNINIT, "zeros_like": 0, "ones_like": 1}.get(nm) if nm != "full_like" else self.ev(st, args[1])] * len(v)
            raise Unk(nm)
        if nm == "full" and n >= 2:
            m = self.ev(st, args[0])
            m = m[0] if isinstance(m, tuple) and len(m) == 1 else m
            if isinstance(m, int):
                return [self.ev(st, args[1])] * m
            raise Unk(nm)
        if nm == "unique" and n == 1:
            v = A(0)
            s = self.ev(st, kw["sorted"]) if "sorted" in kw else True
            if is_arr(v) and all(isinstance(x, int) for x in v):
                u = list(dict.fromkeys(v))
                return sorted(u) if s else u
            raise Unk(nm)
        if nm == "issorted" and n == 1:
            v = A(0)
            if is_arr(v) and all(isinstance(x, int) for x in v):
                return all(a <= b for a, b in zip(v, v[1:]))
            raise Unk(nm)
        if nm == "argsort" and n == 1:
            v = A(0)
            if is_arr(v) and all(isinstance(x, int) for x in v):
                return sorted(range(len(v)), key=lambda i: v[i])
            raise Unk(nm)
        if nm in ("abs", "absolute") and n == 1:
            v = A(0)
            if is_arr(v):
                return [x if x == INV else abs(x) for x in v]
        if nm == "where" and n == 3 and isinstance(A(0), bool):
            return A(1) if A(0) else A(2)
        if nm in ("maximum", "minimum") and n == 2:
            return broadcast(lambda x, y: (max if nm == "maximum" else min)(x, y), A(0), A(1))
        return super().call(st, t)


class JHooks(DSHooks):
    def __init__(self, prog):
        super().__init__(prog)
        self.e = JEv()
        self.e.env[DT] = Dt("l")
        self.groups = {}
        self.caps = {}
        self.narrow = []
        self.gcls = prog.cls("Grouping")

    # ---- integer widths: a type chosen for numbers up to n holds nothing above n
    def cap(self, v):
        t = mk("cap", v)
        self.caps[t] = v
        self.e.env[t] = Dt("l")
        return t

    def width(self, st, n, t):
        c = st.heap.get(("cap", t))
        if c is None:
            return
        try:
            v = self.vals(st, t)
        except (Unk, TypeError):
            return
        big = [x for x in v if isinstance(x, int) and not isinstance(x, bool) and x > max(cval(c), 0)]
        if big:
            self.narrow.append((max(big), cval(c)))

    # ---- primitives
    def vals(self, st, t):
        return self.e.arr(self.e.ev(st, t))

    def keys_of(self, st, an, t):
        """rows of a key (array, or tuple/list of arrays) as a list of tuples"""
        if self.is_array(st, t):
            return [(x,) for x in self.vals(st, t)]
        e = an.known_elts(st, t)
        if e is None:
            raise Unk("keys")
        return list(zip(*[self.vals(st, x) for x in e])) if e else []

    def tok(self, st, v, tag="j"):
        return self.token(st, v, tag)

    def tupl(self, st, vs):
        ts = []
        for v in vs:
            st, t = self.tok(st, v)
            ts.append(t)
        return [(st, mk("tup", *ts))]

    def member(self, a, b):
        pos = {}
        for j, k in enumerate(b):
            pos.setdefault(k, j)  # as for integers and several keys: a missing value equals itself
        idx = [pos.get(k, INV) for k in a]
        return [i != INV for i in idx], idx

    def grouping(self, an, st, n, args, kwargs):
        keys = self.keys_of(st, an, args[0])
        flt = kwargs.get("filter", NONE)
        mask = [True] * len(keys) if flt is NONE else self.vals(st, flt)
        e = an.known_elts(st, args[0]) if not self.is_array(st, args[0]) else [args[0]]
        uniq = list(dict.fromkeys(k for k, m in zip(keys, mask) if m))
        lex = kwargs.get("lex", C(False))
        if lex.op != "c":
            raise Unk("lex")
        if cval(lex):
            uniq = sorted(uniq, key=str)
        ik = [uniq.index(k) + 1 if m else 0 for k, m in zip(keys, mask)]
        ig, first, cnt = pack(ik, len(uniq) + 1)
        self.created += 1
        g = mk("p", f"GRP#{self.created}")
        s = st.copy()
        s.types[g] = (frozenset([("exact", self.gcls)]), frozenset())
        f = {}
        for nm, v in (("ikey", ik), ("igroup", ig), ("ifirstgroup", first), ("ncountgroup", cnt), ("ncountkey", cnt[1:]),
                      ("ifirstkey", [ik.index(b + 1) for b in range(len(uniq))]), ("ilastkey", [max(i for i, x in enumerate(ik) if x == b + 1) for b in range(len(uniq))])):
            s, t = self.tok(s, v, nm)
            f[nm] = t
        items = []
        for c in range(len(e)):
            s, t = self.tok(s, [k[c] for k in uniq], "gbkey")
            items.append((C(f"key_{c}"), t))
        s = s.copy()
        o = an.new_obj(s, "dict", n)
        s.heap[("content", o)] = ("dict", tuple(items), None)
        f.update(gbkeys=o, uniquedict=o, unique_count=C(len(uniq)), base_index=C(1))
        for nm in list(f):
            if nm[0] == "i" and nm != "ikey":
                f["iKey" if nm == "ikey" else nm] = f[nm]
        self.groups[g] = f
        return [(s, g)]

    def record(self, an, st, cls, args, kwargs):
        s = st.copy()
        self.created += 1
        r = mk("p", f"{cls.name}#{self.created}")
        s.types[r] = (frozenset([("exact", cls)]), frozenset())
        fields = [b for b in cls.node.body if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name)]
        for i, b in enumerate(fields):
            if i < len(args):
                v = args[i]
            elif b.target.id in kwargs:
                v = kwargs[b.target.id]
            elif isinstance(b.value, ast.Constant):
                v = C(b.value.value)
            else:
                return None
            s.heap[(r, b.target.id)] = v
        return [(s, r)]

    def asof(self, an, st, n, args, kw):
        names = ["key1", "key2", "time1", "time2", "direction", "allow_exact_matches", "verbose"]
        b = dict(zip(names, args))
        b.update(kw)
        k1, k2 = self.keys_of(st, an, b["key1"]), self.keys_of(st, an, b["key2"])
        t1, t2 = self.vals(st, b["time1"]), self.vals(st, b["time2"])
        d = b.get("direction", C("backward"))
        x = b.get("allow_exact_matches", C(True))
        if d.op != "c" or x.op != "c":
            raise Unk("as-of options")
        d, x = cval(d), cval(x)
        if d not in ("backward", "forward"):
            an._raise_sink[-1].append(Outcome("raise", st, mk("call", mk("ext", "builtins.ValueError"), (C(d),), ()), n))
            return []
        if len(k1) != len(t1) or len(k2) != len(t2):
            raise Unk("as-of lengths")
        if any(a > b_ for a, b_ in zip(t1, t1[1:])) or any(a > b_ for a, b_ in zip(t2, t2[1:])):
            return [self.tok(st, [INV] * len(t1))]  # the kernel needs ordered times
        out = []
        for k, t in zip(k1, t1):
            js = [j for j in range(len(t2)) if k2[j] == k and (t2[j] < t or x and t2[j] == t if d == "backward" else t2[j] > t or x and t2[j] == t)]
            out.append((js[-1] if d == "backward" else js[0]) if js else INV)
        return [self.tok(st, out)]

    # ---- hooks
    def on_getattr(self, an, st, n, b, name):
        if b in self.groups:
            r = self.groups[b].get(name) or self.groups[b].get(name.lower())
            if r is not None:
                return [(st, r)]
        if name == "dtype" and ("cap", b) in st.heap:
            return [(st, self.cap(cval(st.heap[("cap", b)])))]
        if name == "inv" and self.is_array(st, b):
            return [(st, self.cell(INV))]
        return super().on_getattr(an, st, n, b, name)

    def on_getitem(self, an, st, n, b, i):
        if b.op in ("glob", "obj", "attr", "ext") and "INVALID_DICT" in show(b)[:60] or getattr(n, "value", None) is not None and getattr(n.value, "id", "") == "INVALID_DICT":
            return [(st, self.cell(INV))]
        r = super().on_getitem(an, st, n, b, i)
        if r is not None and i.op == "slice" and self.is_array(st, b):
            try:
                pos = list(range(len(self.vals(st, b))))[self.e.ev(st, i)]
            except (Unk, TypeError):
                return r
            for s, t in r:
                if t.op == "p":
                    s.heap[("viewpos", t)] = vals(pos)
        return r

    def write(self, an, st, b, i, v):
        out = []
        for s in super().write(an, st, b, i, v):
            base = st.heap.get(("view", b))
            pos = st.heap.get(("viewpos", b))
            new = s.heap.get(("arrval", b))
            if base is not None and pos is not None and new is not None:
                try:
                    cur = list(self.vals(st, base))
                    for p, x in zip(pos.args[0], new.args[0]):
                        cur[p] = x
                    s.heap.pop(("dirty", base), None)
                    s.heap[("arrval", base)] = vals(cur)
                    if ("view", base) in st.heap:
                        s.heap[("dirty", st.heap[("view", base)])] = C(True)
                except (Unk, TypeError, IndexError):
                    pass
                self.width(s, None, base)
            self.width(s, None, b)
            out.append(s)
        return out

    def on_call(self, an, st, n, f, args, kwargs):
        nm = call_name(f)
        try:
            r = self.join_call(an, st, n, nm, f, args, kwargs)
        except (Unk, TypeError, KeyError, IndexError, ValueError, AttributeError):
            r = None
        if r is not None:
            return r
        return super().on_call(an, st, n, f, args, kwargs)

    def join_call(self, an, st, n, nm, f, args, kwargs):
        meth = f.op in ("bm", "attr") and f.args[0].op not in ("ext", "mod")
        if f.op == "cls" and any(getattr(b, "id", getattr(b, "attr", "")) == "NamedTuple" for b in f.args[0].node.bases):
            return self.record(an, st, f.args[0], args, kwargs)
        if nm in ("empty", "empty_like", "zeros", "full", "ones", "arange", "cumsum") and not meth:
            r = self.eager(an, st, n, mk("call", f, tuple(args), tuple(sorted(kwargs.items()))))
            if kwargs.get("dtype") in self.caps:
                for s, t in r:
                    s.heap[("cap", t)] = C(self.caps[kwargs["dtype"]])
                    self.width(s, n, t)
            return r
        if nm == "bytes_to_str" and args and args[0].op == "c":
            return [(st, args[0])]
        if nm == "Grouping" and args:
            return self.grouping(an, st, n, args, kwargs)
        if nm == "ismember" and not meth and len(args) >= 2:
            a, b = self.keys_of(st, an, args[0]), self.keys_of(st, an, args[1])
            if not (self.is_array(st, args[0]) or a and b):
                an._raise_sink[-1].append(Outcome("raise", st, mk("call", mk("ext", "builtins.ValueError"), (C("multikey of empty arrays"),), ()), n))
                return []
            return self.tupl(st, self.member(a, b))
        if nm == "alignmk" and not meth:
            return self.asof(an, st, n, args, kwargs)
        if nm == "unique32" and args:
            ks = self.keys_of(st, an, args[0])
            seen = {}
            for i, k in enumerate(ks):
                seen.setdefault(k, i)
            return self.tupl(st, (list(seen.values()), [1]))
        if nm == "_verify_join_keys_compat":
            s = st.copy()
            o = an.new_obj(s, "list", n)
            s.heap[("content", o)] = ("list", (), True)
            return [(s, o)]
        if nm in ("int_dtype_from_len", "min_scalar_type") and len(args) == 1:
            v = self.e.ev(st, args[0])
            return [(st, self.cap(v) if isinstance(v, int) and not isinstance(v, bool) else DT)]
        if nm in ("promote_types", "result_type"):
            caps = [self.caps.get(a) for a in args]
            return [(st, self.cap(max(caps)) if caps and None not in caps else DT)]
        if nm == "get_default_value":
            return [(st, self.cell(INV))]
        if nm == "isEnabledFor":
            return [(st, C(False))]
        if nm == "GetNanoTime":
            return [(st, C(0))]
        if nm == "mask_andi" and len(args) == 2:
            return [self.tok(st, broadcast(lambda x, y: x and y, self.vals(st, args[0]), self.vals(st, args[1])))]
        if nm == "fillna" and meth and self.is_array(st, f.args[0]) and args:
            v = self.vals(st, f.args[0])
            x = self.e.ev(st, args[0])
            w = [x if y == INV else y for y in v]
            if kwargs.get("inplace", C(False)) is C(True):
                s = st.copy()
                s.heap[("arrval", f.args[0])] = vals(w)
                return [(s, NONE)]
            return [self.tok(st, w)]
        if nm == "sort" and meth and not args and self.is_array(st, f.args[0]):
            v = self.vals(st, f.args[0])
            s = st.copy()
            s.heap[("arrval", f.args[0])] = vals(sorted(v))
            return [(s, NONE)]
        if nm == "Categorical" and len(args) == 2 and self.is_array(st, args[0]):
            names = [cval(x) for x in an.known_elts(st, args[1])]
            return [self.tok(st, [names[i - 1] for i in self.vals(st, args[0])], "indicator")]
        if nm == "Categorical" and len(args) == 2 and args[0].op == "c":
            return [self.tok(st, ["scalar"])]
        if nm == "type" and f.op == "ext" and len(args) == 1 and self.is_array(st, args[0]):
            return [(st, mk("cls", self.fa))]
        if nm == "next" and len(args) == 1 and args[0].op in ("call", "obj", "tup"):
            e = an.known_elts(st, args[0])
            if e:
                return [(st, e[0])]
        if nm == "iter" and len(args) == 1 and an.known_elts(st, args[0]) is not None:
            return [(st, mk("tup", *an.known_elts(st, args[0])))]
        return None

    def inline(self, an, st, n, fn, args, kwargs):
        if fn.module.name == "riptable.rt_grouping" and fn.name != "extract_groups" and not fn.name.startswith("_") and "<locals>" not in fn.qual:
            return False
        return super().inline(an, st, n, fn, args, kwargs)

    def other_cond(self, an, st, c):
        if c.op == "isinst":
            names = [(y.name if hasattr(y, "name") else str(y)).split(".")[-1] for y in c.args[1]]
            if self.is_array(st, c.args[0]):
                return any(y in ("FastArray", "ndarray") for y in names)
            if self.is_ds(st, c.args[0]):
                return any(y in ("Dataset", "Struct") for y in names)
        return super().other_cond(an, st, c)


class JRun:
    def __init__(self, prog, op, left, right, args=(), kwargs=None, method=True, kinds=None):
        self.h = h = JHooks(prog)
        self.an = an = DSInterp(prog, h, max_depth=18, max_steps=30000)
        an.max_recursion = 2
        st = State()
        for name, cols in (("LEFT", left), ("RIGHT", right)):
            cs = []
            m = 0
            for k, v in cols.items():
                st, t = h.token(st, v, k, Dt(kinds[k]) if kinds and k in kinds else None)
                cs.append((k, t))
                m = len(v)
            st, _ = h.dataset(an, st, cs, m, name)
        ts, kw = [], {}
        for a in args:
            st, t = self.arg(st, a)
            ts.append(t)
        for k, a in (kwargs or {}).items():
            st, t = self.arg(st, a)
            kw[k] = t
        self.fn, self.outs = None, None
        if method:
            r = call_method(h, an, st, LEFT, h.ds_cls, op, [RIGHT] + ts, kw)
            if r is not None:
                self.fn, self.outs = r
            return
        fn = prog.all_funcs.get("riptable.rt_merge." + op)
        if fn is None:
            return
        b = an.bind(st, fn, [LEFT, RIGHT] + ts, kw, fn.node)
        st = b.pop("__state__", st)
        self.fn = fn
        try:
            self.outs = an.exec_function(fn, b, st, None)
        except (Budget, RecursionError):
            h.unk["budget"] = 1
            self.outs = []

    def arg(self, st, a):
        h, an = self.h, self.an
        if not isinstance(a, Lit):
            return st, (a if hasattr(a, "op") else C(a))
        ts = []
        for x in a.v:
            st, t = self.arg(st, x)
            ts.append(t)
        if a.kind == "tup":
            return st, mk("tup", *ts)
        st = st.copy()
        o = an.new_obj(st, "list", None)
        st.heap[("content", o)] = ("list", tuple(ts), True)
        return st, o

    def table(self, st, d):
        cols = self.h.columns(st, d)
        if cols is None:
            raise Unk("result is not a table: " + show(d)[:60])
        return [(k, tuple(self.h.e.arr(self.h.e.ev(st, v)))) for k, v in cols]


# ------------------------------------------------------------------ what a join means
def dedup(keys, keep):
    rows = range(len(keys))
    if keep is None:
        return list(rows)
    d = {}
    for i in rows:
        if keep == "first":
            d.setdefault(keys[i], i)
        else:
            d[keys[i]] = i
    return sorted(d.values())


def join(lk, rk, how, keep=(None, None)):
    """row pairs of the join; keys are tuples, a key with a missing part matches nothing"""
    L, R = dedup(lk, keep[0]), dedup(rk, keep[1])
    m = lambda i, j: INV not in lk[i] and lk[i] == rk[j]
    out = []
    if how == "right":
        for j in R:
            out += [(i, j) for i in L if m(i, j)] or [(INV, j)]
        return out
    for i in L:
        js = [j for j in R if m(i, j)]
        out += [(i, j) for j in js] or ([] if how == "inner" else [(i, INV)])
    if how == "outer":
        out += [(INV, j) for j in R if not any(m(i, j) for i in L)]
    return out


def pick(v, i):
    return INV if i == INV else v[i]


def result(left, right, pairs, keys, how, lcols=None, rcols=None, lname=None, rname=None):
    """(key columns, other columns in order) of the joined table; keys: [(left name, right name)]"""
    shared = [a for a, b in keys if any(a == y for _, y in keys)]
    kc = {}
    for a in shared:
        kc[a] = tuple(pick(right[a], j) if i == INV or how == "right" else left[a][i] for i, j in pairs)
    rest = []
    for c in left if lcols is None else lcols:
        if c not in shared:
            rest.append(((lname or {}).get(c, c), tuple(pick(left[c], i) for i, _ in pairs)))
    for c in right if rcols is None else rcols:
        if c not in shared:
            rest.append(((rname or {}).get(c, c), tuple(pick(right[c], j) for _, j in pairs)))
    return kc, rest


def tell(t):
    f = lambda x: "missing" if x == INV else "uninitialised" if x == UNINIT else f"{x[0].lower()}{x[1]}" if isinstance(x, tuple) else x
    return {k: [f(x) for x in v] for k, v in t}


def expect(kc, rest, ordered=True, extra=None):
    def j(run, o):
        if o.value in (LEFT, RIGHT):
            return "returns one of its inputs"
        got = run.table(o.state, o.value)
        keyp = [(k, v) for k, v in got if k in kc]
        other = [(k, v) for k, v in got if k not in kc]
        exp = list(kc.items()) + rest + (extra or [])
        full = dict(exp)
        if sorted(k for k, _ in keyp) != sorted(kc) or [k for k, _ in other] != [k for k, _ in rest + (extra or [])]:
            return f"gives columns {[k for k, _ in got]} instead of {[k for k, _ in exp]}"
        rows = list(zip(*[v for _, v in sorted(got)])) if got else []
        want = list(zip(*[full[k] for k, _ in sorted(got)])) if got else []
        if len({len(v) for _, v in got}) > 1:
            return f"columns of different lengths: {tell(got)}"
        if not ordered:
            rows, want = sorted(rows, key=repr), sorted(want, key=repr)
        if rows != want:
            return f"gives {tell(got)} instead of {tell(exp)}"
        if run.h.narrow:
            v, c = run.h.narrow[0]
            return f"row number {v} is stored in an integer type chosen for numbers up to {c}: with more rows the number wraps around"
        nr = o.state.heap.get((o.value, "_nrows"))
        if got and (nr is None or nr.op != "c" or cval(nr) != len(want)):
            return f"row count {show(nr) if nr is not None else '?'}"
        return None
    return j


def toks(tag, n):
    return [(tag, i) for i in range(n)]


def tables(lk, rk, names=("k",)):
    left = {nm: [k[i] for k in lk] for i, nm in enumerate(names)}
    right = {nm: [k[i] for k in rk] for i, nm in enumerate(names)}
    left.update(a=toks("A", len(lk)), b=toks("B", len(lk)))
    right.update(x=toks("X", len(rk)), y=toks("Y", len(rk)))
    return left, right


one = lambda *v: [(x,) for x in v]
SINGLE = [
    ("duplicates on both sides", one(10, 20, 10, 30, 20), one(20, 10, 40, 20, 10)),
    ("unique right", one(10, 20, 10, 30), one(20, 40, 10)),
    ("missing keys", one(10, INV, 20, INV, 10, 50), one(INV, 20, 30, INV, 20)),
    ("missing keys, unique right", one(INV, 10, INV, 20), one(20, INV, 30)),
    ("no common key", one(10, 10, 20), one(30, 40, 30)),
    ("empty right", one(10, 20, 10), []),
    ("empty left", [], one(20, INV, 20)),
    ("only missing on the left", one(INV, INV), one(20, 20, 10)),
    ("long right", one(10, 20), one(10, 10, 10, 10, 30, 30, 30, 30, 10)),
    ("many right keys", one(90, 80), one(10, 20, 30, 40, 90, 80, 90)),
    ("long left", one(10, 10, 10, 10, 30, 30, 30, 30, 10), one(20, 10)),
]
MULTI = [
    ("two keys", [(10, 1), (10, 2), (20, 1), (10, 1)], [(10, 1), (20, 2), (20, 1), (10, 1), (10, 2)]),
    ("two keys, partly missing", [(10, INV), (10, 2), (INV, 1), (INV, INV), (10, 2)], [(10, 2), (INV, 1), (10, INV), (30, INV), (30, INV), (10, 2)]),
    ("two keys, missing and empty", [(10, 1)], [(INV, INV), (10, INV), (INV, INV), (20, 1)]),
    ("two keys, none valid on the left", [(10, INV), (INV, 1)], [(10, 1), (10, 1), (20, INV)]),
]
HOWS = ("left", "right", "inner", "outer")


def keeps(how):
    ks = [(None, (None, None)), (tup(None, "first"), (None, "first")), (tup(None, "last"), (None, "last"))]
    if how != "outer":
        ks += [(tup("first", None), ("first", None)), (tup("last", None), ("last", None)), ("first", ("first", "first")), ("last", ("last", "last"))]
    return ks


def run(prog, rep):
    rep.rule("PAIRS", "the rows of the result are exactly the row pairs the join type defines, every column gathered from its own side, missing markers where a side has no row")
    rep.rule("KEEP", "keep drops duplicate keys of the side it names, keeping the first or the last row of each key, and nothing else")
    rep.rule("COLS", "the result has exactly the requested columns under the requested names, and ambiguous or unknown names are refused")
    rep.rule("CHECKS", "uniqueness validation, required matches, indicators and unknown options")
    rep.rule("ASOF", "an as-of join gives every left row once, with the nearest right row of the same group in the requested direction")
    rep.assume("key grouping, membership (first match), as-of alignment of ordered times, sorting, cumulative sums and gathers are the primitives of the array layer; a type chosen for numbers up to n is taken to hold exactly those")
    n = 0
    # row pairs
    for title, lk, rk in SINGLE + MULTI:
        names = ("k", "j")[: len((lk or rk)[0])]
        left, right = tables(lk, rk, names)
        on = "k" if len(names) == 1 else lst(["k", "j"])
        for how in HOWS:
            for karg, keep in keeps(how):
                pairs = join(lk, rk, how, keep)
                kc, rest = result(left, right, pairs, [(x, x) for x in names], how)
                kw = {"on": on, "how": how}
                if karg is not None:
                    kw["keep"] = karg
                n += check(rep, "PAIRS" if karg is None else "KEEP", f"merge2 {how}, {title}" + (f", keep={keep}" if karg is not None else ""),
                           JRun(prog, "merge2", left, right, (), kw), expect(kc, rest, ordered=karg is None))
    STR = [("text keys, partly missing", [("p", INV), ("q", 1), ("p", 1), ("q", 1)], [("q", INV), ("p", INV), ("q", 1), ("r", INV), ("p", INV), ("q", 1)])]
    for title, lk, rk in STR:
        for names, flip in ((("k", "j"), False), (("j", "k"), True)):
            l2, r2 = ([k[::-1] for k in lk], [k[::-1] for k in rk]) if flip else (lk, rk)
            left, right = tables(l2, r2, names)
            for how in HOWS:
                for karg, keep in keeps(how):
                    kc, rest = result(left, right, join(l2, r2, how, keep), [(x, x) for x in names], how)
                    kw = {"on": lst(list(names)), "how": how}
                    if karg is not None:
                        kw["keep"] = karg
                    n += check(rep, "PAIRS" if karg is None else "KEEP", f"merge2 {how}, {title}{', text last' if flip else ''}" + (f", keep={keep}" if karg is not None else ""),
                               JRun(prog, "merge2", left, right, (), kw), expect(kc, rest, ordered=karg is None))
    for ch in "dfbhilq":
        for title, lk, rk in (SINGLE[2], MULTI[1]):
            if ch in "bhilq" and "two" in title:
                continue
            names = ("k", "j")[: len(lk[0])]
            left, right = tables(lk, rk, names)
            for how in HOWS:
                kc, rest = result(left, right, join(lk, rk, how), [(x, x) for x in names], how)
                n += check(rep, "PAIRS", f"merge2 {how}, {title}, key elements of type '{ch}'",
                           JRun(prog, "merge2", left, right, (), {"on": lst(list(names)), "how": how}, kinds={x: ch for x in names}), expect(kc, rest))
    n += columns_(prog, rep)
    n += options(prog, rep)
    n += lookup(prog, rep)
    n += legacy(prog, rep)
    n += asof_(prog, rep)
    rep.floor("obligations", n, 300)


LK, RK = one(10, 20, 10, 30, INV), one(20, 10, 40, 20, INV)
UK = one(20, 10, 40)


def columns_(prog, rep):
    n = 0
    left, right = tables(LK, RK)
    other = {"m" if k == "k" else k: v for k, v in right.items()}
    clash = dict(right, a=toks("Z", len(RK)))
    clash2 = dict(clash, b=toks("W", len(RK)))

    def go(rule, label, l, r, keys, how, kw, **sel):
        pairs = join([tuple(l[a][i] for a, _ in keys) for i in range(len(LK))], [tuple(r[b][i] for _, b in keys) for i in range(len(RK))], how)
        kc, rest = result(l, r, pairs, keys, how, **sel)
        return check(rep, rule, f"merge2 {how}, {label}", JRun(prog, "merge2", l, r, (), dict(kw, how=how)), expect(kc, rest))

    def bad(label, l, r, kw, op="merge2"):
        return check(rep, "COLS", f"{op} refuses {label}", JRun(prog, op, l, r, (), kw), None, want="raise")

    for how in HOWS:
        n += go("PAIRS", "left_on/right_on", left, other, [("k", "m")], how, {"left_on": "k", "right_on": "m"})
        n += go("PAIRS", "key pair", left, other, [("k", "m")], how, {"on": tup("k", "m")})
        n += go("PAIRS", "list of key pairs", left, other, [("k", "m")], how, {"on": lst([tup("k", "m")])})
        n += go("COLS", "columns_left", left, right, [("k", "k")], how, {"on": "k", "columns_left": lst(["b"])}, lcols=["b"])
        n += go("COLS", "columns_left in another order", left, right, [("k", "k")], how, {"on": "k", "columns_left": lst(["b", "k", "a"])}, lcols=["b", "a"])
        n += go("COLS", "columns_right", left, right, [("k", "k")], how, {"on": "k", "columns_right": lst(["y"])}, rcols=["y"])
        n += go("COLS", "one column each", left, right, [("k", "k")], how, {"on": "k", "columns_left": "a", "columns_right": "x"}, lcols=["a"], rcols=["x"])
        n += go("COLS", "no left columns", left, right, [("k", "k")], how, {"on": "k", "columns_left": lst([])}, lcols=[])
        n += go("COLS", "different keys, columns chosen", left, other, [("k", "m")], how, {"left_on": "k", "right_on": "m", "columns_left": lst(["a"]), "columns_right": lst(["m", "y"])}, lcols=["a"], rcols=["m", "y"])
        n += go("COLS", "suffixes", left, clash, [("k", "k")], how, {"on": "k", "suffixes": tup("_l", "_r")}, lname={"a": "a_l"}, rname={"a": "a_r"})
        n += go("COLS", "right suffix only", left, clash2, [("k", "k")], how, {"on": "k", "suffixes": tup("", "_r")}, rname={"a": "a_r", "b": "b_r"})
        n += go("COLS", "left suffix only", left, clash, [("k", "k")], how, {"on": "k", "suffixes": tup("_l", "")}, lname={"a": "a_l"})
        n += go("COLS", "suffixes without a clash", left, right, [("k", "k")], how, {"on": "k", "suffixes": tup("_l", "_r")})
        n += go("COLS", "clash avoided by choice", left, clash, [("k", "k")], how, {"on": "k", "columns_right": lst(["x", "y"])}, rcols=["x", "y"])
    ka = dict(left, a_r=toks("Q", len(LK)))
    for label, l, r, kw in (
        ("clashing columns without suffixes", left, clash, {"on": "k"}),
        ("equal suffixes", left, clash, {"on": "k", "suffixes": tup("_l", "_l")}),
        ("a suffix that makes a new clash", ka, clash, {"on": "k", "suffixes": tup("", "_r")}),
        ("a suffix that clashes on its own side", dict(left, a_l=toks("Q", len(LK))), clash, {"on": "k", "suffixes": tup("_l", "_r")}),
        ("an unknown key", left, right, {"on": "zz"}),
        ("a key of one side only", left, right, {"on": "a"}),
        ("an unknown left column", left, right, {"on": "k", "columns_left": lst(["a", "zz"])}),
        ("an unknown right column", left, right, {"on": "k", "columns_right": "zz"}),
        ("no key", left, right, {}),
        ("a key for one side only", left, other, {"left_on": "k"}),
        ("on with left_on", left, right, {"on": "k", "left_on": "k"}),
        ("on with right_on", left, right, {"on": "k", "right_on": "k"}),
        ("no keys in the list", left, right, {"on": lst([])}),
        ("a different number of keys", dict(left, j=[1] * len(LK)), dict(right, j=[1] * len(RK)), {"left_on": lst(["k", "j"]), "right_on": lst(["k"])}),
        ("an unknown join type", left, right, {"on": "k", "how": "cross"}),
        ("an unknown keep", left, right, {"on": "k", "keep": "any"}),
        ("an unknown keep of one side", left, right, {"on": "k", "keep": tup(None, "any")}),
        ("an unknown validation", left, right, {"on": "k", "validate": "1:2"}),
    ):
        n += bad(label, l, r, kw)
    return n


def options(prog, rep):
    n = 0
    IND = {(True, False): "left_only", (False, True): "right_only", (True, True): "both"}
    for title, lk, rk in SINGLE[:5]:
        left, right = tables(lk, rk)
        for how in HOWS:
            pairs = join(lk, rk, how)
            kc, rest = result(left, right, pairs, [("k", "k")], how)
            ind = tuple(IND[i != INV, j != INV] for i, j in pairs)
            for nm, arg in (("merge_indicator", True), ("from", "from")):
                n += check(rep, "CHECKS", f"merge2 {how}, {title}, indicator={arg}", JRun(prog, "merge2", left, right, (), {"on": "k", "how": how, "indicator": arg}), expect(kc, rest, extra=[(nm, ind)]))
    left, right = tables(LK, RK)
    n += check(rep, "CHECKS", "merge2 refuses an indicator name in use", JRun(prog, "merge2", left, right, (), {"on": "k", "indicator": "a"}), None, want="raise")
    uniq = one(20, 10, 40)
    dup = one(20, 10, 10)
    for lt, lk in (("unique", uniq), ("repeated", dup)):
        for rt_, rk in (("unique", uniq), ("repeated", dup)):
            left, right = tables(lk, rk)
            for v, needs in (("1:1", (1, 1)), ("one_to_one", (1, 1)), ("1:m", (1, 0)), ("one_to_many", (1, 0)), ("m:1", (0, 1)), ("many_to_one", (0, 1)), ("m:m", (0, 0)), ("many_to_many", (0, 0))):
                for how in ("left", "right", "inner", "outer"):
                    fail = needs[0] and lt == "repeated" or needs[1] and rt_ == "repeated"
                    kw = {"on": "k", "how": how, "validate": v}
                    kc, rest = result(left, right, join(lk, rk, how), [("k", "k")], how)
                    r = JRun(prog, "merge2", left, right, (), kw)
                    lab = f"merge2 {how}, validate={v}, left keys {lt}, right keys {rt_}"
                    n += check(rep, "CHECKS", lab, r, None, want="raise") if fail else check(rep, "CHECKS", lab, r, expect(kc, rest))
    left, right = tables(dup, dup)
    for v, keep, fail in (("1:1", ("first", "last"), False), ("1:1", (None, "first"), True), ("m:1", (None, "last"), False), ("1:m", (None, "last"), True), ("1:m", ("first", None), False), ("1:1", ("first", None), True)):
        kw = {"on": "k", "how": "left", "validate": v, "keep": tup(*keep)}
        kc, rest = result(left, right, join(dup, dup, "left", keep), [("k", "k")], "left")
        r = JRun(prog, "merge2", left, right, (), kw)
        n += check(rep, "CHECKS", f"merge2 validate={v} with keep={keep}", r, None, want="raise") if fail else check(rep, "CHECKS", f"merge2 validate={v} with keep={keep}", r, expect(kc, rest, ordered=False))
    return n


def lookup(prog, rep):
    n = 0
    left, right = tables(LK, UK)
    dleft, dright = tables(LK, RK)
    full, fr = tables(one(10, 20, 10), UK)
    pairs = join(LK, UK, "left")
    kc, rest = result(left, right, pairs, [("k", "k")], "left")
    n += check(rep, "PAIRS", "merge_lookup", JRun(prog, "merge_lookup", left, right, (), {"on": "k"}), expect(kc, rest))
    n += check(rep, "PAIRS", "merge_lookup function", JRun(prog, "merge_lookup", left, right, (), {"on": "k"}, method=False), expect(kc, rest))
    n += check(rep, "CHECKS", "merge_lookup refuses repeated right keys", JRun(prog, "merge_lookup", dleft, dright, (), {"on": "k"}), None, want="raise")
    for keep in ("first", "last"):
        kc2, rest2 = result(dleft, dright, join(LK, RK, "left", (None, keep)), [("k", "k")], "left")
        n += check(rep, "KEEP", f"merge_lookup keep={keep}", JRun(prog, "merge_lookup", dleft, dright, (), {"on": "k", "keep": keep}), expect(kc2, rest2))
        n += check(rep, "KEEP", f"merge_lookup function keep={keep}", JRun(prog, "merge_lookup", dleft, dright, (), {"on": "k", "keep": keep}, method=False), expect(kc2, rest2))
    n += check(rep, "CHECKS", "merge_lookup refuses a missing match when one is required", JRun(prog, "merge_lookup", left, right, (), {"on": "k", "require_match": True}), None, want="raise")
    kc3, rest3 = result(full, fr, join(one(10, 20, 10), UK, "left"), [("k", "k")], "left")
    n += check(rep, "CHECKS", "merge_lookup with every match present", JRun(prog, "merge_lookup", full, fr, (), {"on": "k", "require_match": True}), expect(kc3, rest3))
    clash = dict(right, a=toks("Z", len(UK)))
    kc4, rest4 = result(left, clash, pairs, [("k", "k")], "left", rname={"a": "a_r"})
    n += check(rep, "COLS", "merge_lookup suffix", JRun(prog, "merge_lookup", left, clash, (), {"on": "k", "suffix": "_r"}), expect(kc4, rest4))
    kc5, rest5 = result(left, clash, pairs, [("k", "k")], "left", lname={"a": "a_l"}, rname={"a": "a_r"})
    n += check(rep, "COLS", "merge_lookup suffixes", JRun(prog, "merge_lookup", left, clash, (), {"on": "k", "suffixes": tup("_l", "_r")}), expect(kc5, rest5))
    kc6, rest6 = result(left, right, pairs, [("k", "k")], "left", lcols=["b"], rcols=["y"])
    n += check(rep, "COLS", "merge_lookup columns", JRun(prog, "merge_lookup", left, right, (), {"on": "k", "columns_left": "b", "columns_right": lst(["y"])}), expect(kc6, rest6))
    for label, l, r, kw in (
        ("a clash without suffix", left, clash, {"on": "k"}), ("a clash without suffix, in place", left, clash, {"on": "k", "inplace": True}),
        ("suffix with suffixes", left, clash, {"on": "k", "suffix": "_r", "suffixes": tup("_l", "_r")}), ("suffixes in place", left, clash, {"on": "k", "inplace": True, "suffixes": tup("_l", "_r")}),
        ("columns_left in place", left, right, {"on": "k", "inplace": True, "columns_left": lst(["a"])}), ("an unknown column", left, right, {"on": "k", "columns_right": "zz"}),
        ("repeated right keys in place", dleft, dright, {"on": "k", "inplace": True}), ("a missing match in place", left, right, {"on": "k", "inplace": True, "require_match": True}),
    ):
        n += check(rep, "COLS", f"merge_lookup refuses {label}", JRun(prog, "merge_lookup", l, r, (), kw), None, want="raise")
        if kw.get("inplace"):
            n += unchanged(rep, f"merge_lookup refusing {label}", JRun(prog, "merge_lookup", l, r, (), kw), l)

    def inpl(exp):
        def j(run, o):
            if o.value is not LEFT:
                return "the in-place form returns another object"
            got = run.table(o.state, LEFT)
            if sorted(got) != sorted(exp) or [k for k, _ in got if k in left] != list(left):
                return f"gives {tell(got)} instead of {tell(exp)}"
            return None
        return j
    own = [(k, tuple(v)) for k, v in left.items()]
    add = [(k, v) for k, v in rest if k not in left]
    n += check(rep, "PAIRS", "merge_lookup in place", JRun(prog, "merge_lookup", left, right, (), {"on": "k", "inplace": True}), inpl(own + add))
    n += check(rep, "COLS", "merge_lookup in place, columns", JRun(prog, "merge_lookup", left, right, (), {"on": "k", "inplace": True, "columns_right": lst(["y"])}), inpl(own + [x for x in add if x[0] == "y"]))
    n += check(rep, "COLS", "merge_lookup in place, suffix", JRun(prog, "merge_lookup", left, clash, (), {"on": "k", "inplace": True, "suffix": "_r"}), inpl(own + [(k, v) for k, v in rest4 if k not in left]))
    other = {"m" if k == "k" else k: v for k, v in right.items()}
    _, rest7 = result(left, other, pairs, [("k", "m")], "left")
    n += check(rep, "PAIRS", "merge_lookup in place, different key names", JRun(prog, "merge_lookup", left, other, (), {"left_on": "k", "right_on": "m", "inplace": True}), inpl(own + [x for x in rest7 if x[0] not in left]))
    n += check(rep, "KEEP", "merge_lookup in place, keep", JRun(prog, "merge_lookup", dleft, dright, (), {"on": "k", "inplace": True, "keep": "last"}),
               inpl(own + [x for x in result(dleft, dright, join(LK, RK, "left", (None, "last")), [("k", "k")], "left")[1] if x[0] not in left]))
    return n


def unchanged(rep, label, run, left):
    """a refused in-place lookup leaves the left Dataset as it was"""
    if run.fn is None or run.h.unk:
        rep.undecide("CHECKS", label, "not followed")
        return 0
    bad = None
    for o in run.outs:
        if o.kind == "raise":
            try:
                got = run.table(o.state, LEFT)
            except (Unk, TypeError, KeyError, IndexError):
                rep.undecide("CHECKS", label, "not followed")
                return 0
            if got != [(k, tuple(v)) for k, v in left.items()]:
                bad = f"leaves {tell(got)}"
    rep.ob("CHECKS", label, bad is None, f"{run.fn.qual}: {bad}", run.fn.loc)
    return 1


def legacy(prog, rep):
    """merge: first match only"""
    n = 0
    lk, rk = one(10, 20, 10, 30), one(20, 40, 10, 20)
    ul, ur = one(10, 20, 30), one(20, 40, 10)
    IND = {(True, False): "left_only", (False, True): "right_only", (True, True): "both"}
    for how in HOWS:
        L, R = (lk, rk) if how in ("left", "right") else (ul, ur)
        keep = {"left": (None, "first"), "right": ("first", None)}.get(how, (None, None))
        left, right = tables(L, R)
        pairs = join(L, R, how, keep)
        kc, rest = result(left, right, pairs, [("k", "k")], how)
        kw = {"on": "k", "how": how}
        n += check(rep, "PAIRS", f"merge {how}", JRun(prog, "merge", left, right, (), kw), expect(kc, rest))
        n += check(rep, "PAIRS", f"merge function {how}", JRun(prog, "merge", left, right, (), kw, method=False), expect(kc, rest))
        ind = tuple(IND[i != INV, j != INV] for i, j in pairs)
        n += check(rep, "CHECKS", f"merge {how}, indicator", JRun(prog, "merge", left, right, (), dict(kw, indicator=True)), expect(kc, rest, extra=[("merge_indicator", ind)]))
        other = {"m" if k == "k" else k: v for k, v in right.items()}
        kc2, rest2 = result(left, other, pairs, [("k", "m")], how)
        n += check(rep, "PAIRS", f"merge {how}, left_on/right_on", JRun(prog, "merge", left, other, (), {"left_on": "k", "right_on": "m", "how": how}), expect(kc2, rest2))
        clash = dict(right, a=toks("Z", len(R)))
        kc3, rest3 = result(left, clash, pairs, [("k", "k")], how, lname={"a": "a_x"}, rname={"a": "a_y"})
        n += check(rep, "COLS", f"merge {how}, default suffixes", JRun(prog, "merge", left, clash, (), kw), expect(kc3, rest3))
        kc4, rest4 = result(left, right, pairs, [("k", "k")], how, lcols=["b"], rcols=["y"])
        n += check(rep, "COLS", f"merge {how}, columns", JRun(prog, "merge", left, right, (), dict(kw, columns_left="b", columns_right=lst(["y"]))), expect(kc4, rest4))
        m = lambda K, x: [(k, c) for (k,), c in zip(K, x)]
        L2, R2 = m(L, (1, 1, 2, 1)), m(R, (1, 1, 1, 2))
        left, right = tables(L2, R2, ("k", "j"))
        kc5, rest5 = result(left, right, join(L2, R2, how, keep), [("k", "k"), ("j", "j")], how)
        n += check(rep, "PAIRS", f"merge {how}, two keys", JRun(prog, "merge", left, right, (), {"on": lst(["k", "j"]), "how": how}), expect(kc5, rest5))
    left, right = tables(lk, rk)
    clash = dict(right, a=toks("Z", len(rk)))
    for label, r, kw in (("an unknown join type", right, {"on": "k", "how": "cross"}), ("an unknown key", right, {"on": "zz"}), ("no key", right, {}), ("on with left_on", right, {"on": "k", "left_on": "k"}),
                         ("clashing columns with suffixes off", clash, {"on": "k", "suffixes": tup(False, False)}), ("an unknown column", right, {"on": "k", "columns_left": "zz"}),
                         ("an indicator name in use", right, {"on": "k", "indicator": "b"})):
        n += check(rep, "COLS", f"merge refuses {label}", JRun(prog, "merge", left, r, (), kw), None, want="raise")
    return n


def asof_pairs(lt, rt_, lb, rb, d, exact):
    out = []
    for i, t in enumerate(lt):
        c = [j for j in range(len(rt_)) if lb[i] == rb[j]]
        order = sorted(c, key=lambda j: (rt_[j], j))
        bw = [j for j in order if rt_[j] < t or exact and rt_[j] == t]
        fw = [j for j in order if rt_[j] > t or exact and rt_[j] == t]
        if d == "backward":
            j = bw[-1] if bw else INV
        elif d == "forward":
            j = fw[0] if fw else INV
        elif not bw or not fw:
            j = bw[-1] if bw else fw[0] if fw else INV
        else:
            j = fw[0] if rt_[fw[0]] - t < t - rt_[bw[-1]] else bw[-1]
        out.append((i, j))
    return out


def asof_(prog, rep):
    n = 0
    cases = [
        ("ordered", [1, 5, 10, 12, 20], [2, 5, 9, 13], [1, 2, 1, 2, 1], [1, 2, 1, 2]),
        ("no candidate", [1, 9], [5], [1, 1], [1]),
        ("left unordered", [10, 1, 20, 5, 12], [2, 5, 9, 13], [1, 1, 2, 2, 1], [2, 2, 1, 1]),
        ("right unordered", [1, 5, 10, 12, 20], [9, 2, 13, 5], [1, 2, 1, 2, 1], [1, 2, 1, 2]),
        ("both unordered", [20, 1, 10, 5], [9, 2, 13, 6, 4], [1, 2, 1, 2], [1, 2, 1, 2, 1]),
    ]
    for title, lt, rt_, lb, rb in cases:
        left = {"t": lt, "g": lb, "a": toks("A", len(lt))}
        right = {"t": rt_, "g": rb, "x": toks("X", len(rt_))}
        right2 = {"s": rt_, "h": rb, "x": toks("X", len(rt_))}
        for d in ("backward", "forward", "nearest"):
            for exact in (True, False):
                kw = {"direction": d, "allow_exact_matches": exact}
                lab = f"merge_asof {d}{'' if exact else ', no exact matches'}, {title}"
                pairs = asof_pairs(lt, rt_, lb, rb, d, exact)
                kc, rest = result(left, right, pairs, [("t", "t"), ("g", "g")], "left")
                n += check(rep, "ASOF", lab + ", by", JRun(prog, "merge_asof", left, right, (), dict(kw, on="t", by="g")), expect(kc, rest))
                m = tuple(pick(rt_, j) for _, j in pairs)
                n += check(rep, "ASOF", lab + ", matched_on", JRun(prog, "merge_asof", left, right, (), dict(kw, on="t", by="g", matched_on=True)), expect(kc, rest, extra=[("matched_on", m)]))
                kc2, rest2 = result(left, right2, pairs, [("t", "s"), ("g", "h")], "left")
                n += check(rep, "ASOF", lab + ", different names", JRun(prog, "merge_asof", left, right2, (), dict(kw, left_on="t", right_on="s", left_by="g", right_by="h")), expect(kc2, rest2))
                n += check(rep, "ASOF", lab + ", name pairs", JRun(prog, "merge_asof", left, right2, (), dict(kw, on=tup("t", "s"), by=tup("g", "h"))), expect(kc2, rest2))
                one_ = asof_pairs(lt, rt_, [0] * len(lt), [0] * len(rt_), d, exact)
                l1 = {k: v for k, v in left.items() if k != "g"}
                r1 = {k: v for k, v in right.items() if k != "g"}
                kc3, rest3 = result(l1, r1, one_, [("t", "t")], "left")
                n += check(rep, "ASOF", lab, JRun(prog, "merge_asof", l1, r1, (), dict(kw, on="t")), expect(kc3, rest3))
                n += check(rep, "ASOF", lab + ", function", JRun(prog, "merge_asof", l1, r1, (), dict(kw, on="t"), method=False), expect(kc3, rest3))
        two_l = dict(left, f=[1] * (len(lt) - 1) + [2])
        two_r = dict(right, f=[1] * len(rt_))
        p2 = asof_pairs(lt, rt_, list(zip(lb, two_l["f"])), list(zip(rb, two_r["f"])), "backward", True)
        kc, rest = result(two_l, two_r, p2, [("t", "t"), ("g", "g"), ("f", "f")], "left")
        n += check(rep, "ASOF", f"merge_asof {title}, by two columns", JRun(prog, "merge_asof", two_l, two_r, (), {"on": "t", "by": lst(["g", "f"])}), expect(kc, rest))
        r = JRun(prog, "merge_asof", left, right, (), {"on": "t", "by": "g", "action_on_unsorted": "raise"})
        if lt == sorted(lt) and rt_ == sorted(rt_):
            pairs = asof_pairs(lt, rt_, lb, rb, "backward", True)
            n += check(rep, "ASOF", f"merge_asof accepts {title}", r, expect(*result(left, right, pairs, [("t", "t"), ("g", "g")], "left")))
        else:
            n += check(rep, "ASOF", f"merge_asof refuses {title} when asked to", r, None, want="raise")
    title, lt, rt_, lb, rb = cases[0]
    left = {"t": lt, "g": lb, "a": toks("A", len(lt)), "b": toks("B", len(lt))}
    right = {"t": rt_, "g": rb, "x": toks("X", len(rt_)), "a": toks("Z", len(rt_))}
    pairs = asof_pairs(lt, rt_, lb, rb, "backward", True)
    K = [("t", "t"), ("g", "g")]
    for label, kw, sel in (("suffixes", {"suffixes": tup("_l", "_r")}, dict(lname={"a": "a_l"}, rname={"a": "a_r"})), ("columns", {"columns_left": lst(["b"]), "columns_right": "x"}, dict(lcols=["b"], rcols=["x"]))):
        n += check(rep, "COLS", f"merge_asof {label}", JRun(prog, "merge_asof", left, right, (), dict(kw, on="t", by="g")), expect(*result(left, right, pairs, K, "left", **sel)))
    for label, kw in (("clashing columns without suffixes", {"on": "t", "by": "g"}), ("an unknown direction", {"on": "t", "by": "g", "columns_right": "x", "direction": "sideways"}),
                      ("an unknown column", {"on": "t", "by": "g", "columns_right": "zz"}), ("an unknown key", {"on": "zz"}), ("an unknown group", {"on": "t", "by": "zz"}), ("no key", {"by": "g"}),
                      ("on with left_on", {"on": "t", "left_on": "t"}), ("an unknown action", {"on": "t", "by": "g", "columns_right": "x", "action_on_unsorted": "skip"}),
                      ("a matched_on name in use", {"on": "t", "by": "g", "columns_right": "x", "matched_on": "b"}), ("groups for one side only", {"on": "t", "left_by": "g", "columns_right": "x", "columns_left": "b"})):
        n += check(rep, "COLS", f"merge_asof refuses {label}", JRun(prog, "merge_asof", left, right, (), kw), None, want="raise")
    return n
