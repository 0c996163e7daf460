"""Finite abstraction of a grouping: six rows, three groups, one row in no group, and the transfer functions extracted from the source.

The analysis follows a grouped operation from its public method to the native kernel call and back to the returned columns.  Group codes,
filters and per-group results only flow through gathers, slices and small index arithmetic, so evaluating the extracted terms over one
representative per case (group kept, group fully filtered out, row in no group, display order different from bin order) decides which rows
and which kernel every returned cell stands for.
"""
from sa.absint import C, Hooks, Interp, NONE, State, cval, is_const, leaves, mk, show, subterms

ROWS = 6
NG = 3
IKEY = [2, 0, 1, 3, 1, 2]
FILT = [True, True, True, False, False, True]
KEYS = [30, 10, 20]  # key value of bin 1, 2, 3 -> display order is bin 2, 3, 1
ISORT = [1, 2, 0]
INV = ("invalid",)

SELF, G, KC = mk("p", "self"), mk("p", "GROUPING"), mk("p", "KEYCHAIN")
A, B, K = mk("p", "A"), mk("p", "B"), mk("p", "K")
FIL = mk("p", "FILTER")
IK = mk("p", "IKEY")
GKEY = mk("p", "GKEY")


class Unk(Exception):
    pass


def call_name(f):
    if f.op == "ext":
        return f.args[0].split(".")[-1]
    if f.op == "fn":
        return f.args[0].name
    if f.op == "bm":
        return f.args[1].name
    if f.op == "attr":
        return f.args[1]
    if f.op == "cls":
        return f.args[0].name
    return None


def is_arr(x):
    return isinstance(x, list)


def broadcast(f, a, b):
    if is_arr(a) and is_arr(b):
        if len(a) != len(b):
            raise Unk("shape")
        return [f(x, y) for x, y in zip(a, b)]
    if is_arr(a):
        return [f(x, b) for x in a]
    if is_arr(b):
        return [f(a, y) for y in b]
    return f(a, b)


def arith(op):
    def f(x, y):
        if x == INV or y == INV:
            return INV
        if isinstance(x, tuple) or isinstance(y, tuple) or x is None or y is None:
            if op == "==":
                return x == y
            if op == "!=":
                return x != y
            raise Unk("arith on symbols")
        try:
            if op in "+*" and isinstance(x, bool) and isinstance(y, bool):
                return (x or y) if op == "+" else (x and y)
            return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y,
                    "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y,
                    "/": lambda: x / y, "//": lambda: x // y, "%": lambda: x % y}[op]()
        except (TypeError, KeyError, ZeroDivisionError):
            raise Unk("arith")
    return f


def gather(arr, idx):
    n = len(arr)
    if idx and all(isinstance(x, bool) for x in idx):
        if len(idx) != n:
            raise Unk("mask")
        return [x for x, m in zip(arr, idx) if m]
    out = []
    for i in idx:
        if i == INV:
            out.append(INV)
        elif isinstance(i, int):
            out.append(arr[i] if -n <= i < n else INV)
        else:
            raise Unk("index")
    return out


class Ev:
    """evaluate a term in the abstraction"""

    def __init__(self, env):
        self.env = dict(env)

    def ev(self, st, t):
        if ("dirty", t) in st.heap:
            raise Unk("written in place")
        if t in self.env:
            return self.env[t]
        if ("upd", t) in st.heap:
            return self.env[st.heap[("upd", t)]]
        o = t.op
        if o == "c":
            return cval(t)
        if o == "enum":
            return int(t.args[2]) if isinstance(t.args[2], int) else t
        if o == "tup":
            return tuple(self.ev(st, x) for x in t.args)
        if o == "obj":
            c = st.heap.get(("content", t))
            if c is None:
                raise Unk("object")
            if c[0] == "dict" and c[2] is None:
                return {self.ev(st, k): self.ev(st, v) for k, v in c[1]}
            if c[0] == "list" and c[2]:
                return ["pylist"] + [self.ev(st, x) for x in c[1]]
            raise Unk("object content")
        if o == "not":
            v = self.ev(st, t.args[0])
            if is_arr(v):
                raise Unk("truth of array")
            return not v
        if o == "slice":
            return slice(*(self.ev(st, x) for x in t.args))
        if o == "un":
            v = self.ev(st, t.args[1])
            f = {"-": lambda x: INV if x == INV else -x, "~": lambda x: (not x) if isinstance(x, bool) else ~x, "+": lambda x: x}.get({"USub": "-", "Invert": "~", "UAdd": "+"}.get(t.args[0], t.args[0]))
            if f is None:
                raise Unk("unary")
            return [f(x) for x in v] if is_arr(v) else f(v)
        if o == "bin":
            a, b = self.ev(st, t.args[1]), self.ev(st, t.args[2])
            op = t.args[0]
            if op == "*" and is_arr(a) and a[:1] == ["pylist"] and isinstance(b, int):
                return ["pylist"] + a[1:] * b
            if op == "*" and is_arr(b) and b[:1] == ["pylist"] and isinstance(a, int):
                return ["pylist"] + b[1:] * a
            return broadcast(arith(op), self.arr(a), self.arr(b))
        if o == "cmp":
            op = t.args[0]
            a, b = self.ev(st, t.args[1]), self.ev(st, t.args[2])
            if op == "is":
                if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                    return a is b
                raise Unk("is")
            if op in ("in", "not in"):
                r = a in (b if isinstance(b, (dict, tuple, str)) else self.arr(b))
                return r if op == "in" else not r
            return broadcast(arith(op), self.arr(a), self.arr(b))
        if o == "sub":
            a, i = self.ev(st, t.args[0]), self.ev(st, t.args[1])
            if isinstance(a, dict):
                if i in a:
                    return a[i]
                raise Unk("key")
            if isinstance(a, tuple):
                if isinstance(i, (int, slice)):
                    return a[i]
                raise Unk("tuple index")
            a = self.arr(a)
            if not is_arr(a):
                raise Unk("sub")
            if isinstance(i, slice):
                return a[i]
            if is_arr(i):
                return gather(a, self.arr(i))
            if isinstance(i, int):
                if -len(a) <= i < len(a):
                    return a[i]
            raise Unk("index")
        if o == "attr":
            if t.args[1] in ("inv",):
                return INV
            if t.args[1] in ("_fa", "_np", "_full"):
                return self.ev(st, t.args[0])
            if t.args[1] == "shape":
                v = self.ev(st, t.args[0])
                if is_arr(v):
                    return (len(v),)
            if t.args[1] in ("size",):
                v = self.ev(st, t.args[0])
                if is_arr(v):
                    return len(v)
            raise Unk("attr " + str(t.args[1]))
        if o == "call":
            return self.call(st, t)
        if o == "like":
            return self.ev(st, t.args[0])
        if o == "ite":
            return self.ev(st, t.args[1] if self.ev(st, t.args[0]) else t.args[2])
        raise Unk(o)

    @staticmethod
    def arr(x):
        if is_arr(x) and x[:1] == ["pylist"]:
            return x[1:]
        return x

    def call(self, st, t):
        f, args, kw = t.args[0], list(t.args[1]), dict(t.args[2])
        nm = call_name(f)
        if f.op == "attr" and f.args[0].op != "ext":
            args = [f.args[0]] + args
        elif f.op == "bm":
            args = [f.args[0]] + args
        A_ = lambda i: self.arr(self.ev(st, args[i]))
        n = len(args)
        if nm == "len" and n == 1:
            v = A_(0)
            if is_arr(v) or isinstance(v, (tuple, dict, str)):
                return len(v)
            raise Unk("len")
        if nm == "combine_filter" and n == 2:
            return [k if m else 0 for k, m in zip(A_(0), A_(1))]
        if nm in ("where", "np_where") and n == 3:
            c = A_(0)
            x, y = A_(1), A_(2)
            if not is_arr(c):
                raise Unk("where")
            return [(x[i] if is_arr(x) else x) if m else (y[i] if is_arr(y) else y) for i, m in enumerate(c)]
        if nm in ("hstack", "concatenate") and n == 1:
            v = self.ev(st, args[0])
            out = []
            for x in self.arr(v):
                x = self.arr(x)
                out += x if is_arr(x) else [x]
            return out
        if nm == "ReverseShuffle" and n == 1:
            v = A_(0)
            out = [None] * len(v)
            for i, x in enumerate(v):
                out[x] = i
            return out
        if nm in ("lexsort",) and n == 1:
            ks = [self.arr(x) for x in self.arr(self.ev(st, args[0]))]
            return sorted(range(len(ks[-1])), key=lambda i: tuple(k[i] for k in reversed(ks)))
        if nm in ("argsort",) and n == 1:
            v = A_(0)
            return sorted(range(len(v)), key=lambda i: v[i])
        if nm == "arange" and n == 1:
            return list(range(A_(0)))
        if nm in ("BinCount",) and n == 2:
            k, m = A_(0), A_(1)
            return [sum(1 for x in k if x == b) for b in range(m)]
        if nm in ("bool_to_fancy", "nonzero") and n == 1:
            return [i for i, x in enumerate(A_(0)) if x]
        if nm == "isnotnan" and n == 1:
            v = self.ev(st, args[0])
            return [x != INV for x in v] if is_arr(v) else v != INV
        if nm in ("isnan", "isinvalid") and n == 1:
            v = A_(0)
            if is_arr(v) and all(isinstance(x, (int, float, tuple)) for x in v):
                return [x == INV for x in v]
            if isinstance(v, (int, float)):
                return v != v
            raise Unk(nm)
        if nm in ("astype", "copy", "view", "ascontiguousarray", "asarray", "asanyarray", "array", "FastArray", "FA") and n >= 1:
            v = A_(0)
            if is_arr(v):
                return list(v)
            raise Unk(nm)
        if nm in ("int", "float", "bool", "abs", "min", "max", "round") and n >= 1:
            vs = [A_(i) for i in range(n)]
            if all(isinstance(v, (int, float)) and not is_arr(v) for v in vs):
                return {"int": int, "float": float, "bool": bool, "abs": abs, "min": min, "max": max, "round": round}[nm](*vs)
            raise Unk(nm)
        if nm == "unique" and n == 1:
            v = A_(0)
            if isinstance(v, (list, tuple)) and not any(isinstance(x, (list, tuple, dict)) for x in v):
                return sorted(set(v))
            raise Unk(nm)
        if nm == "isscalar" and n == 1:
            return not isinstance(A_(0), (list, tuple, dict)) and A_(0) is not None
        raise Unk(str(nm))


def pack(ikey, nb):
    """groupbypack: rows of bin 0, 1, ... in row order"""
    ig, first, cnt = [], [], []
    for b in range(nb):
        rows = [i for i, k in enumerate(ikey) if k == b]
        first.append(len(ig))
        cnt.append(len(rows))
        ig += rows
    return ig, first, cnt


class Scen:
    """one case of the abstraction"""

    def __init__(self, sort=False, packed=None, return_all=False, cfilter=None, ordered=False, base=1, enum=False, ikey=None, selfsort=None):
        self.sort, self.packed, self.return_all, self.cfilter, self.ordered = sort, packed, return_all, cfilter, ordered
        self.base, self.enum = base, enum
        self.ikey = list(ikey or IKEY)
        self.selfsort = sort if selfsort is None else selfsort


KERNELS = ("GroupByAll32", "GroupByAllPack32", "EmaAll32", "GroupByAll64", "GroupByAllPack64")


class GBHooks(Hooks):
    def __init__(self, prog, scen, cls):
        self.prog, self.scen, self.cls = prog, scen, prog.cls(cls)
        self.kernels = []
        self.unk = {}
        self.e = Ev({A: [("A", i) for i in range(ROWS)], B: [("B", i) for i in range(ROWS)], K: [("K", i) for i in range(ROWS)],
                     FIL: list(FILT), IK: scen.ikey, mk("p", "TIME"): [("T", i) for i in range(ROWS)], mk("p", "RESET"): [("X", i) for i in range(ROWS)],
                     SELF: [("self",)] * ROWS, GKEY: list(KEYS), mk("p", "CFILTER"): [("CF", i) for i in range(ROWS)],
                     mk("p", "WINDOW"): ("WINDOW",), mk("p", "DECAY"): ("DECAY",), mk("p", "N"): ("N",)})
        self.fa = prog.cls("FastArray")
        self.gcls, self.kcls = prog.cls("Grouping"), prog.cls("GroupByKeys")
        self.ds = {}

    # ------------------------------------------------------------- initial state
    def start(self, an):
        st = State()
        ex = lambda c: (frozenset([("exact", c)]), frozenset())
        st.types[SELF] = ex(self.cls)
        st.types[G] = ex(self.gcls)
        st.types[KC] = ex(self.kcls)
        for t in (A, B, K, FIL, IK, mk("p", "TIME"), mk("p", "RESET"), GKEY, mk("p", "CFILTER")):
            st.types[t] = ex(self.fa)
        sc = self.scen

        def d(items):
            o = an.new_obj(st, "dict", None)
            st.heap[("content", o)] = ("dict", tuple((C(k), v) for k, v in items), None)
            return o

        dset = d([("k", K), ("a", A), ("b", B)])
        kd = d([("k", K)])
        ud = d([("k", GKEY)])
        H = st.heap
        for nm, v in (("_dataset", dset if self.cls.name == "GroupBy" else NONE), ("_return_all", C(sc.return_all)), ("_totals", C(False)), ("_transform", C(False)),
                      ("_filter", mk("p", "CFILTER") if sc.cfilter else NONE)):
            H[(SELF, nm)] = v
        if self.cls.name == "GroupBy":
            H[(SELF, "_sort_display")] = C(sc.selfsort)
        if sc.packed is None:
            for nm in ("iGroup", "iFirstGroup", "nCountGroup", "iGroupReverse"):
                H[(G, nm)] = NONE
        for nm, v in (("_packed", C(sc.packed is not None)), ("_packedwithfilter", C(sc.packed == "filter")), ("_pcutoffs", NONE), ("iNextKey", NONE),
                      ("iFirstKey", NONE), ("_grouping_dict", NONE if self.cls.name == "Categorical" else kd), ("_grouping_unique_dict", ud), ("_enum", NONE),
                      ("_base_index", C(sc.base)), ("Ordered", C(sc.ordered)), ("_iKey", IK), ("_unique_count", C(NG))):
            H[(G, nm)] = v
        if sc.packed is not None:
            ik = sc.ikey if sc.packed == "plain" else [0 if m else k for k, m in zip(sc.ikey, FILT)]  # left over from an earlier, different filter
            for nm, v in zip(("iGroup", "iFirstGroup", "nCountGroup"), pack(ik, NG + 1)):
                t = mk("p", "OLD_" + nm)
                self.e.env[t] = v
                H[(G, nm)] = t
        for nm, v in (("_grouping_dict", ud), ("_gbkeys", ud), ("_ifirstkey", NONE), ("_isortrows", NONE), ("_sort_display", C(sc.sort)),
                      ("_pre_sorted", C(False)), ("_sort_applied", C(False)), ("_filter_applied", C(False)), ("_filter_applied_labels", C(False)),
                      ("_multikey_labels", NONE), ("_unique_count", C(NG))):
            H[(KC, nm)] = v
        return st

    # ------------------------------------------------------------- hooks
    def on_getattr(self, an, st, n, b, name):
        if b is SELF:
            if name in ("grouping", "_grouping"):
                return [(st, G)]
            if name in ("gb_keychain", "_gb_keychain"):
                return [(st, KC)]
            if name == "ikey":
                return [(st, IK)]
            if name == "isortrows":
                t = mk("p", "ISORT")
                self.e.env[t] = list(ISORT)
                return [(st, t)]
        if b is G:
            if name in ("ikey",):
                return [(st, IK)]
            if name in ("unique_count",):
                return [(st, C(NG))]
            if name == "isenum":
                return [(st, C(self.scen.enum))]
            if name in ("_anydict", "uniquedict"):
                return [(st, st.heap[(G, "_grouping_unique_dict")])]
        return None

    def dirty(self, st, b):
        s = st.copy()
        s.heap[("dirty", b)] = C(True)
        return [s]

    def on_setitem(self, an, st, n, b, i, v):
        if b.op == "sub" and b not in self.e.env:
            try:
                old, ix, val = (self.e.ev(st, x) for x in (b, i, v))
                if is_arr(old) and is_arr(ix) and len(ix) == len(old) and all(isinstance(x, bool) for x in ix) and not is_arr(val):
                    s = st.copy()
                    s.heap[("upd", b)] = self.fresh([val if k else x for x, k in zip(old, ix)], "upd")
                    return [s]
            except (Unk, TypeError, KeyError, IndexError, ValueError, AttributeError):
                pass
        if b.op != "obj":
            return self.dirty(st, b)
        return None

    def on_aug(self, an, st, n, target, op, a, b):
        return None

    def fresh(self, value, tag):
        t = mk("p", f"{tag}#{len(self.e.env)}")
        self.e.env[t] = value
        return t

    def on_call(self, an, st, n, f, args, kwargs):
        nm = call_name(f)
        if nm == "LedgerFunction" and args and args[0].op == "ext":
            return self.on_call(an, st, n, args[0], args[1:], kwargs)
        if nm in KERNELS and f.op == "ext":
            return self.kernel(an, st, n, nm, args)
        if nm == "groupbypack" and f.op in ("fn", "ext"):
            try:
                ik = self.e.ev(st, args[0])
                nb = self.e.ev(st, args[2] if len(args) > 2 else kwargs["num_unique"] if "num_unique" in kwargs else kwargs["unique_count"])
                ig, first, cnt = pack(self.e.arr(ik), nb)
            except (Unk, KeyError, IndexError, TypeError):
                return [(st, mk("call", f, tuple(args), ()))]
            s = st.copy()
            o = an.new_obj(s, "dict", n)
            ts = [self.fresh(x, "pack") for x in (ig, first, cnt)]
            for t in ts:
                s.types[t] = (frozenset([("exact", self.fa)]), frozenset())
            s.heap[("content", o)] = ("dict", tuple(zip((C("iGroup"), C("iFirstGroup"), C("nCountGroup")), ts)), None)
            return [(s, o)]
        if nm == "newclassfrominstance" and len(args) == 2:
            return [(st, mk("like", args[0], args[1]))]
        if nm == "get_name" and f.op == "bm" and f.args[0] in (A, B):
            return [(st, C("a" if f.args[0] is A else "b"))]
        if nm in ("warn", "warning", "info", "debug"):
            return [(st, NONE)]
        if f.op == "cls" and f.args[0].name == "Dataset" and args:
            a = args[0]
            c = st.heap.get(("content", a)) if a.op == "obj" else None
            if c is not None and c[0] == "dict" and c[2] is None:
                s = st.copy()
                o = an.new_obj(s, "dict", n)
                s.heap[("content", o)] = c
                s.heap[("isds", o)] = C(True)
                return [(s, o)]
        if f.op == "attr" and nm == "label_set_names" and f.args[0].op == "obj":
            s = st.copy()
            s.heap[("labels", f.args[0])] = args[0] if args else NONE
            return [(s, NONE)]
        if nm == "fill_invalid":
            sh = kwargs.get("shape")
            m = cval(sh) if sh is not None and is_const(sh) and isinstance(cval(sh), int) else NG
            return [(st, self.fresh([INV] * m, "inv"))]
        return None

    def kernel(self, an, st, n, nm, args):
        try:
            vals = [self.e.ev(st, a) for a in args]
        except Unk as e:
            self.unk["kernel " + nm] = f"argument not determined: {e}"
            s = st.copy()
            s.mark("unk-kernel")
            return [(s, mk("call", mk("ext", nm), tuple(args), ()))]
        cols = [self.e.arr(c) for c in self.e.arr(vals[0])]
        arr = self.e.arr
        self.kernels.append((nm, vals, getattr(n, "lineno", 0)))
        s = st.copy()
        try:
            if nm.startswith("EmaAll"):
                _, ik, uq, func, param = vals[:5]
                out = []
                for c in cols:
                    out.append([("ema", func, param_tag(param), c[r], tuple(c[x] for x in range(len(ik)) if ik[x] == ik[r]), uq) for r in range(len(ik))])
            elif nm.startswith("GroupByAllPack"):
                _, ik, ig, first, cnt, uq, funcs, lows, highs, param = vals[:10]
                out = self.packed(cols, ik, ig, first, cnt, uq, arr(funcs), arr(lows), arr(highs), param)
            else:
                _, ik, uq, funcs, lows, highs, param = vals[:7]
                out = []
                for c, f, lo, hi in zip(cols, arr(funcs), arr(lows), arr(highs)):
                    out.append([("skip", b) if not lo <= b < hi else ("red", f, param_tag(param), tuple(c[r] for r in range(len(ik)) if ik[r] == b)) for b in range(uq + 1)])
        except (ValueError, IndexError, TypeError) as e:
            self.unk["kernel " + nm] = f"argument shape: {e}"
            s.mark("unk-kernel")
            return [(s, mk("call", mk("ext", nm), tuple(args), ()))]
        ts = [self.fresh(o, "kern") for o in out]
        for t in ts:
            s.types[t] = (frozenset([("exact", self.fa)]), frozenset())
        if nm.startswith("EmaAll"):
            o = an.new_obj(s, "list", n)
            s.heap[("content", o)] = ("list", tuple(ts), True)
            return [(s, o)]
        return [(s, mk("tup", *ts))]

    def packed(self, cols, ik, ig, first, cnt, uq, funcs, lows, highs, param):
        out = []
        for c, f, lo, hi in zip(cols, funcs, lows, highs):
            bins = [[ig[j] for j in range(first[b], first[b] + cnt[b])] for b in range(uq + 1)]
            if f >= self.rolling:
                res = [("norow",)] * len(ik)
                for b in range(uq + 1):
                    if lo <= b < hi:
                        for r in bins[b]:
                            res[r] = ("roll", f, param_tag(param), c[r] if is_arr(c) and isinstance(c[r], tuple) else ("row", r), tuple(bins[b]))
            else:
                res = [("skip", b) if not lo <= b < hi else ("red", f, param_tag(param), tuple(c[r] for r in bins[b])) for b in range(uq + 1)]
            out.append(res)
        return out

    def inline(self, an, st, n, fn, args, kwargs):
        if fn.module.name in ("riptable.rt_numpy", "riptable.rt_fastarray", "riptable.rt_dataset", "riptable.rt_struct") and not fn.name.startswith("_groupbycalc"):
            return False
        return None

    def on_cond(self, an, st, n, c):
        try:
            r = self.e.ev(st, c)
        except (Unk, TypeError, KeyError, IndexError):
            return self.other_cond(an, st, c)
        if isinstance(r, (list, tuple, dict, slice)):
            if isinstance(r, (tuple, dict)):
                return bool(r)
            return None
        return bool(r)

    def other_cond(self, an, st, c):
        if c.op == "attr" and c.args[1] == "DebugMode":
            return False
        if c.op == "isinst":
            x = c.args[0]
            if is_const(x) and isinstance(cval(x), (int, float)):
                return any(y in ("int", "float", "numbers.Number") and isinstance(cval(x), float if y == "float" else int) for y in c.args[1])
            if x.op == "obj":
                ds = ("isds", x) in st.heap
                names = [y.name if hasattr(y, "name") else str(y) for y in c.args[1]]
                if x.args[0] == "list":
                    return any(y.split(".")[-1] in ("list", "Iterable", "Sequence", "Sized", "Collection") for y in names)
                return any(y.split(".")[-1] in (("Dataset", "Struct") if ds else ("dict", "Mapping", "MutableMapping")) for y in names)
        if c.op == "cmp" and c.args[0] == "in" and is_const(c.args[2]) and isinstance(cval(c.args[2]), str) and "dtype.char" in show(c.args[1]):
            return False
        if c.op == "call" and call_name(c.args[0]) in ("is_array_subclass", "is_string_or_object", "is_datelike", "is_spanlike", "contains_np_arrays"):
            return False
        if c.op == "cmp" and c.args[0] in ("==", "<", "<=") and "dtype" in show(c):
            return False
        if c.op == "call" and call_name(c.args[0]) == "callable" and c.args[1] and (is_const(c.args[1][0]) or c.args[1][0].op == "obj"):
            return False
        if c.op == "hasattr":
            return False if c.args[0] is SELF else None
        if c.op == "cmp" and c.args[0] in ("==", "is") and all(x.op in ("cls", "ext") for x in c.args[1:]):
            return c.args[1] is c.args[2]
        if c.op == "cmp" and c.args[0] == "is" and c.args[2] is NONE and c.args[1].op in ("attr",) and c.args[1].args[0] is G:
            return True
        self.unk["cond " + show(c)[:80]] = 1
        return None


def param_tag(p):
    """hashable image of a kernel parameter"""
    if isinstance(p, (tuple, list)):
        return tuple(param_tag(x) for x in p)
    return p


def run_op(prog, cls, op, args, kwargs, scen, max_steps=150000, prep=None):
    h = GBHooks(prog, scen, cls)
    h.rolling = rolling_start(prog)
    an = Interp(prog, h, max_depth=40, max_steps=max_steps)
    fn = h.cls.find(op)
    if fn is None:
        return None
    st = h.start(an)
    if prep is not None:
        args = prep(an, st)
    b = an.bind(st, fn, [SELF] + list(args), kwargs, fn.node)
    if b is None:
        return None
    st = b.pop("__state__", st)
    outs = an.exec_function(fn, b, st, None)
    return fn, h, an, outs


def rolling_start(prog):
    from sa.absint import Interp as I

    t = I(prog).class_attr(prog.cls("GB_FUNCTIONS"), "GB_ROLLING_SUM")
    return int(t.args[2]) if t.op == "enum" else int(cval(t))


def columns(h, st, v):
    """name -> cells of a returned Dataset"""
    if v.op != "obj":
        raise Unk("result is not a Dataset literal: " + show(v)[:80])
    c = st.heap.get(("content", v))
    if c is None or c[0] != "dict" or c[2] is not None:
        raise Unk("result content")
    return {cval(k): (x, h.e.ev(st, x)) for k, x in c[1]}
