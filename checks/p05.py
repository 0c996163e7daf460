"""P05: value of date/time addition and subtraction in units (days vs nanoseconds), and unit tables."""
from sa.absint import Budget
from .dt_common import *
from .cal_common import CalHooks, Chains, glob_literal, literal, norm, run_method

OPS = (("__add__", "+", ADD, 0), ("__sub__", "-", SUB, 0), ("__radd__", "+", ADD, 1), ("__iadd__", "+", ADD, 0), ("__isub__", "-", SUB, 0))


def run(prog, rep):
    rep.rule("LINEAR", "on every analysed return path of left op right the stored number of the result is exactly the combination of the operands' stored "
                       "numbers implied by their units (days for dates and day spans, nanoseconds for instants and durations)")
    rep.rule("UNITS", "the unit tables and module constants map every unit name to its length in nanoseconds")
    rep.assume("numpy and native kernels add and subtract elementwise; view/astype/constructors with a UTC source keep the stored number")
    dec = 0
    for op, sym, tab, rev in OPS:
        for left, right in pairs():
            if op in ("__radd__", "__iadd__", "__isub__") and left not in ARR:
                continue
            if op == "__radd__" and right not in ARR:
                continue
            try:
                x = analyse(prog, left, op, right)
            except Budget:
                rep.undecide("LINEAR", f"{left} {op} {right}", "path budget exceeded")
                continue
            if x is None:
                continue
            fn, h, an, outs, ops = x
            if rev:
                fam, el = expected(tab, sym, right, left)
                if fam is not None:
                    el = Lin({"self": el.c.get("value"), "value": el.c.get("self")})
            else:
                fam, el = expected(tab, sym, left, right)
            if fam is None:
                continue
            rep.analysed(fn)
            rep.paths += len(outs)
            con = f"{left} {sym}{'=' if op.startswith('__i') else ''}{' (reflected)' if rev else ''} {right}"
            for o in outs:
                if o.kind != "return":
                    continue
                if h.fam(an, o.state, o.value) != fam:
                    continue  # wrong kinds are P04's business
                le = LinEval(an, h, o.state, ops)
                l = le.lin(o.value)
                if l is None:
                    rep.undecide("LINEAR", con, f"no linear form for {show(o.value)[:120]}")
                    continue
                dec += 1
                rep.ob("LINEAR", con, l == el, f"{fn.qual} stores {l}, the units require {el}: {show(o.value)[:200]}", fn.loc)
    units(prog, rep)
    rep.count("decided_paths", dec)
    rep.floor("decided linear forms", dec, 60)


UNIT = {"Y": 365 * NS_DAY, "W": 7 * NS_DAY, "D": NS_DAY, "h": 3600 * 10**9, "m": 60 * 10**9, "s": 10**9, "ms": 10**6, "us": 10**3, "ns": 1}
FREQ = {"H": "h", "T": "m", "MIN": "m", "S": "s", "L": "ms", "MS": "ms", "U": "us", "US": "us", "N": "ns", "NS": "ns"}
MATLAB = 719529  # day number of 1970-01-01 counted from 0-Jan-0000


class NewHooks(CalHooks):
    """constructor of an array of float64 numbers: decides the dtype-character branches"""
    char = "d"

    def on_cond(self, an, st, node, t):
        if t.op == "cmp" and t.args[0] in ("in", "==") and t.args[1].op == "attr" and t.args[1].args[1] in ("char", "kind"):
            b = t.args[2]
            me = self.char if t.args[1].args[1] == "char" else "f"
            if b.op == "c" and isinstance(cval(b), str):
                return me in cval(b) if t.args[0] == "in" else me == cval(b)
            e = an.known_elts(st, b)
            if e is not None and all(x.op == "c" for x in e):
                return me in [cval(x) for x in e]
            return None
        return super().on_cond(an, st, node, t)


def construct(prog, cls, binds, types):
    v = {k: mk("p", k) for k in types}

    def setup(st, b):
        for k, c in types.items():
            st.types[v[k]] = (frozenset([("exact", prog.cls(c))]), frozenset())
    fn, h, an, outs, sv = run_method(prog, cls, "__new__", hooks=NewHooks(prog), binds={"cls": mk("cls", prog.cls(cls)), **v, **binds}, setup=setup)
    res = []
    for o in outs:
        if o.kind != "return":
            res.append(("raise", an.exc_name(o.value), o))
            continue
        ch = Chains(prog, an, list(v.values())[0], "V", tzfix=())
        t = o.value
        for x in subterms(t):
            if call_name(x) == "to_utc" and x.args[1]:
                t = x.args[1][0]
                break
        c = ch.ch(t)
        res.append(("return", None if c is None else c[1], o))
    return fn, res


def units(prog, rep):
    def expect(cls, what, binds, types, chain):
        try:
            fn, res = construct(prog, cls, binds, types)
        except Budget:
            rep.undecide("UNITS", f"{cls} {what}", "path budget exceeded")
            return 0
        rep.analysed(fn)
        n = 0
        for k, c, o in res:
            if k != "return":
                continue
            if chain is None:
                rep.ob("UNITS", f"{cls} {what}", False, f"{fn.qual} accepts it: {show(o.value)[:160]}", fn.loc)
                n += 1
            elif c is None:
                rep.undecide("UNITS", f"{cls} {what}", show(o.value)[:160])
            else:
                n += 1
                rep.ob("UNITS", f"{cls} {what}", c == norm(chain), f"{fn.qual} stores {c} of the given number, required {norm(chain)}", fn.loc)
        if chain is None and not n and any(k == "raise" for k, c, o in res):
            n += 1
            rep.ob("UNITS", f"{cls} {what}", True)
        return n
    n = 0
    for u, k in UNIT.items():
        n += expect("TimeSpan", f"unit {u!r}", {"unit": C(u)}, {"values": "FastArray"}, (("*", k),))
    n += expect("TimeSpan", "without unit", {"unit": C(None)}, {"values": "FastArray"}, ())
    n += expect("TimeSpan", "unknown unit", {"unit": C("fortnight")}, {"values": "FastArray"}, None)
    for u, k in (("W", 7), ("w", 7), (None, 1), ("D", 1)):
        n += expect("DateSpan", f"unit {u!r}", {"unit": C(u)}, {"arr": "FastArray"}, (("*", k),))
    n += expect("Date", "from day numbers", {}, {"arr": "FastArray"}, ())
    n += expect("Date", "from Matlab day numbers", {"from_matlab": TRUE}, {"arr": "FastArray"}, (("+", -MATLAB),))
    n += expect("Date", "from instants", {}, {"arr": "DateTimeNano"}, (("//", NS_DAY),))
    n += expect("DateTimeNano", "from nanoseconds", {}, {"arr": "FastArray"}, ())
    n += expect("DateTimeNano", "from dates", {}, {"arr": "Date"}, (("*", NS_DAY),))
    n += expect("DateTimeNano", "from Matlab day numbers", {"from_matlab": TRUE}, {"arr": "FastArray"}, (("+", -MATLAB), ("*", NS_DAY)))
    # resampling frequencies name the same units
    c = prog.cls("DateTimeNano")
    node = c.attrs.get("FrequencyStrings")
    tab = literal(prog, c.module, node) if node is not None else None
    if isinstance(tab, dict):
        for k, v in tab.items():
            if k in FREQ:
                n += 1
                rep.ob("UNITS", f"resample frequency {k}", v == FREQ[k], f"frequency {k!r} resamples by unit {v!r}, expected {FREQ[k]!r}", c.module.relpath)
    rep.count("unit_instances", n)
    rep.floor("unit conversions decided", n, 16)
