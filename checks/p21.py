"""P21: calendar and clock fields of dates, instants and durations."""
from sa.absint import Budget
from .cal_common import *

YW = ("ss", "years-W", "right")
YD = ("ss", "years-D", "right")
SOYW = ("soy", "years-W", (YW, ("+", -1)))
SOYD = ("soy", "years-D", (YD, ("+", -1)))
YEARW, YEARD = (YW, ("+", 1969)), (YD, ("+", 1969))
MONW, MOND = (SOYW, ("ss", "yday-W", "right")), (SOYD, ("ss", "yday-D", "right"))
DOMW, DOMD = (SOYW, ("som", "yday-W"), ("//", DAY), ("+", 1)), (SOYD, ("som", "yday-D"), ("+", 1))
DOWW, DOWD = (("//", DAY), ("+", 3), ("%", 7)), (("+", 3), ("%", 7))
# field -> accepted chains (normal form) on wall-clock nanoseconds
DTN = {
    "year": [YEARW], "month": [MONW], "day_of_month": [DOMW], "day_of_year": [(SOYW, ("//", DAY), ("+", 1))], "day_of_week": [DOWW],
    "hour": [(("%", DAY), ("/", HOUR))], "minute": [(("%", HOUR), ("/", MIN))], "second": [(("%", MIN), ("/", SEC))],
    "millisecond": [(("%", SEC), ("/", MS))], "microsecond": [(("%", MS), ("/", US))], "nanosecond": [(("%", US),)],
    "day": [(("%", DAY), ("/", DAY))],
    "hour_span": [(("%", DAY),)], "minute_span": [(("%", HOUR),)], "second_span": [(("%", MIN),)], "millisecond_span": [(("%", SEC),)],
    "microsecond_span": [(("%", MS),)], "nanosecond_span": [(("%", US),)], "time_since_midnight": [(("%", DAY),)],
    "nanos_since_midnight": [(("%", DAY),)], "millis_since_midnight": [(("%", DAY), ("/", MS))],
    "nanos_since_start_of_year": [(SOYW,)], "time_since_start_of_year": [(SOYW,)],
    "days_since_epoch": [(("//", DAY),)], "seconds_since_epoch": [(("//", SEC),)],
    "date": [(("fl", DAY),)], "start_of_week": [(("//", DAY), ("+", 3), ("fl", 7), ("+", -3))],
}
DATE = {
    "year": [YEARD], "month": [MOND], "day_of_month": [DOMD], "day_of_year": [(SOYD, ("+", 1))], "day_of_week": [DOWD],
    "seconds_since_epoch": [(("*", 86400),)],
}
SPAN = {"days": [(("/", DAY),)], "hours": [(("/", HOUR),)], "minutes": [(("/", MIN),)], "seconds": [(("/", SEC),)],
        "milliseconds": [(("/", MS),)], "microseconds": [(("/", US),)], "nanoseconds": [()]}
SUMS = {
    ("DateTimeNano", "yyyymmdd"): {("W", YEARW): 10000, ("W", MONW): 100, ("W", DOMW): 1},
    ("DateTimeNanoScalar", "yyyymmdd"): {("W", YEARW): 10000, ("W", MONW): 100, ("W", DOMW): 1},
    ("Date", "start_of_week"): {("D", ()): 1, ("D", DOWD): -1},
    ("Date", "start_of_month"): {("D", ()): 1, ("D", DOMD): -1, None: 1},
    ("TimeSpan", "hhmmss"): {("U", (("//", 3600 * SEC),)): 10000, ("U", (("%", 3600 * SEC), ("//", 60 * SEC))): 100, ("U", (("%", 60 * SEC), ("//", SEC))): 1},
}
PRED = {("DateTimeNano", "is_weekday"): ("W", DOWW, "<", 5), ("DateTimeNano", "is_weekend"): ("W", DOWW, ">", 4),
        ("DateTimeNanoScalar", "is_weekday"): ("W", DOWW, "<", 5), ("DateTimeNanoScalar", "is_weekend"): ("W", DOWW, ">", 4),
        ("Date", "is_weekday"): ("D", DOWD, "<", 5), ("Date", "is_weekend"): ("D", DOWD, ">", 4),
        ("Date", "is_leapyear"): ("D", YEARD + (("%", 4),), "==", 0)}


def simplify(base, ch):
    """compose constants of an affine prefix/suffix so that e.g. (year chain)+const%4 compare equal"""
    return base, norm(ch)


def lincomb(chs, t, k=1, out=None):
    """t as a linear combination of chains: {(base, chain): coef, None: const}"""
    out = {} if out is None else out
    c = chs.ch(t)
    if c is not None:
        base, ch = c
        # a trailing affine step belongs to the combination
        mul, add, rest = 1, 0, list(ch)
        while rest and rest[-1][0] in ("+", "*"):
            o = rest.pop()
            if o[0] == "+":
                add += mul * o[1]
            else:
                mul *= o[1]
        key = (base, tuple(rest))
        out[key] = out.get(key, 0) + k * mul
        if add:
            out[None] = out.get(None, 0) + k * add
        return out
    n = chs.num(t)
    if n is not None:
        out[None] = out.get(None, 0) + k * n
        return out
    a = b = op = None
    if t.op == "bin" and t.args[0] in ("+", "-", "*"):
        op, a, b = t.args
    elif t.op == "call":
        f, args, kw = t.args
        nm = call_name(t)
        recv = f.args[0] if f.op in ("bm", "attr") and f.args[0].op not in ("ext", "mod", "cls") else None
        if recv is not None and nm in PASS:
            return lincomb(chs, recv, k, out)
        if recv is not None and nm in DUN and len(args) == 1 and DUN[nm] in ("+", "-", "*"):
            op, a, b = DUN[nm], recv, args[0]
        elif f.op == "ext" and nm in NPF and NPF[nm] in ("+", "-", "*"):
            op, a, b = NPF[nm], args[0], args[1]
    elif t.op == "inst" and t.args[1]:
        return lincomb(chs, t.args[1][0], k, out)
    if op in ("+", "-"):
        if lincomb(chs, a, k, out) is None:
            return None
        return lincomb(chs, b, k if op == "+" else -k, out)
    if op == "*":
        for x, y in ((a, b), (b, a)):
            n = chs.num(y)
            if n is not None:
                return lincomb(chs, x, k * n, out)
    return None


def expand(spec):
    out = {}
    for key, k in spec.items():
        if key is None:
            out[None] = out.get(None, 0) + k
            continue
        base, ch = key
        rest = list(norm(ch))
        mul, add = 1, 0
        while rest and rest[-1][0] in ("+", "*"):
            o = rest.pop()
            if o[0] == "+":
                add += mul * o[1]
            else:
                mul *= o[1]
        kk = (base, tuple(rest))
        out[kk] = out.get(kk, 0) + k * mul
        if add:
            out[None] = out.get(None, 0) + k * add
    return {a: b for a, b in out.items() if b}


def chain_txt(c):
    if c is None:
        return "?"
    names = {"W": "wall-clock ns", "U": "UTC ns", "D": "days"}
    return f"{names.get(c[0], c[0])}: " + " ".join(map(str, c[1]))


def predicate(chs, t):
    """(base, chain, op, const) of a comparison, normalised for integers"""
    if t.op == "call" and call_name(t) in ("__lt__", "__gt__", "__le__", "__ge__", "__eq__") and t.args[0].op in ("bm", "attr"):
        op = {"__lt__": "<", "__gt__": ">", "__le__": "<=", "__ge__": ">=", "__eq__": "=="}[call_name(t)]
        a, b = t.args[0].args[0], t.args[1][0]
    elif t.op == "cmp":
        op, a, b = t.args
    elif t.op == "not":
        p = predicate(chs, t.args[0])
        if p is None:
            return None
        flip = {"<": (">", -1), ">": ("<", 1)}
        if p[2] in flip:
            o, d = flip[p[2]]
            return (p[0], p[1], o, p[3] + d)
        return None
    else:
        return None
    k = chs.num(b)
    if k is None:
        k = chs.num(a)
        if k is None:
            return None
        a = b
        op = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "=="}.get(op, op)
    c = chs.ch(a)
    if c is None:
        return None
    if op == "<=":
        op, k = "<", k + 1
    elif op == ">=":
        op, k = ">", k - 1
    return (c[0], norm(c[1]), op, k)


def run(prog, rep):
    rep.rule("FIELD", "the normal form of every value-flow path of a field accessor equals the calendar/clock definition of that field on wall-clock time")
    rep.rule("LEAP", "month tables: the leap-year table replaces the common-year table exactly under year % 4 == 0 (correct for 1970-2099)")
    rep.rule("CLOCK", "a raw UTC value reaches a field only through exactly one timezone conversion")
    rep.assume("numpy/native searchsorted, floor division and modulo behave as documented; 1970 <= year <= 2099")
    decided = 0
    jobs = []
    for cls, base, wall, spec in (("DateTimeNano", "U", "W", DTN), ("DateTimeNanoScalar", "U", "W", DTN), ("Date", "D", "D", DATE), ("TimeSpan", "U", "U", SPAN),
                                  ("TimeSpanScalar", "U", "U", SPAN)):
        for name, chains in spec.items():
            jobs.append((cls, base, name, "chain", [(wall, norm(c)) for c in chains]))
    for (cls, name), s in SUMS.items():
        jobs.append((cls, "D" if cls == "Date" else "U", name, "sum", expand(s)))
    for (cls, name), s in PRED.items():
        jobs.append((cls, "D" if cls == "Date" else "U", name, "pred", (s[0], norm(s[1]), s[2], s[3])))
    for cls, base, name, kind, want in jobs:
        con = f"{cls}.{name}"
        try:
            x = run_method(prog, cls, name)
        except Budget:
            rep.undecide("FIELD", con, "path budget exceeded")
            continue
        if x is None:
            rep.undecide("FIELD", con, "accessor not found")
            continue
        fn, h, an, outs, sv = x
        rep.analysed(fn)
        chs = Chains(prog, an, sv, base)
        one = False
        for o in outs:
            if o.kind != "return":
                continue
            rep.paths += 1
            v = o.value
            if kind == "chain":
                got = chs.ch(v)
                if got is None:
                    lc = lincomb(chs, v)
                    if lc is not None and lc and set(lc.values()) != {0}:
                        exp = [expand({w: 1}) for w in want]
                        got_t = {a: b for a, b in lc.items() if b}
                        if got_t in exp:
                            one = True
                            rep.ob("FIELD", con, True)
                        else:
                            rep.undecide("FIELD", con, f"value {show(v)[:120]}")
                        continue
                    rep.undecide("FIELD", con, f"value {show(v)[:120]}")
                    continue
                one = True
                rep.ob("FIELD", con, got in want, f"{fn.qual} computes [{chain_txt(got)}], the definition is [{chain_txt(want[0])}]", fn.loc)
            elif kind == "sum":
                lc = lincomb(chs, v)
                if lc is None:
                    rep.undecide("FIELD", con, f"value {show(v)[:120]}")
                    continue
                got = {a: b for a, b in lc.items() if b}
                one = True
                diff = [f"{b}*[{chain_txt(a) if a else 1}]" for a, b in got.items() if want.get(a) != b]
                rep.ob("FIELD", con, got == want, f"{fn.qual}: terms {diff} differ from the definition", fn.loc)
            else:
                p = predicate(chs, v)
                if p is None:
                    rep.undecide("FIELD", con, f"value {show(v)[:120]}")
                    continue
                one = True
                rep.ob("FIELD", con, p == want, f"{fn.qual} tests {chain_txt(p[:2])} {p[2]} {p[3]}, the definition is {chain_txt(want[:2])} {want[2]} {want[3]}", fn.loc)
            # masked updates on the way
            for m in o.state.marks:
                if m[0] != "mask":
                    continue
                _mask(rep, chs, con, fn, m)
        if one:
            decided += 1
        # which clock reaches the field
        for o in outs:
            if o.kind == "return" and base == "U" and cls.startswith("DateTimeNano"):
                bad = raw_use(chs, o.value)
                rep.ob("CLOCK", con, bad is None, f"{fn.qual}: {show(bad)[:120] if bad else ''} uses UTC time directly or converts twice", fn.loc)
    rep.count("fields_decided", decided)
    rep.floor("fields with a decided normal form", decided, 50)


def _mask(rep, chs, con, fn, m):
    _, basev, cond, val = m
    cb, cv = chs.ch(basev), chs.ch(val)
    if cb is None or cv is None:
        return
    leap = [o for o in cv[1] if len(o) > 1 and isinstance(o[1], str) and o[1].startswith("ydayleap")]
    if not leap:
        return
    p = predicate(chs, cond)
    u = leap[0][1].split("-")[1]
    year = YEARW if u == "W" else YEARD
    ok = p is None or p == (cb[0], norm(year + (("%", 4),)), "==", 0)
    rep.ob("LEAP", con + " mask", ok, f"{fn.qual}: leap-year fix-up applied under {chain_txt(p[:2]) if p else ''} {p[2:] if p else ''}", fn.loc)
    common = tuple(tuple(x.replace("ydayleap", "yday") if isinstance(x, str) else x for x in o) if isinstance(o, tuple) else o for o in cv[1])
    rep.ob("LEAP", con + " table", common == cb[1], f"{fn.qual}: leap-year value [{chain_txt(cv)}] is not the common-year value [{chain_txt(cb)}] with the leap table", fn.loc)


SAFE = {"isnan", "isnotnan", "isfinite", "isnotfinite", "isnanorzero", "_is_dst", "_tz_offset", "__len__", "len"}


def raw_use(chs, t, seen=None):
    """a subterm in which the raw instant is used outside a timezone conversion (or converted twice)"""
    seen = seen if seen is not None else set()
    if t in seen:
        return None
    seen.add(t)
    c = chs.ch(t)
    if c is not None and (c[0] == "U" or c[0] not in ("W", "D")):
        return t
    if t.op == "call" and call_name(t) in SAFE | {"fix_dst"}:
        return None
    if t.op == "attr":
        return None
    for a in t.args:
        for b in (a if isinstance(a, tuple) else (a,)):
            for x in (b if isinstance(b, tuple) else (b,)):
                if isinstance(x, T):
                    r = raw_use(chs, x, seen)
                    if r is not None:
                        return r
    return None
