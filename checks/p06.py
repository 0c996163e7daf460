"""P06: operations on instants keep the instant and the display timezone."""
from sa.absint import Budget
from .dt_common import *
from .cal_common import CalHooks, run_method

UTC = ("GMT", "UTC")
SKIP = {"__new__", "__init__", "_from_arrow", "_from_meta_data", "_load_from_sds_meta_data", "newclassfrominstance", "hstack", "random", "random_invalid",
        "_random", "astimezone", "set_timezone", "__array_finalize__", "astype"}


def built(an, st, t):
    """(raw argument, source timezone term or None, display timezone term or None, origin term) of an expression building an instant array"""
    if t.op == "inst" and t.args[0].name in ("DateTimeNano", "DateTimeNanoScalar"):
        c, args, kw = t.args
        kw = dict(kw)
        pos = ["arr", "from_tz", "to_tz"] if c.name == "DateTimeNano" else ["arr"]
        for n, a in zip(pos, args):
            kw.setdefault(n, a)
        if "**" in kw:
            return None
        return kw.get("arr"), kw.get("from_tz"), kw.get("to_tz"), kw.get("_from")
    if t.op == "sub":
        return built(an, st, t.args[0])
    if call_name(t) == "newclassfrominstance":
        a = t.args[1]
        if a and a[0].op == "cls":
            a = a[1:]
        if len(a) >= 2:
            return a[0], None, None, a[1]
    return None


def to_tz_of(t):
    """X when t is X's display timezone"""
    if t is not None and t.op == "attr" and t.args[1] in ("_to_tz", "_timezone_str") and t.args[0].op == "attr" and t.args[0].args[1] == "_timezone":
        return t.args[0].args[0]
    return None


def tzroot(t):
    """operand a value was taken from, through views, copies and constructors"""
    while True:
        if t.op == "inst" and t.args[1]:
            t = t.args[1][0]
        elif t.op == "attr" and t.args[1] in ("_fa", "_np"):
            t = t.args[0]
        elif t.op == "call" and call_name(t) in ("view", "astype", "copy", "__getitem__") and t.args[0].op in ("bm", "attr"):
            t = t.args[0].args[0]
        elif t.op == "sub":
            t = t.args[0]
        else:
            return t


def is_wall(t):
    return any(call_name(x) == "fix_dst" for x in subterms(t))


def judge(rep, con, fn, an, st, t, owners, tz_ok=None):
    """one built instant value against: UTC number in, display timezone of one of `owners` out.  -> decided?"""
    b = built(an, st, t)
    if b is None:
        rep.undecide("INSTANT", con, f"not a recognised construction: {show(t)[:100]}")
        return False
    raw, ftz, ttz, origin = b
    if raw is None:
        return False
    wall = is_wall(raw)
    if origin is None:
        if wall:
            ok = ftz is not None and to_tz_of(ftz) is not None and tzroot(to_tz_of(ftz)) in owners
            rep.ob("INSTANT", con, ok, f"{fn.qual} builds an instant from wall-clock numbers read as {show(ftz) if ftz else 'UTC'}", fn.loc)
        else:
            ok = ftz is None or ftz is NONE or (is_const(ftz) and cval(ftz) in UTC)
            rep.ob("INSTANT", con, ok, f"{fn.qual} re-reads stored UTC numbers as local time of {show(ftz) if ftz is not None else ''}", fn.loc)
        if tz_ok is not None:
            ok = ttz is not None and tz_ok(ttz)
        else:
            x = to_tz_of(ttz)
            ok = x is not None and tzroot(x) in owners
        rep.ob("DISPLAY-TZ", con, ok, f"{fn.qual} displays the result in {show(ttz) if ttz is not None else 'the default timezone'} instead of its operand's timezone", fn.loc)
    else:
        rep.ob("DISPLAY-TZ", con, tzroot(origin) in owners, f"{fn.qual} takes the display timezone from {show(origin)}", fn.loc)
    return True


def run(prog, rep):
    rep.rule("INSTANT", "every construction of an instant array from stored numbers declares them UTC; one built from wall-clock numbers declares the same "
                        "timezone they were displayed in")
    rep.rule("DISPLAY-TZ", "the result's display timezone is that of the operand / the argument / the stored metadata")
    rep.rule("FORWARD", "string parsers hand both timezone arguments to the constructor unchanged")
    rep.rule("COPY", "re-wrapping and scalar extraction carry the timezone object over completely")
    rep.rule("MIX", "concatenation refuses inputs with different display timezones")
    rep.assume("the constructor converts from its source timezone as decided under P22")
    dec = 0
    # A: arithmetic
    for op, tab in (("__add__", ADD), ("__sub__", SUB), ("__radd__", ADD), ("__iadd__", ADD), ("__isub__", SUB)):
        for left, right in pairs():
            if op not in ("__add__", "__sub__") and left not in ARR:
                continue
            if FAM[left] != "DateTimeNano" and FAM[right] != "DateTimeNano" and not (FAM[left], FAM[right]) in (("Date", "TimeSpan"), ("TimeSpan", "Date")):
                continue
            try:
                x = analyse(prog, left, op, right)
            except Budget:
                rep.undecide("INSTANT", f"{left} {op} {right}", "budget")
                continue
            if x is None:
                continue
            fn, h, an, outs, ops = x
            rep.analysed(fn)
            rep.paths += len(outs)
            con = f"{left}.{op}({right})"
            inv = {v: k for k, v in ops.items()}
            owners = {inv[n] for n, c in (("self", left), ("value", right)) if FAM[c] == "DateTimeNano"}
            seen = set()
            for o in outs:
                if o.kind != "return" or h.fam(an, o.state, o.value) != "DateTimeNano" or o.value in seen:
                    continue
                seen.add(o.value)
                if o.value in ops:
                    continue  # in place
                if owners:
                    dec += judge(rep, con, fn, an, o.state, o.value, owners)
                else:
                    dec += judge(rep, con, fn, an, o.state, o.value, owners, tz_ok=lambda t: is_const(t) and cval(t) in UTC)
    # B: methods of the instant classes that return instants
    for cname in ("DateTimeNano", "DateTimeNanoScalar"):
        c = prog.cls(cname)
        names = {}
        for k in c.mro:
            if isinstance(k, ClassInfo) and k.module.name == "riptable.rt_datetime":
                for m in k.methods:
                    names.setdefault(m, k)
        for m in sorted(names):
            if m in SKIP or m in ARITH or m in CMP or (m.startswith('_') and m != '__getitem__'):
                continue
            fn = c.find(m)
            if fn is None or fn.kind in ("static", "class"):
                continue
            try:
                x = run_method(prog, cname, m, max_steps=60000)
            except Budget:
                continue
            if x is None:
                continue
            fn, h, an, outs, sv = x
            seen = set()
            for o in outs:
                if o.kind != "return" or o.value is None or o.value in seen:
                    continue
                seen.add(o.value)
                if built(an, o.state, o.value) is None:
                    continue
                rep.analysed(fn)
                dec += judge(rep, f"{cname}.{m}", fn, an, o.state, o.value, {sv})
    # astimezone: same instant, requested timezone
    x = run_method(prog, "DateTimeNano", "astimezone")
    if x is None:
        raise AnalysisBroken("DateTimeNano.astimezone not found")
    fn, h, an, outs, sv = x
    rep.analysed(fn)
    p = mk("p", fn.params()[1])
    for o in outs:
        if o.kind == "return":
            dec += judge(rep, "DateTimeNano.astimezone", fn, an, o.state, o.value, {sv}, tz_ok=lambda t: t is p)
    # C: parsers
    mod = prog.modules.get("riptable.rt_datetime")
    for name in ("strptime_to_nano", "datetimestring_to_nano", "datestring_to_nano", "timestring_to_nano"):
        fn = mod.funcs.get(name) if mod else None
        if fn is None:
            rep.undecide("FORWARD", name, "function not found")
            continue
        an = Interp(prog, CalHooks(prog), max_steps=60000)
        st = State()
        outs = an.run_function(fn, {q: mk("p", q) for q in fn.params()}, st)
        rep.analysed(fn)
        for o in outs:
            if o.kind != "return":
                continue
            b = built(an, o.state, o.value)
            if b is None:
                continue
            dec += 1
            rep.ob("FORWARD", f"{name} from_tz", b[1] is mk("p", "from_tz"), f"{name} passes source timezone {show(b[1]) if b[1] is not None else 'default'}", fn.loc)
            rep.ob("FORWARD", f"{name} to_tz", b[2] is mk("p", "to_tz"), f"{name} passes display timezone {show(b[2]) if b[2] is not None else 'default'}", fn.loc)
    # D: saved metadata
    meta_key = None
    x = run_method(prog, "DateTimeNano", "_meta_dict")
    if x:
        fn, h, an, outs, sv = x
        rep.analysed(fn)
        for o in outs:
            if o.kind != "return":
                continue
            vals = dict_values(o.state, o.value)
            tz = [(k, v) for k, v in vals if to_tz_of(v) is sv]
            dec += 1
            rep.ob("DISPLAY-TZ", "saved metadata of DateTimeNano", bool(tz), f"{fn.qual} does not record the display timezone", fn.loc)
            if tz:
                meta_key = tz[0][0]
    for m in ("_from_meta_data", "_load_from_sds_meta_data"):
        x = run_method(prog, "DateTimeNano", m)
        if x is None:
            continue
        fn, h, an, outs, sv = x
        rep.analysed(fn)
        for o in outs:
            if o.kind == "return" and built(an, o.state, o.value):
                def tz_ok(t):
                    return t.op == "sub" and is_const(t.args[1]) and (meta_key is None or cval(t.args[1]) == meta_key) or \
                        (call_name(t) in ("get", "pop", "setdefault") and any(is_const(a) and cval(a) == meta_key for a in t.args[1]))
                dec += judge(rep, f"DateTimeNano.{m}", fn, an, o.state, o.value, {sv}, tz_ok=tz_ok)
    # E: arrow
    x = run_method(prog, "DateTimeNano", "_from_arrow")
    if x:
        fn, h, an, outs, sv = x
        rep.analysed(fn)
        arr = mk("p", fn.params()[0])
        for o in outs:
            if o.kind == "return" and built(an, o.state, o.value):
                dec += judge(rep, "DateTimeNano._from_arrow", fn, an, o.state, o.value, {sv},
                             tz_ok=lambda t: any(y.op == "attr" and y.args[1] == "tz" for y in subterms(t)))
    x = run_method(prog, "DateTimeNano", "to_arrow")
    if x:
        fn, h, an, outs, sv = x
        rep.analysed(fn)
        for o in outs:
            if o.kind != "return":
                continue
            ts = [y for y in subterms(o.value) if call_name(y) == "timestamp"]
            if not ts:
                rep.undecide("DISPLAY-TZ", "DateTimeNano.to_arrow", show(o.value)[:120])
                continue
            tz = dict(ts[0].args[2]).get("tz") or (ts[0].args[1][1] if len(ts[0].args[1]) > 1 else None)
            own = tz is not None and any(to_tz_of(y) is sv for y in subterms(tz))
            dec += 1
            rep.ob("DISPLAY-TZ", "DateTimeNano.to_arrow", own, f"{fn.qual} labels the arrow array with {show(tz) if tz is not None else 'no timezone'}", fn.loc)
            rep.ob("INSTANT", "DateTimeNano.to_arrow", not is_wall(o.value), f"{fn.qual} exports wall-clock numbers as UTC", fn.loc)
    # F: re-wrapping
    dec += rewrap(prog, rep)
    # G: concatenation
    dec += concat(prog, rep)
    # H: pandas
    dec += pandas(prog, rep)
    rep.count("decided", dec)
    rep.floor("decided constructions", dec, 40)


def dict_values(st, t, depth=0):
    """(key, value) leaves of a (nested) literal dict object"""
    if t.op != "obj" or depth > 4:
        return []
    c = st.heap.get(("content", t))
    if not c or c[0] != "dict":
        return []
    out = []
    for k, v in c[1]:
        out.append((cval(k) if is_const(k) else None, v))
        out.extend(dict_values(st, v, depth + 1))
    return out


def rewrap(prog, rep):
    n = 0
    x = run_method(prog, "DateTimeNano", "newclassfrominstance")
    if x:
        fn, h, an, outs, sv = x
        rep.analysed(fn)
        ori = mk("p", fn.params()[-1])
        for o in outs:
            if o.kind != "return":
                continue
            tz = o.state.heap.get((o.value, "_timezone"))
            b = built(an, o.state, o.value)
            if tz is None and b is None:
                rep.ob("COPY", "DateTimeNano.newclassfrominstance", False, f"{fn.qual} leaves the display timezone unset", fn.loc)
            elif tz is not None:
                n += 1
                src = [y for y in subterms(tz) if y.op == "attr" and y.args[1] == "_timezone" and y.args[0] is ori]
                rep.ob("COPY", "DateTimeNano.newclassfrominstance", bool(src), f"{fn.qual} sets the timezone to {show(tz)}", fn.loc)
    x = run_method(prog, "DateTimeNano", "get_scalar")
    if x:
        fn, h, an, outs, sv = x
        rep.analysed(fn)
        for o in outs:
            if o.kind == "return" and o.value.op == "inst":
                n += 1
                kw = dict(o.value.args[2])
                ok = kw.get("_from") is sv or any(to_tz_of(y) is sv for y in subterms(o.value))
                rep.ob("COPY", "DateTimeNano.get_scalar", ok, f"{fn.qual} drops the timezone: {show(o.value)[:100]}", fn.loc)
    # the scalar takes the timezone from _from
    c = prog.cls("DateTimeNanoScalar")
    fn = c.find("__init__")
    if fn is not None and fn.cls is c:
        an = Interp(prog, CalHooks(prog), max_steps=60000)
        st = State()
        sv, src = mk("p", "self"), mk("p", "src")
        st.types[sv] = (frozenset([("exact", c)]), frozenset())
        st.types[src] = (frozenset([("exact", prog.cls("DateTimeNano"))]), frozenset())
        try:
            outs = an.call_fn(st, fn.node, fn, [sv, mk("p", "raw")], {"_from": src}, None)
        except Budget:
            outs = []
        for s, v in outs:
            if s.facts.get(_hasattr(src)) is False:
                continue
            tz = s.heap.get((sv, "_timezone"))
            if tz is None:
                continue
            n += 1
            ok = any(y.op == "attr" and y.args[1] == "_timezone" and y.args[0] is src for y in subterms(tz))
            if not ok and any("hasattr" in show(f) for f in s.facts):
                continue
            rep.ob("COPY", "DateTimeNanoScalar from an array", ok, f"{fn.qual} ignores the array's timezone: {show(tz)}", fn.loc)
    # TimeZone.copy
    x = run_method(prog, "TimeZone", "copy")
    if x:
        fn, h, an, outs, sv = x
        rep.analysed(fn)
        for o in outs:
            if o.kind != "return" or o.value.op != "inst":
                continue
            n += 1
            kw = dict(o.value.args[2])
            for nm, a in zip(("from_tz", "to_tz"), o.value.args[1]):
                kw.setdefault(nm, a)
            for nm in ("from_tz", "to_tz"):
                rep.ob("COPY", f"TimeZone.copy {nm}", kw.get(nm) is mk("attr", sv, "_" + nm), f"{fn.qual} copies {show(kw[nm]) if nm in kw else 'nothing'} as {nm}", fn.loc)
            for k, v in o.state.heap.items():
                if k[0] is o.value and k[1] not in ("content",):
                    ok = v is mk("attr", sv, k[1])
                    rep.ob("COPY", f"TimeZone.copy {k[1]}", ok, f"{fn.qual} sets {k[1]} to {show(v)}", fn.loc)
    return n


def _hasattr(t):
    return mk("call", mk("ext", "builtins.hasattr"), (t, C("_timezone")), ())


def concat(prog, rep):
    mod = prog.modules.get("riptable.rt_hstack")
    fn = mod.funcs.get("_hstack_datetimenano") if mod else None
    if fn is None:
        rep.undecide("MIX", "hstack of DateTimeNano", "function not found")
        return 0
    rep.analysed(fn)
    h = CalHooks(prog)
    h.modules.add("riptable.rt_hstack")
    an = Interp(prog, h, max_steps=60000)
    st = State()
    outs = an.run_function(fn, {q: mk("p", q) for q in fn.params()}, st)
    lst = mk("p", fn.params()[0])
    guard = False
    for o in outs:
        if o.kind != "raise":
            continue
        for f, v in o.state.facts.items():
            tzs = [y for y in subterms(f) if y.op == "attr" and y.args[1] in ("_to_tz", "_timezone_str", "_timezone")]
            if f.op == "cmp" and len(tzs) >= 2 and v is False:
                guard = True
    rep.ob("MIX", "hstack of DateTimeNano", guard, f"{fn.qual} has no path refusing arrays whose display timezones differ", fn.loc)
    n = 1
    for o in outs:
        if o.kind == "return" and o.value is not lst:
            b = built(an, o.state, o.value)
            if b is None:
                continue
            n += 1
            if b[3] is not None:
                r = tzroot(b[3])
                rep.ob("DISPLAY-TZ", "hstack of DateTimeNano", r is lst or lst in leaves(r), f"{fn.qual} takes the timezone from {show(b[3])}", fn.loc)
            else:
                ok = b[1] is None or is_const(b[1]) and cval(b[1]) in UTC
                rep.ob("INSTANT", "hstack of DateTimeNano", ok, f"{fn.qual} re-reads UTC numbers as {show(b[1])}", fn.loc)
                x = to_tz_of(b[2])
                rep.ob("DISPLAY-TZ", "hstack of DateTimeNano", x is not None, f"{fn.qual} loses the display timezone", fn.loc)
    return n


def pandas(prog, rep):
    n = 0
    mod = prog.modules.get("riptable.Utils.pandas_utils")
    if mod is None:
        return 0
    for name in ("pandas_series_to_riptable", "fastarray_to_pandas_series"):
        fn = mod.funcs.get(name)
        if fn is None:
            continue
        rep.analysed(fn)
        h = CalHooks(prog)
        an = Interp(prog, h, max_steps=120000)
        st = State()
        bind = {q: mk("p", q) for q in fn.params()}
        if name.startswith("fastarray"):
            st.types[mk("p", fn.params()[0])] = (frozenset([("exact", prog.cls("DateTimeNano"))]), frozenset())
        try:
            outs = an.run_function(fn, bind, st)
        except Budget:
            rep.undecide("INSTANT", name, "budget")
            continue
        for o in outs:
            if o.kind != "return":
                continue
            for y in subterms(o.value):
                if name.startswith("pandas"):
                    b = built(an, o.state, y)
                    if b is not None and b[0] is not None:
                        n += 1
                        ok = b[1] is None or is_const(b[1]) and cval(b[1]) in UTC
                        rep.ob("INSTANT", name, ok, f"{name} re-reads UTC numbers as {show(b[1]) if b[1] is not None else ''}", fn.loc)
                        rep.ob("DISPLAY-TZ", name, b[2] is not None and not is_const(b[2]), f"{name} displays in {show(b[2]) if b[2] is not None else 'the default timezone'}", fn.loc)
                elif call_name(y) == "DatetimeIndex":
                    n += 1
                    tz = dict(y.args[2]).get("tz")
                    rep.ob("INSTANT", name, tz is not None and is_const(tz) and cval(tz) in UTC, f"{name} labels UTC numbers as {show(tz) if tz is not None else 'naive'}", fn.loc)
                    conv = [z for z in subterms(o.value) if call_name(z) == "tz_convert" and any(to_tz_of(w) is not None for a in z.args[1] for w in subterms(a))]
                    rep.ob("DISPLAY-TZ", name, bool(conv), f"{name} does not convert to the array's display timezone", fn.loc)
    return n
