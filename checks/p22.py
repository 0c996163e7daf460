"""P22: the zone tables and the UTC <-> wall-clock conversions built on them.

For every supported zone name the constructor is interpreted abstractly with that name; the offsets and transition tables that reach
the conversion entry points are then compared with an independent oracle (UTC offsets and the published daylight-saving rules), and
the result terms of the conversions are reduced to the normal form  t + k[standard] | t + k[daylight]  selected by the parity of the
position of t in a transition table.
"""
import datetime as dt

import sa.absint as _ab
from sa.absint import C, Hooks, Interp, State, cval, is_const, mk, show
from .cal_common import HOUR, _defaults, call_name, glob_literal, str_to_nanos

H = 1
OFF = {"America/New_York": -5, "Europe/Dublin": 0, "Australia/Sydney": 10, "Asia/Hong_Kong": 8, "Asia/Tokyo": 9, "Asia/Seoul": 9,
       "Asia/Kolkata": 5.5, "GMT": 0, "UTC": 0}
ALIAS = {"NYC": "America/New_York", "DUBLIN": "Europe/Dublin", "Sydney": "Australia/Sydney", "Hongkong": "Asia/Hong_Kong",
         "Tokyo": "Asia/Tokyo", "Seoul": "Asia/Seoul", "US/Eastern": "America/New_York"}
Y0, Y1 = 2008, 2040


def _nth_sunday(y, m, n):
    d = dt.date(y, m, 1)
    d += dt.timedelta((6 - d.weekday()) % 7)
    return d + dt.timedelta(7 * (n - 1))


def _last_sunday(y, m):
    d = dt.date(y + (m == 12), m % 12 + 1, 1) - dt.timedelta(1)
    return d - dt.timedelta((d.weekday() + 1) % 7)


def _ns(d, hours):
    return int((dt.datetime(d.year, d.month, d.day) + dt.timedelta(hours=hours) - dt.datetime(1970, 1, 1)).total_seconds()) * 10**9


def rule(zone):
    """UTC instants of the daylight-saving changes in Y0..Y1, as (instant, becomes_dst)"""
    out = []
    for y in range(Y0, Y1 + 1):
        if zone == "America/New_York":
            out += [(_ns(_nth_sunday(y, 3, 2), 7), True), (_ns(_nth_sunday(y, 11, 1), 6), False)]
        elif zone == "Europe/Dublin":
            out += [(_ns(_last_sunday(y, 3), 1), True), (_ns(_last_sunday(y, 10), 1), False)]
        elif zone == "Australia/Sydney":
            out += [(_ns(_nth_sunday(y, 4, 1), -8), False), (_ns(_nth_sunday(y, 10, 1), -8), True)]
    return out


W0, W1 = _ns(dt.date(Y0, 1, 1), 0), _ns(dt.date(Y1, 12, 31), 24)


class TzHooks(Hooks):
    def __init__(self, prog):
        self.prog = prog

    def inline(self, an, st, n, fn, args, kwargs):
        return True if fn.module.name.split(".")[-1] == "rt_timezone" else False

    def _rebind(self, st, base, new):
        s = st.copy()
        for k, v in list(s.vars.items()):
            if v is base:
                s.vars[k] = new
        return s

    def on_setitem(self, an, st, n, base, idx, value):
        if base.op == "obj":
            return None
        return [self._rebind(st, base, mk("upd", base, idx, value))]

    def on_cond(self, an, st, n, t):
        if t.op == "cmp" and t.args[0] in ("is", "==") and is_const(t.args[2]) and cval(t.args[2]) is None:
            v = table_of(self.prog, t.args[1])
            if v is not None:
                return v == "none"
        return None

    def on_call(self, an, st, n, f, args, kwargs):
        nm = call_name(mk("call", f, tuple(args), ()))
        if nm in ("putmask", "place") and len(args) == 3:
            return [(self._rebind(st, args[0], mk("upd", args[0], args[1], args[2])), C(None))]
        return None


class PW:
    """t + kF when not daylight, t + kT when daylight (m = coefficient of t: 0 or 1)"""
    def __init__(self, m, kF, kT):
        self.m, self.kF, self.kT = m, kF, kT


class Eval:
    def __init__(self, prog, base):
        self.prog, self.base = prog, base
        self.pred = None      # (table term, side)
        self.memo = {}

    def num(self, t):
        if is_const(t) and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool):
            return cval(t)
        if t.op == "un" and t.args[0] == "USub":
            v = self.num(t.args[1])
            return None if v is None else -v
        if t.op == "glob" and t.args[0] in self.prog.modules:
            v = glob_literal(self.prog, self.prog.modules[t.args[0]], t.args[1])
            return v if isinstance(v, (int, float)) else None
        return None

    def mask(self, t):
        """True/False polarity if t is the daylight mask"""
        if t.op == "bin":
            op, a, b = t.args
            n = self.num(b)
            if (op == "&" and n == 1) or (op == "%" and n == 2):
                return self._pos(a)
            if op == "&" and self.num(a) == 1:
                return self._pos(b)
        if t.op == "cmp" and t.args[0] in ("==", "!="):
            p, n = self.mask(t.args[1]), self.num(t.args[2])
            if p is None or n not in (0, 1):
                return None
            return p if (t.args[0] == "==") == (n == 1) else not p
        if t.op == "not" or (t.op == "un" and t.args[0] in ("Not", "Invert")):
            p = self.mask(t.args[-1])
            return None if p is None else not p
        if t.op == "call":
            f, args, kw = t.args
            nm = call_name(t)
            recv = f.args[0] if f.op in ("bm", "attr") and f.args[0].op not in ("ext", "mod", "cls") else None
            if recv is not None and nm in ("astype", "view", "copy"):
                return self.mask(recv)
            if nm in ("bool", "asarray", "asanyarray", "bool_", "FastArray") and args:
                return self.mask(args[0])
            if nm == "zeros":
                return "never"
        if t.op == "inst" and len(t.args) > 1 and t.args[1]:
            return self.mask(t.args[1][0])
        return None

    def _pos(self, t):
        """t must be searchsorted(table, base, side)"""
        if t.op != "call" or call_name(t) != "searchsorted":
            return None
        f, args, kw = t.args
        args = list(args)
        kw = dict(kw)
        recv = f.args[0] if f.op in ("bm", "attr") and f.args[0].op not in ("ext", "mod", "cls") else None
        if recv is not None:
            args.insert(0, recv)
        tab = args[0] if args else kw.get("a")
        v = args[1] if len(args) > 1 else kw.get("v")
        side = args[2] if len(args) > 2 else kw.get("side", C("left"))
        if tab is None or v is None or not is_const(side):
            return None
        bv = self.ev(v)
        if bv is None or bv.m != 1:
            return None
        key = (tab, cval(side), bv.kF, bv.kT)
        if self.pred is not None and self.pred != key:
            return None
        self.pred = key
        return True

    def ev(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        r = self.memo[t] = self._ev(t)
        return r

    def _ev(self, t):
        if t is self.base:
            return PW(1, 0, 0)
        n = self.num(t)
        if n is not None:
            return PW(0, n, n)
        p = self.mask(t)
        if p in (True, False):
            return PW(0, int(not p), int(p))
        if t.op == "upd":
            b, idx, v = t.args
            bv = self.ev(b)
            if bv is None:
                return None
            p = self.mask(idx)
            if p == "never":
                return bv
            if p is None:
                # invalid-value restoration: x[base == 0] = 0 or a caller supplied mask
                if self.num(v) == 0 and (idx.op == "p" or (idx.op == "cmp" and idx.args[0] == "==" and self.num(idx.args[2]) == 0)):
                    return bv
                return None
            self.memo[mk("sub", b, idx)] = bv
            vv = self.ev(v)
            if vv is None or vv.m != bv.m:
                return None
            return PW(bv.m, bv.kF if p else vv.kF, vv.kT if p else bv.kT)
        if t.op == "sub":
            return self.ev(t.args[0]) if self.mask(t.args[1]) is not None else None
        if t.op == "un" and t.args[0] == "USub":
            v = self.ev(t.args[1])
            return PW(-v.m, -v.kF, -v.kT) if v else None
        if t.op == "bin":
            op, a, b = t.args
            x, y = self.ev(a), self.ev(b)
            if x is None or y is None:
                return None
            if op == "+":
                return PW(x.m + y.m, x.kF + y.kF, x.kT + y.kT)
            if op == "-":
                return PW(x.m - y.m, x.kF - y.kF, x.kT - y.kT)
            if op == "*" and x.m == 0 and y.m == 0:
                return PW(0, x.kF * y.kF, x.kT * y.kT)
            if op in ("/", "//") and x.m == 0 and y.m == 0 and y.kF and y.kT:
                return PW(0, x.kF / y.kF, x.kT / y.kT)
            return None
        if t.op == "call":
            f, args, kw = t.args
            nm = call_name(t)
            if nm == "where" and len(args) == 3:
                p = self.mask(args[0])
                a, b = self.ev(args[1]), self.ev(args[2])
                if p not in (True, False) or a is None or b is None or a.m != b.m:
                    return None
                return PW(a.m, b.kF if p else a.kF, a.kT if p else b.kT)
            if nm == "full" and len(args) >= 2:
                return self.ev(args[1])
            recv = f.args[0] if f.op in ("bm", "attr") and f.args[0].op not in ("ext", "mod", "cls") else None
            if recv is not None and nm in ("copy", "astype"):
                return self.ev(recv)
            if nm in ("asarray", "asanyarray") and args:
                return self.ev(args[0])
        return None


def _call(prog, name, binds, st0=None):
    _ab.MAXSIZE = 800
    an = Interp(prog, TzHooks(prog), max_steps=200000)
    c = prog.cls("TimeZone")
    fn = c.find(name)
    if fn is None:
        from sa.prog import AnalysisBroken
        raise AnalysisBroken(f"TimeZone.{name} not found")
    st = st0.copy() if st0 is not None else State()
    sv = mk("p", "self")
    st.types[sv] = (frozenset([("exact", c)]), frozenset())
    b = {}
    for i, q in enumerate(fn.params()):
        b[q] = sv if i == 0 and fn.kind not in ("static", "class") else mk("p", q)
    for q, d in _defaults(fn).items():
        b[q] = an.default_term(st, fn, d)
    ps = fn.params()[1:]
    for i, v in binds.items():
        b[ps[i] if isinstance(i, int) else i] = v
    return fn, an, an.run_function(fn, b, st)


def table_of(prog, t):
    """literal nanosecond values of a transition table term, 'none' if it is None, or None if unknown"""
    if is_const(t) and cval(t) is None:
        return "none"
    if t.op == "glob" and t.args[0] in prog.modules:
        v = glob_literal(prog, prog.modules[t.args[0]], t.args[1])
        if isinstance(v, list):
            return [str_to_nanos(x) if isinstance(x, str) else x for x in v]
    return None


def check_table(rep, prog, zone, tab, local, who):
    name = f"{zone} {'local' if local else 'UTC'} transitions"
    exp = rule(zone)
    if tab == "none":
        rep.ob("TABLE", name, not exp, f"no transition table although {zone} observes daylight saving time in {Y0}-{Y1}", who)
        return
    if tab is None:
        rep.undecide("TABLE", name, "table is not a literal")
        return
    ok = all(a < b for a, b in zip(tab, tab[1:]))
    rep.ob("SORTED", name, ok, "transition table is not strictly increasing, so position parity is meaningless", who)
    # window of the rule; a local table is compared per entry with the wall-clock interval of the change
    off = OFF[zone]
    pad = 14 * HOUR
    cur = [(i, x) for i, x in enumerate(tab) if W0 - pad <= x < W1 + pad]
    if len(cur) != len(exp):
        bad = [str(dt.datetime(1970, 1, 1) + dt.timedelta(seconds=x // 10**9)) for _, x in cur][:4]
        rep.ob("TABLE", name, False, f"{len(cur)} transitions in {Y0}-{Y1}, the zone's rule gives {len(exp)} (first: {bad})", who)
        return
    rep.ob("TABLE", name, True)
    msg = ""
    for (i, x), (u, becomes) in zip(cur, exp):
        if (i % 2 == 0) != becomes:
            msg = f"entry {i} ({_iso(x)}) flips daylight saving the wrong way: odd positions must be daylight time"
            break
        if local:
            a, b = u + int(off * HOUR), u + int((off + 1) * HOUR)
            if not a <= x <= b:
                msg = f"entry {i} is {_iso(x)} local, the change happens between wall clock {_iso(a)} and {_iso(b)}"
                break
        elif x != u:
            msg = f"entry {i} is {_iso(x)} UTC, the zone's rule gives {_iso(u)}"
            break
    rep.ob("TABLE", name, not msg, msg, who)


def _iso(x):
    return str(dt.datetime(1970, 1, 1) + dt.timedelta(seconds=x // 10**9))


def conv(rep, prog, fname, fn, outs, zone, base, kF, kT, local, label, scale=1):
    """result of every path must be base + kF (standard) / base + kT (daylight by the right table)"""
    n = 0
    for o in outs:
        if o.kind == "raise":
            # raising is only legitimate for unknown zones
            rep.ob("CONVERT", f"{label}", False, f"raises {show(o.value)[:80]} for a supported zone", fn.loc)
            continue
        if o.kind != "return" or o.value is None:
            continue
        E = Eval(prog, base)
        r = E.ev(o.value)
        if r is None:
            rep.undecide("CONVERT", label, show(o.value)[:160])
            continue
        n += 1
        reg = None
        for t, v in o.state.facts.items():
            p = E.mask(t) if t.op in ("call", "bin", "cmp", "inst") else None
            if p in (True, False):
                reg = p == v
        wantm = 1 if scale == 1 else 0
        tabt = E.pred[0] if E.pred else None
        msgs = []
        if r.m != wantm:
            msgs.append("result is not the input shifted by an offset")
        hasdst = bool(rule(zone)) or (tabt is not None)
        if reg in (None, False) and abs(r.kF - kF * scale) > 1e-9:
            msgs.append(f"standard-time shift is {r.kF / scale / HOUR} h, expected {kF / HOUR} h")
        if hasdst and reg in (None, True) and abs(r.kT - kT * scale) > 1e-9:
            msgs.append(f"daylight-time shift is {r.kT / scale / HOUR} h, expected {kT / HOUR} h")
        if E.pred is not None:
            tab, side, a, b = E.pred
            if side != "right":
                msgs.append("an instant equal to a transition is classified as before it")
            if (a, b) != (0, 0):
                msgs.append("the transition table is consulted with a shifted time")
            check_table(rep, prog, zone, table_of(prog, tab), local, fn.loc)
        elif rule(zone) and reg is None:
            msgs.append("daylight saving time is ignored")
        rep.ob("CONVERT", label, not msgs, "; ".join(msgs), fn.loc)
    return n


def run(prog, rep):
    rep.rule("INIT", "every documented zone name and alias is accepted, aliases select the same data as the canonical name, unknown names raise")
    rep.rule("TABLE", f"the transition table reaching a conversion equals the zone's daylight-saving rule in {Y0}-{Y1}, alternating, daylight at odd positions")
    rep.rule("SORTED", "transition tables are strictly increasing")
    rep.rule("CONVERT", "UTC->wall adds the zone's UTC offset (+1 h in daylight time, decided on the UTC instant); wall->UTC subtracts it "
                        "(decided on the wall clock); offset query reports the same hours")
    rep.assume("the searchsorted primitive and the string-to-nanosecond parser are correct; transitions before 2008 and after 2040 are out of the claim")
    n = 0
    base = mk("p", "arr")
    for name in list(OFF) + list(ALIAS):
        zone = ALIAS.get(name, name)
        fn, an, outs = _call(prog, "__init__", {"from_tz": C(name), "to_tz": C(name)})
        rep.analysed(fn)
        good = [o for o in outs if o.kind != "raise"]
        rep.ob("INIT", f"TimeZone({name!r})", bool(good) and len(good) == len(outs), "supported zone name is refused", fn.loc)
        u = int(OFF[zone] * HOUR)
        for o in good[:1]:
            for meth, kF, kT, local, scale in (("fix_dst", u, u + HOUR, False, 1), ("to_utc", -u, -u - HOUR, True, 1),
                                               ("_tz_offset", u, u + HOUR, False, 1 / HOUR)):
                f2, an2, outs2 = _call(prog, meth, {0: base}, o.state)
                rep.analysed(f2)
                n += conv(rep, prog, meth, f2, outs2, zone, base, kF, kT, local, f"{meth} [{name}]", scale)
        # switching the display zone afterwards
        start = "UTC" if zone != "UTC" else "NYC"
        fn, an, outs = _call(prog, "__init__", {"from_tz": C("GMT"), "to_tz": C(start)})
        for o in [o for o in outs if o.kind != "raise"][:1]:
            f3, an3, outs3 = _call(prog, "_set_timezone", {0: C(name)}, o.state)
            rep.analysed(f3)
            for o3 in outs3:
                if o3.kind == "raise":
                    rep.ob("INIT", f"set_timezone({name!r})", False, "supported zone name is refused", f3.loc)
                    continue
                rep.ob("INIT", f"set_timezone({name!r})", True)
                f2, an2, outs2 = _call(prog, "fix_dst", {0: base}, o3.state)
                n += conv(rep, prog, "fix_dst", f2, outs2, zone, base, u, u + HOUR, False, f"fix_dst after switching to [{name}]")
    for bad in ("Mars/Olympus", "nyc", ""):
        for kw in ({"from_tz": C(bad), "to_tz": C("NYC")}, {"from_tz": C("NYC"), "to_tz": C(bad)}):
            fn, an, outs = _call(prog, "__init__", kw)
            ok = bool(outs) and all(o.kind == "raise" for o in outs)
            rep.ob("INIT", f"unknown zone {bad!r} as {[k for k, v in kw.items() if cval(v) == bad][0]}", ok, "an unknown zone name is accepted", fn.loc)
    rep.floor("P22 conversions evaluated", n, 30)
