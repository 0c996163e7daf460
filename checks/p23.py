"""P23: invalid dates, instants and day spans stay invalid through arithmetic."""
from sa.absint import Budget
from .dt_common import *

OPS = (("__add__", "+", ADD), ("__sub__", "-", SUB), ("__radd__", "+", ADD), ("__iadd__", "+", ADD), ("__isub__", "-", SUB))


class InvHooks(DTHooks):
    """mode 'long': masks are full-length arrays;  ('one', operand): masks have one element, set for that operand"""
    mode = ("long",)

    def on_cond(self, an, st, node, t):
        if t.op == "call" and call_name(t) == "isscalar" and t.args[1] and is_isnan(t.args[1][0]):
            return self.mode[0] == "scalar" and self.mode[1] in isnan_of(t.args[1][0])
        if self.mode[0] == "scalar":
            if is_isnan(t) and self.mode[1] in isnan_of(t):
                # an integer made from a scalar duration is never recognised as invalid
                return not (self.right == "TimeSpanScalar" and any(call_name(y) in ("astype", "int64", "int") for y in subterms(t)))
        if t.op == "cmp" and t.args[0] in ("==", "<=", "<", "!="):
            a, b = t.args[1], t.args[2]
            if a.op == "call" and call_name(a) == "len" and a.args[1] and is_isnan(a.args[1][0]) and is_const(b) and isinstance(cval(b), int):
                n = 1 if self.mode[0] == "one" else 1000
                return {"==": n == cval(b), "<=": n <= cval(b), "<": n < cval(b), "!=": n != cval(b)}[t.args[0]]
        if self.mode[0] == "one":
            x = t
            if x.op == "sub":
                x = x.args[0]
            elif x.op == "call" and call_name(x) in ("any", "all", "item", "bool") and x.args[0].op in ("bm", "attr"):
                x = x.args[0].args[0]
            if is_isnan(x):
                return self.mode[1] in isnan_of(x)
        return super().on_cond(an, st, node, t)


def analyse_mode(prog, left, opname, right, mode):
    h = InvHooks(prog)
    sv, vv = mk("p", "self"), mk("p", "value")
    h.mode = ("long",) if mode == "long" else ("scalar", vv) if mode == "scalar" else ("one", {"self": sv, "value": vv}[mode])
    h.right = right
    an = Interp(prog, h, max_steps=200000)
    an.max_recursion = 2
    c = h.dtcls[left]
    fn = c.find(opname)
    if fn is None or fn.module.name != "riptable.rt_datetime" or len(fn.params()) < 2:
        return None
    ps = fn.params()
    st = State()
    st.types[sv] = (frozenset([("exact", c)]), frozenset())
    st.types[vv] = (frozenset([("exact", h.dtcls[right])]), frozenset())
    bind = {ps[0]: sv, ps[1]: vv}
    for p, d in _defaults(fn).items():
        bind.setdefault(p, an.default_term(st, fn, d))
    return fn, h, an, an.run_function(fn, bind, st), {"self": sv, "value": vv}


from .dt_common import _defaults  # noqa: E402


def run(prog, rep):
    rep.rule("PROPAGATE", "on every return path the invalid mask of each operand whose sentinel is not a floating NaN of the result is applied to the result "
                          "(masked store, fill, where, or the kernel that subtracts with invalids)")
    rep.rule("FILL", "the value stored into invalid positions is the sentinel of the result kind")
    rep.assume("isnan() marks exactly the sentinel elements; the native date subtraction kernel propagates sentinels; float NaN propagates through float arithmetic")
    dec = 0
    for op, sym, tab in OPS:
        for left in ARR:
            for right in ARR + SCA:
                key = (FAM[right], FAM[left]) if op == "__radd__" else (FAM[left], FAM[right])
                if op == "__radd__" and right in SCA:
                    continue
                fam = tab[key]
                if fam is None:
                    continue
                for mode in ("long", "self", "value") if right not in SCA else ("long", "self", "scalar"):
                    con = f"{left} {sym}{'=' if op.startswith('__i') else ''}{' (reflected)' if op == '__radd__' else ''} {right}"
                    try:
                        x = analyse_mode(prog, left, op, right, mode)
                    except Budget:
                        rep.undecide("PROPAGATE", con, "budget")
                        continue
                    if x is None:
                        continue
                    fn, h, an, outs, opd = x
                    rep.analysed(fn)
                    rep.paths += len(outs)
                    need = []
                    for n, k in (("self", left), ("value", right)):
                        if FAM[k] == "TimeSpan" and fam == "TimeSpan":
                            continue  # float NaN
                        if (k in SCA) != (mode == "scalar"):
                            continue
                        need.append((n, opd[n]))
                    if mode in ("self", "value"):
                        need = [(n, t) for n, t in need if n == mode]
                        con += " (one element)" 
                    for o in outs:
                        if o.kind != "return":
                            continue
                        v = o.value
                        if h.fam(an, o.state, v) != fam:
                            continue
                        if any(call_name(y) == "copy_invalid" or call_name(y) == "fill_invalid" for y in subterms(v)):
                            continue
                        native = any(native_op(y) and native_op(y)[0].startswith("SUBDATE") for y in subterms(v))
                        vs = set(subterms(v))
                        masked, filled = set(isnan_of(v)), False
                        for m in o.state.marks:
                            if m[0] == "mask" and (m[1] in vs or m[1] in opd.values()):
                                masked |= isnan_of(m[2])
                                dec += fillcheck(rep, con, fn, an, o.state, fam, m[3])
                            elif m[0] == "fill" and (m[1] in vs or m[1] in opd.values()):
                                filled = True
                                dec += fillcheck(rep, con, fn, an, o.state, fam, m[2])
                        for n, t in need:
                            dec += 1
                            ok = native or t in masked or (mode != "long" and filled)
                            rep.ob("PROPAGATE", f"{con}: {'left' if n == 'self' else 'right'} invalid", ok,
                                   f"{fn.qual} returns {show(v)[:160]} without applying the {'left' if n == 'self' else 'right'} operand's invalid mask", fn.loc)
    rep.count("decided", dec)
    rep.floor("decided propagation obligations", dec, 60)


def fillcheck(rep, con, fn, an, st, fam, fill):
    if is_const(fill) and isinstance(cval(fill), (int, float)) and not isinstance(cval(fill), bool):
        v = cval(fill)
        if fam in ("Date", "DateTimeNano"):
            ok = v == 0 or v in (-2**31, -2**63)
        elif fam == "DateSpan":
            ok = v == -2**31
        else:
            ok = v != v
        rep.ob("FILL", con, ok, f"{fn.qual} stores {v} into invalid positions of a {fam}", fn.loc)
        return 1
    if fill.op == "ext" and fill.args[0].split(".")[-1] in ("nan", "NaN"):
        rep.ob("FILL", con, fam == "TimeSpan", f"{fn.qual} stores NaN into a {fam}", fn.loc)
        return 1
    return 0
