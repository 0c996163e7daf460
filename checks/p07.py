"""P07: comparisons of dates, day spans, instants and durations."""
from sa.absint import Budget
from .dt_common import *
from .p06 import to_tz_of, tzroot

AND, OR = {"*", "&"}, {"+", "|"}


def mask_of_self(t, sv):
    """'nan' / 'notnan' when t is the invalid / valid mask of self"""
    nm = call_name(t)
    if t.op == "un" and t.args[0] in ("Invert", "Not"):
        r = mask_of_self(t.args[1], sv)
        return {"nan": "notnan", "notnan": "nan"}.get(r)
    if nm in ("logical_not", "invert", "__invert__") and t.op == "call":
        a = t.args[1][0] if t.args[1] else t.args[0].args[0]
        return {"nan": "notnan", "notnan": "nan"}.get(mask_of_self(a, sv))
    if nm in ("isnan", "isnotfinite", "isnanorzero", "isnotnan", "isfinite"):
        f, args, _ = t.args
        src = f.args[0] if f.op in ("bm", "attr") and f.args[0].op not in ("ext", "mod", "cls") else (args[0] if args else None)
        if src is not None and sv in leaves(src):
            return "notnan" if nm in ("isnotnan", "isfinite") else "nan"
    return None


def inv_form(t, sv):
    """set of ('and'|'or', 'nan'|'notnan') combinations of the comparison with self's mask along the value path"""
    out = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.op == "bin" and x.args[0] in AND | OR:
            for a, b in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
                m = mask_of_self(a, sv)
                if m:
                    out.add(("and" if x.args[0] in AND else "or", m))
                    todo.append(b)
            if not out:
                todo.extend(x.args[1:])
        elif x.op == "call":
            nm = call_name(x)
            args = list(x.args[1])
            f = x.args[0]
            if f.op in ("bm", "attr") and f.args[0].op not in ("ext", "mod", "cls"):
                args = [f.args[0]] + args
            kind = "and" if nm in ("logical_and", "__and__", "__mul__", "bitwise_and", "multiply") else "or" if nm in (
                "logical_or", "__or__", "__add__", "bitwise_or") else None
            if kind:
                for i, a in enumerate(args):
                    m = mask_of_self(a, sv)
                    if m:
                        out.add((kind, m))
            if nm in ("view", "astype", "copy") and args:
                todo.append(args[0])
    return out


def run(prog, rep):
    rep.rule("COMPARE", "each comparison compares left and right in the relation it is named for, both expressed in one unit; a date meets an instant as its "
                        "midnight in the instant's display timezone")
    rep.rule("REFUSE", "comparing kinds that have no common scale never returns a value")
    rep.rule("LEFT-INVALID", "an invalid left date or instant compares unequal: the valid mask is and-ed into ==,<,<=,>,>= and the invalid mask or-ed into !=")
    rep.assume("numpy compares elementwise")
    dec = 0
    for op, sym in CMP.items():
        for left in ARR:
            for right in ARR + SCA:
                con = f"{left} {sym} {right}"
                try:
                    x = analyse(prog, left, op, right)
                except Budget:
                    rep.undecide("COMPARE", con, "budget")
                    continue
                if x is None:
                    rep.ob("COMPARE", con, False, f"{left} no longer defines {op}: raw numbers of different units are compared", prog.cls(left).module.relpath)
                    continue
                fn, h, an, outs, ops = x
                rep.analysed(fn)
                rep.paths += len(outs)
                inv = {v: k for k, v in ops.items()}
                rets = [o for o in outs if o.kind == "return"]
                if (FAM[left], FAM[right]) not in COMPARABLE:
                    dec += 1
                    rets = [o for o in rets if not (o.value.op in ("ext",) and "NotImplemented" in show(o.value))]
                    rep.ob("REFUSE", con, not rets, f"{fn.qual} returns {show(rets[0].value)[:140] if rets else ''} for kinds without a common scale", fn.loc)
                    continue
                if not rets:
                    rep.ob("COMPARE", con, False, f"{fn.qual} refuses comparable kinds", fn.loc)
                    continue
                for o in rets:
                    le = LinEval(an, h, o.state, ops)
                    c = comparison(le, o.value)
                    if c is None:
                        rep.undecide("COMPARE", con, f"no comparison of linear forms in {show(o.value)[:120]}")
                    else:
                        dec += 1
                        got, la, lb = c
                        if set(la.c) == {"value"} and set(lb.c) == {"self"}:
                            got, la, lb = SWAP[got], lb, la
                        ok = set(la.c) == {"self"} and set(lb.c) == {"value"}
                        rep.ob("COMPARE", con, ok and got == sym, f"{fn.qual} evaluates {la} {got} {lb}", fn.loc)
                        if ok:
                            r = SCALE[FAM[left]] / SCALE[FAM[right]]
                            rep.ob("COMPARE", con + " units", la.c["self"] / lb.c["value"] == r,
                                   f"{fn.qual} compares {la} with {lb}: the units differ", fn.loc)
                            if {FAM[left], FAM[right]} == {"Date", "DateTimeNano"}:
                                who = inv["self"] if FAM[left] == "DateTimeNano" else inv["value"]
                                tzs = la.tz + lb.tz
                                good = len(tzs) == 1 and to_tz_of(tzs[0]) is not None and tzroot(to_tz_of(tzs[0])) is who
                                rep.ob("COMPARE", con + " midnight", good,
                                       f"{fn.qual} takes the date's midnight in {[show(t) for t in tzs] or 'UTC'}, not the instant's display timezone", fn.loc)
                    if FAM[left] in ("Date", "DateTimeNano"):
                        forms = inv_form(o.value, inv["self"])
                        want = ("or", "nan") if sym == "!=" else ("and", "notnan")
                        marked = [m for m in o.state.marks if m[0] == "mask" and inv["self"] in isnan_of(m[2])]
                        anyway = any(mask_of_self(y, inv["self"]) for y in subterms(o.value))
                        if want in forms:
                            dec += 1
                            rep.ob("LEFT-INVALID", con, True)
                        elif marked:
                            fills = {cval(m[3]) for m in marked if is_const(m[3])}
                            rep.ob("LEFT-INVALID", con, (sym == "!=") in fills or not fills, f"{fn.qual} sets invalid elements to {fills}", fn.loc)
                        elif forms or not anyway:
                            dec += 1
                            rep.ob("LEFT-INVALID", con, False,
                                   f"{fn.qual}: " + (f"combines the mask as {sorted(forms)}" if forms else "the left operand's invalid elements are compared as numbers"), fn.loc)
                        else:
                            rep.undecide("LEFT-INVALID", con, show(o.value)[:120])
    rep.count("decided", dec)
    rep.floor("decided comparisons", dec, 150)
