"""P04: kind of the result of date/time arithmetic."""
from sa.absint import Budget
from .dt_common import *

REFUSED = {  # operators that have no meaning for a kind: refused for every operand
    "Date": ["__mul__", "__matmul__", "__pow__", "__lshift__", "__rshift__", "__and__", "__xor__", "__or__", "__rmul__", "__rtruediv__",
             "__rfloordiv__", "__rmod__", "__rpow__", "__imul__", "__itruediv__", "__ifloordiv__", "__imod__", "__ipow__", "__iand__",
             "__ixor__", "__ior__"],
    "DateTimeNano": ["__matmul__", "__pow__", "__lshift__", "__rshift__", "__and__", "__xor__", "__or__", "__rmul__", "__rtruediv__",
                     "__rfloordiv__", "__rmod__", "__rpow__", "__imul__", "__itruediv__", "__ifloordiv__", "__imod__", "__ipow__", "__iand__",
                     "__ixor__", "__ior__"],
    "TimeSpan": ["__pow__", "__lshift__", "__rshift__", "__and__", "__xor__", "__or__", "__rtruediv__", "__rfloordiv__", "__rmod__",
                 "__rpow__", "__imul__", "__itruediv__", "__ifloordiv__", "__imod__", "__ipow__", "__iand__", "__ixor__", "__ior__"],
}


def run(prog, rep):
    rep.rule("KIND", "for each (left kind, operator, right kind) every analysed return path yields the kind required by the algebra of points and spans")
    rep.rule("REFUSE", "for each meaningless combination every analysed path ends in TypeError/NotImplementedError and none returns")
    rep.assume("native kernels and numpy return a plain array/scalar; constructors return an instance of their class")
    decided = 0
    for op, sym, tab, rev in (("__add__", "+", ADD, 0), ("__sub__", "-", SUB, 0), ("__radd__", "+", ADD, 1), ("__iadd__", "+", ADD, 0), ("__isub__", "-", SUB, 0)):
        for left, right in pairs():
            if op in ("__radd__", "__iadd__", "__isub__") and left not in ARR:
                continue
            if op == "__radd__" and right not in ARR:
                continue
            x = _try(prog, rep, left, op, right)
            if x is None:
                continue
            fn, h, an, outs, ops = x
            rep.analysed(fn)
            rep.paths += len(outs)
            if rev:
                fam, _ = expected(tab, sym, right, left)
            else:
                fam, _ = expected(tab, sym, left, right)
            con = f"{left} {sym}{'=' if op.startswith('__i') else ''}{' (reflected)' if rev else ''} {right}"
            rets = [o for o in outs if o.kind == "return"]
            if fam is None:
                decided += 1
                bad = [o for o in rets if not _is_raisey(o)]
                excs = {an.exc_name(o.value) for o in outs if o.kind == "raise"}
                rep.ob("REFUSE", con, not bad, f"{fn.qual} returns {show(bad[0].value)[:160] if bad else ''} where the combination has no meaning", fn.loc)
                if not bad and excs:
                    rep.ob("REFUSE", con + " exception", bool(excs & {"TypeError", "NotImplementedError"}), f"{fn.qual} raises {sorted(map(str, excs))}", fn.loc)
                continue
            if not rets:
                if op.startswith("__i"):
                    continue
                decided += 1
                rep.ob("KIND", con, False, f"{fn.qual} never returns for a supported combination", fn.loc)
                continue
            for o in rets:
                f = h.fam(an, o.state, o.value)
                if f is None:
                    c = an.cls_of(o.state, o.value)
                    if c is h.fa:
                        f = "plain array"
                if f is None:
                    rep.undecide("KIND", con, f"class of {show(o.value)[:120]} unknown")
                    continue
                decided += 1
                rep.ob("KIND", con, f == fam, f"{fn.qual} yields {f}, the algebra requires {fam}: {show(o.value)[:200]}", fn.loc)
    # multiplication/division of spans by points or spans
    for left in ("TimeSpan",):
        for right in ARR + SCA:
            x = _try(prog, rep, left, "__mul__", right)
            if x is None:
                continue
            fn, h, an, outs, ops = x
            rets = [o for o in outs if o.kind == "return"]
            rep.ob("REFUSE", f"{left} * {right}", not rets, f"{fn.qual} multiplies a duration by {right}", fn.loc)
        for right in ("Date", "DateSpan", "DateTimeNano"):
            x = _try(prog, rep, left, "__floordiv__", right)
            if x is None:
                continue
            fn, h, an, outs, ops = x
            rets = [o for o in outs if o.kind == "return"]
            rep.ob("REFUSE", f"{left} // {right}", not rets, f"{fn.qual} floor-divides a duration by {right}", fn.loc)
    for left, names in REFUSED.items():
        for nm in names:
            c = prog.cls(left)
            fn = c.find(nm)
            con = f"{left} {nm}"
            if fn is None or fn.module.name != "riptable.rt_datetime":
                rep.ob("REFUSE", con, False, f"{left} no longer refuses {nm}: resolution falls through to {fn.qual if fn else 'the numeric base class'}", c.module.relpath)
                continue
            x = _try(prog, rep, left, nm, "TimeSpan")
            if x is None:
                continue
            fn, h, an, outs, ops = x
            rep.analysed(fn)
            rets = [o for o in outs if o.kind == "return"]
            rep.ob("REFUSE", con, not rets, f"{fn.qual} returns {show(rets[0].value)[:100] if rets else ''}", fn.loc)
    rep.count("decided_paths", decided)
    rep.floor("decided arithmetic paths", decided, 80)


def _is_raisey(o):
    return False


def _try(prog, rep, left, op, right):
    try:
        return analyse(prog, left, op, right)
    except Budget:
        rep.undecide("KIND", f"{left} {op} {right}", "path budget exceeded")
        return None
