"""P27: parallel kernels give the sequential result for every number of threads and every schedule.

Each loop over prange is an obligation set: (a) every element store into memory shared between iterations goes to an
element owned by the iteration, (b) no iteration reads an element another iteration writes, (c) no scalar is carried
from one iteration to the next except through a reduction the compiler recognises.
"""
import ast

from sa.absint import NONE, Budget, C, Hooks, Interp, Outcome, State, cval, is_const, mk, subterms
from sa.prog import AnalysisBroken, dotted, walk_own

ALLOC = {"empty", "zeros", "ones", "full", "array", "empty_like", "zeros_like", "ones_like", "full_like", "copy", "arange"}
REDUCE_AUG = (ast.Add, ast.Sub, ast.Mult, ast.Div)


# --------------------------------------------------------------- which functions run in parallel
def is_prange(e):
    return isinstance(e, ast.Call) and (dotted(e.func) or "").split(".")[-1] == "prange"


def par_flag(call):
    for k in call.keywords:
        if k.arg == "parallel" and isinstance(k.value, ast.Constant):
            return bool(k.value.value)
    return None


def compilers(m):
    """names in a module that stand for a compile decorator with a fixed parallel flag"""
    out = {}
    for n in m.tree.body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
            p = par_flag(n.value)
            if p is not None and "jit" in ast.unparse(n.value):
                out[n.targets[0].id] = p
    return out


def mode_of(prog, fn):
    """True: compiled for parallel execution somewhere; False: only serial; None: unknown (treated as parallel)"""
    m = fn.module
    comp = compilers(m)
    got = []
    for d in getattr(fn.node, "decorator_list", []):
        if isinstance(d, ast.Call):
            p = par_flag(d)
            if p is not None:
                got.append(p)
            elif "jit" in (dotted(d.func) or ""):
                got.append(False)
        elif isinstance(d, ast.Name) and d.id in comp:
            got.append(comp[d.id])
        elif "jit" in (dotted(d) or ""):
            got.append(False)
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Call) and any(isinstance(a, (ast.Name, ast.Attribute)) and (dotted(a) or "").split(".")[-1] == fn.name for a in x.args):
            f = x.func
            if isinstance(f, ast.Name) and f.id in comp:
                got.append(comp[f.id])
            elif isinstance(f, ast.Call) and par_flag(f) is not None:
                got.append(par_flag(f))
            elif isinstance(f, ast.Attribute) and f.attr == "create":
                got.append(True)
    if not got:
        return None
    return any(got)


# --------------------------------------------------------------- polynomials over terms
def poly(t, d=0):
    """term -> {monomial (sorted tuple of terms): int}"""
    if is_const(t) and isinstance(cval(t), (int,)) and not isinstance(cval(t), bool):
        return {(): cval(t)} if cval(t) else {}
    if d < 30 and t.op == "bin" and t.args[0] in ("+", "-", "*"):
        a, b = poly(t.args[1], d + 1), poly(t.args[2], d + 1)
        if t.args[0] == "*":
            r = {}
            for x, cx in a.items():
                for y, cy in b.items():
                    k = tuple(sorted(x + y, key=id))
                    r[k] = r.get(k, 0) + cx * cy
        else:
            s = 1 if t.args[0] == "+" else -1
            r = dict(a)
            for k, c in b.items():
                r[k] = r.get(k, 0) + s * c
        return {k: c for k, c in r.items() if c}
    if t.op == "un" and t.args[0] == "USub":
        return {k: -c for k, c in poly(t.args[1], d + 1).items()}
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0].split(".")[-1] in ("int64", "int32", "intp", "uint64", "int") and len(t.args[1]) == 1:
        return poly(t.args[1][0], d + 1)
    return {(t,): 1}


def psub(a, b):
    r = dict(a)
    for k, c in b.items():
        r[k] = r.get(k, 0) - c
    return {k: c for k, c in r.items() if c}


def pconst(p):
    if not p:
        return 0
    if set(p) == {()}:
        return p[()]
    return None


def mentions(t, x):
    """does the value of t depend on x (looking through widened loop variables)"""
    return any(y is x or y.op == "top" for y in subterms(t))


def pmentions(p, x):
    return any(mentions(t, x) for m in p for t in m)


class Kernel(Hooks):
    def __init__(self, fn):
        self.fn = fn
        self.stores = []      # (node, base, idx, value, facts, I, aug)
        self.loads = []
        self.nodes = set()
        self.problem = None

    def inline(self, an, st, n, fn, args, kwargs):
        return fn.module.name.startswith("riptable") and len(list(ast.walk(fn.node))) < 400 and "overload" not in ast.unparse(fn.node.decorator_list[0] if fn.node.decorator_list else ast.Constant(0))

    def on_call(self, an, st, n, f, args, kwargs):
        if f.op == "ext" and f.args[0].startswith("numpy.") and f.args[0].split(".")[-1] in ALLOC or f.op == "attr" and f.args[1] == "copy" and not args:
            return [(st, mk("alloc", getattr(n, "lineno", 0), an.par[-1] if an.par else None))]
        if f.op == "fn" and f.args[0].name in ("empty", "zeros", "ones", "full", "empty_like", "zeros_like"):
            return [(st, mk("alloc", getattr(n, "lineno", 0), an.par[-1] if an.par else None))]
        return None

    def on_setitem(self, an, st, n, base, idx, value):
        if an.par:
            self.stores.append((n, base, idx, value, dict(st.facts), an.par[-1]))
        return [st]

    def on_getitem(self, an, st, n, base, idx):
        if an.par and idx.op != "slice":
            self.loads.append((n, base, idx, dict(st.facts), an.par[-1]))
        return None

    def on_aug(self, an, st, n, target, op, a, b):
        # x[j] += v  : load + store, seen through the generic path
        return None


class ParInterp(Interp):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.par = []
        self.loops = []

    def s_For(self, n, st, fr):
        if is_prange(n.iter) and not self.par:
            outs = []
            its = self.ev(n.iter, st, fr)
            for s, it in its:
                carried = self._loop_carried(n.body, s, fr)
                s1 = self._havoc(s, carried, fr, n)
                i = mk("p", f"#{n.target.id if isinstance(n.target, ast.Name) else 0}@{n.lineno}")
                self.par.append(i)
                self.loops.append((n, i))
                after = [s]
                try:
                    for s2 in self.assign(n.target, i, s1, fr, n):
                        for o in self.exec_block(n.body, s2, fr):
                            if o.kind in ("next", "continue"):
                                after.append(o.state)
                            elif o.kind == "break":
                                outs.append(Outcome("next", o.state))
                            else:
                                outs.append(o)
                finally:
                    self.par.pop()
                outs.extend(Outcome("next", c) for c in self.merge(after))
            return outs
        return super().s_For(n, st, fr)

    def elem_of(self, it):
        return super().elem_of(it)


def rng(t):
    """iteration variable of range(...) -> (lo poly, hi poly exclusive) or None"""
    if t.op != "iter":
        return None
    c = t.args[0]
    if not (c.op == "call" and c.args[0].op == "ext" and c.args[0].args[0].split(".")[-1] in ("range", "prange")):
        return None
    a = c.args[1]
    if len(a) == 1:
        return {}, poly(a[0])
    if len(a) == 2:
        return poly(a[0]), poly(a[1])
    if len(a) == 3 and is_const(a[2]) and cval(a[2]) == -1:
        return padd1(poly(a[1]), 1), padd1(poly(a[0]), 1)
    return None


def padd1(p, c):
    r = dict(p)
    r[()] = r.get((), 0) + c
    return {k: v for k, v in r.items() if v}


def bounds(p, I):
    """(lo, hi inclusive) polynomials of p with the range variables (other than I) replaced by their bounds, or None"""
    lo, hi = dict(p), dict(p)
    for _ in range(6):
        ch = False
        for m, c in list(p.items()):
            if len(m) == 1 and m[0] is not I:
                r = rng(m[0])
                if r is not None:
                    ch = True
                    l, h = r[0], padd1(r[1], -1)
                    a, b = (l, h) if c > 0 else (h, l)
                    lo = psub(lo, {m: c})
                    hi = psub(hi, {m: c})
                    lo = psub(lo, {k: -c * v for k, v in a.items()})
                    hi = psub(hi, {k: -c * v for k, v in b.items()})
        if not ch:
            break
        return lo, hi
    return lo, hi


def classify(idx, I, facts):
    """-> (kind, detail)"""
    if idx.op == "tup":
        for a in idx.args:
            k = classify(a, I, facts)
            if k[0] in ("own", "row", "grouprow", "grouppos", "cum", "bin", "grouprows"):
                return ("own", k[1]) if k[0] == "own" else k
        ks = [classify(a, I, facts)[0] for a in idx.args]
        return ("uniform", None) if all(k in ("uniform", "slice-all") for k in ks) else ("unknown", None)
    if idx.op == "slice":
        if idx.args[0] is NONE and idx.args[1] is NONE:
            return ("uniform", None)
        lo = poly(idx.args[0]) if idx.args[0] is not NONE else {}
        hi = poly(idx.args[1]) if idx.args[1] is not NONE else None
        if hi is not None:
            g = group_span(lo, hi, I)
            if g is not None:
                return g
        if not mentions(idx, I):
            return ("uniform", None)
        return ("unknown", None)
    if not mentions(idx, I):
        # a guard may still confine the index to the iteration's own interval
        lo = hi = None
        for c, v in facts.items():
            if c.op == "cmp" and (c.args[1] is idx or c.args[2] is idx) and mentions(c, I):
                op, a, b = c.args
                if a is not idx:
                    op, a, b = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op), b, a
                if not v:
                    op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}.get(op, "?")
                if op == ">=" and own_elem(b, I):
                    lo = b
                elif op == "<" and own_elem(b, I):
                    hi = b
                else:
                    return ("bad", f"the guard {op} does not confine it to the iteration's own half-open interval") if op in ("<=", ">") and own_elem(b, I) else ("unknown", None)
        if lo is not None and hi is not None:
            return ("bin", None)
        if lo is not None or hi is not None:
            return ("unknown", None)
        return ("uniform", None)
    p = poly(idx)
    # a comparison of the loop variable itself may single out one iteration
    pinned = any(c.op == "cmp" and (c.args[1] is I and is_const(c.args[2]) or c.args[2] is I and is_const(c.args[1])) and (v if c.args[0] in ("==", "is") else c.args[0] not in ("==", "is", "!="))
                 for c, v in facts.items())
    k = classify_poly(p, I, idx)
    if pinned and k[0] != "own":
        return ("own", "pinned")
    if k[0] == "unknown":
        lo = bounds(p, I)[0]
        if lo != p and not pmentions(lo, I) and not any(x.op == "phi" for m in lo for t in m for x in subterms(t)):
            return ("bad", "every iteration starts at the same element")
    return k


def own_elem(t, I):
    """array[I + const]"""
    if t.op != "sub":
        return False
    q = poly(t.args[1])
    return q.get((I,)) == 1 and set(q) <= {(I,), ()}


def own_off(t, I):
    return poly(t.args[1]).get((), 0)


def group_span(lo, hi, I):
    """[first[I+c], first[I+c] + count[I+c])  or  [low[I], high[I])"""
    los = [(m, c) for m, c in lo.items()]
    if len(los) >= 1 and any(len(m) == 1 and own_elem(m[0], I) for m, c in los):
        first = next(m[0] for m, c in los if len(m) == 1 and own_elem(m[0], I))
        rest_lo = psub(lo, {(first,): 1})
        same = [m[0] for m, c in hi.items() if c == 1 and len(m) == 1 and own_elem(m[0], I) and m[0].args[0] is first.args[0] and m[0] is not first]
        if len(same) == 1 and own_off(same[0], I) == own_off(first, I) + 1:
            k = pconst(psub(hi, {(same[0],): 1}))
            if k is not None and k > 0:
                return ("bad", "the span runs into the next iteration's part")
            return ("grouppos", None) if k is not None and not rest_lo else ("unknown", None)
        d = psub(hi, {(first,): 1})
        cnt = [m[0] for m in d if len(m) == 1 and own_elem(m[0], I)]
        if len(cnt) == 1:
            e = psub(d, {(cnt[0],): 1})
            k = pconst(e)
            if cnt[0].args[0] is first.args[0]:
                return ("unknown", None)
            if own_off(cnt[0], I) != own_off(first, I):
                return ("bad", "the group's start and its length are taken from different groups")
            if k is not None and k > 0:
                return ("bad", "the span runs past the end of the iteration's own group")
            kl = pconst(rest_lo)
            if kl is not None and kl < 0:
                return ("bad", "the span starts before the iteration's own group")
            return ("grouppos", None)
        if not d:
            return ("grouppos", None)
        if len(cnt) == 0 and any(mentions(t, I) for m in d for t in m):
            return ("unknown", None)
    # [lo[i], hi[i]) intervals
    if set(lo) and len(lo) == 1 and len(hi) == 1:
        (ml, cl), (mh, ch) = next(iter(lo.items())), next(iter(hi.items()))
        if cl == ch == 1 and len(ml) == len(mh) == 1 and own_elem(ml[0], I) and own_elem(mh[0], I) and own_off(ml[0], I) == own_off(mh[0], I):
            return ("grouppos", None)
    return None


def classify_poly(p, I, idx):
    # strip private offsets
    if p.get((I,)) in (1, -1) and not any(I in m for m in p if m != (I,)) and not pmentions({m: c for m, c in p.items() if m != (I,)}, I):
        rest = psub(p, {(I,): p[(I,)]})
        var = [m for m in rest if any(x.op in ("iter", "phi", "idx") for t in m for x in subterms(t))]
        if var:
            return ("unknown" if any(x.op == "phi" for m in var for t in m for x in subterms(t)) else "bad",
                    "the index moves by less than the inner loop's span from one iteration to the next")
        return ("own", (p[(I,)], tuple(sorted(rest.items(), key=str))))
    strides = [m for m in p if I in m and len(m) == 2]
    if len(strides) == 1 and p[strides[0]] == 1:
        S = next((x for x in strides[0] if x is not I), None)
        if S is not None and not mentions(S, I):
            off = psub(p, {strides[0]: 1})
            if not pmentions(off, I):
                b = bounds(off, I)
                lo, hi = b
                room = psub({(S,): 1}, padd1(hi, 1))
                k = pconst(room)
                if k is not None and k < 0:
                    return ("bad", "the inner index reaches into the next row")
                kl = pconst(lo)
                if kl is not None and kl < 0:
                    return ("bad", "the inner index reaches into the previous row")
            return ("row", S)
    if any(len(m) == 1 and m[0] is I for m in p) and pconst({k: v for k, v in p.items() if k != (I,)}) is not None:
        return ("unknown", None)
    # row start recomputed, e.g. a pointer widened in an inner loop: phi starting at I*S
    for m, c in p.items():
        if len(m) == 1 and m[0].op == "phi" and mentions(m[0], I):
            return ("row?", None)
    # group position: first[I+c] + offset
    firsts = [m[0] for m in p if len(m) == 1 and own_elem(m[0], I) and p[m] == 1]
    if firsts:
        f = firsts[0]
        off = psub(p, {(f,): 1})
        if not off:
            return ("lookup", f)
        b = bounds(off, I)
        lo, hi = b
        rng_used = lo != off
        if rng_used:
            # exclusive upper bound must be count[I+c] or next cumulative value - this one
            e = padd1(hi, 1)
            g = group_span({(f,): 1}, psub(e, {(f,): -1}), I)
            if g is not None:
                return g
        return ("unknown", None)
    # iteration variable of a group span
    for m, c in p.items():
        if len(m) == 1:
            r = rng(m[0])
            if r is not None:
                g = group_span(r[0], r[1], I)
                if g is not None and set(p) <= {m, ()}:
                    k = p.get((), 0)
                    if k == 0:
                        return g
                    return ("bad", "the span is shifted against the iteration's own group")
    # permutation lookup at a group position
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) == 1 and c == 1:
            t = m[0]
            if t.op == "sub":
                b = t.args[0]
                if b.op == "sub":  # element of a slice of the permutation
                    q = classify(b.args[1], I, {})
                    if q[0] in ("grouppos",):
                        return ("grouprow", None)
                    return q if q[0] == "bad" else ("unknown", None)
                q = classify(t.args[1], I, {})
                if q[0] == "grouppos":
                    return ("grouprow", None)
                if q[0] == "bad":
                    return q
                if q[0] == "own":
                    return ("lookup", t)
            if t.op == "iter" and t.args[0].op == "sub":
                q = classify(t.args[0].args[1], I, {})
                if q[0] == "grouppos":
                    return ("grouprow", None)
                if q[0] == "bad":
                    return q
            if t.op == "bin" and t.args[0] in ("//", "%", "&", ">>") and (t.args[1] is I or poly(t.args[1]).get((I,))):
                return ("bad", f"the index is not one-to-one in the loop variable ({t.args[0]})")
            if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0].split(".")[-1] in ("min", "max", "abs") and any(a is I for a in t.args[1]):
                return ("bad", "the index is not one-to-one in the loop variable")
    return ("unknown", None)


def private(base, I):
    """memory only the iteration can see"""
    if base.op == "alloc":
        return base.args[1] is I
    if base.op == "sub":
        i = base.args[1]
        if i.op == "slice":
            return private(base.args[0], I)
        # fancy gather copies; an integer index of a 2-d array is a row view
        return i.op == "sub" or i.op == "cmp"
    if base.op in ("obj",):
        return True
    if base.op == "bin" or base.op == "call" and base.args[0].op in ("ext",):
        return True
    if base.op == "tup":
        return True
    return False


def root(base):
    while base.op == "sub" and (base.args[1].op == "slice"):
        base = base.args[0]
    return base


# --------------------------------------------------------------- carried scalars
class _Exposed:
    """reads that may see a value from before the block (path-insensitive upward-exposed uses)"""

    def __init__(self):
        self.out = set()

    def expr(self, e, d):
        if e is None:
            return
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in d:
                self.out.add(x.id)

    def target(self, t, d):
        if isinstance(t, ast.Name):
            return d | {t.id}
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                d = self.target(x, d)
            return d
        self.expr(t, d)
        return d

    def block(self, stmts, d):
        """-> names definitely assigned after the block, or None when its end is not reached"""
        for s in stmts:
            d = self.stmt(s, d)
            if d is None:
                return None
        return d

    def stmt(self, s, d):
        if isinstance(s, ast.Assign):
            self.expr(s.value, d)
            for t in s.targets:
                d = self.target(t, d)
            return d
        if isinstance(s, ast.AnnAssign):
            self.expr(s.value, d)
            return self.target(s.target, d) if s.value is not None else d
        if isinstance(s, ast.AugAssign):
            self.expr(s.value, d)
            if isinstance(s.target, ast.Name):
                if s.target.id not in d:
                    self.out.add(s.target.id)
                return d | {s.target.id}
            self.expr(s.target, d)
            return d
        if isinstance(s, ast.If):
            self.expr(s.test, d)
            a, b = self.block(s.body, d), self.block(s.orelse, d)
            return b if a is None else a if b is None else a & b
        if isinstance(s, ast.For):
            self.expr(s.iter, d)
            self.block(s.body, self.target(s.target, d))
            self.block(s.orelse, d)
            return d
        if isinstance(s, ast.While):
            self.expr(s.test, d)
            self.block(s.body, d)
            return d
        if isinstance(s, (ast.Continue, ast.Break, ast.Return, ast.Raise)):
            for x in ast.iter_child_nodes(s):
                self.expr(x, d)
            return None
        for x in ast.iter_child_nodes(s):
            if isinstance(x, ast.expr):
                self.expr(x, d)
            elif isinstance(x, ast.stmt):
                d2 = self.stmt(x, d)
                d = d if d2 is None else d2
        return d


def carried_scalars(fn, loop):
    """names set before the loop, read by an iteration before it writes them, and written by some iteration"""
    written = {x.id for b in loop.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    inside = {id(x) for x in ast.walk(loop)}
    before = {x.id for x in ast.walk(fn.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and id(x) not in inside and x.lineno <= loop.lineno} | set(fn.params())
    e = _Exposed()
    e.block(loop.body, frozenset({x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}))
    return {w for w in written if w in e.out and w in before}


def reduction_ok(loop, name):
    """every write of name is a recognised reduction step and its value is not otherwise read in the loop"""
    steps, reads = [], 0
    allowed_reads = set()
    fam = set()
    for b in loop.body:
        for x in ast.walk(b):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name:
                if not isinstance(x.op, REDUCE_AUG):
                    return f"updated by an operator the compiler does not combine across threads ({type(x.op).__name__})"
                if any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x.value)):
                    return "its update reads it again"
                fam.add("add" if isinstance(x.op, (ast.Add, ast.Sub)) else "mul")
                steps.append(x)
            elif isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == name for t in x.targets for y in ast.walk(t)):
                v = x.value
                if len(x.targets) != 1 or not isinstance(x.targets[0], ast.Name):
                    return "assigned outside a reduction step"
                if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Add, ast.Mult, ast.Sub)) and isinstance(v.left, ast.Name) and v.left.id == name:
                    allowed_reads.add(id(v.left))
                    fam.add("add" if not isinstance(v.op, ast.Mult) else "mul")
                elif isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Add, ast.Mult)) and isinstance(v.right, ast.Name) and v.right.id == name:
                    allowed_reads.add(id(v.right))
                    fam.add("add" if not isinstance(v.op, ast.Mult) else "mul")
                elif isinstance(v, ast.Call) and (dotted(v.func) or "").split(".")[-1] in ("max", "min", "minimum", "maximum"):
                    a = [y for y in v.args if isinstance(y, ast.Name) and y.id == name]
                    if len(a) != 1:
                        return "assigned outside a reduction step"
                    allowed_reads.add(id(a[0]))
                    fam.add((dotted(v.func) or "").split(".")[-1][:3])
                else:
                    return "assigned outside a reduction step, so its value depends on which iteration ran before"
                steps.append(x)
            elif isinstance(x, (ast.For,)) and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x.target)):
                return None if False else "assigned outside a reduction step"
    for b in loop.body:
        for x in ast.walk(b):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id == name and id(x) not in allowed_reads:
                return "the running value is read inside the loop"
    if len(fam) > 1:
        return "updated by reductions of different kinds"
    return None


def run(prog, rep):
    rep.rule("OWN", "every store of a parallel iteration into shared memory goes to an element that iteration alone owns (its own index, row, group, or interval)")
    rep.rule("READ", "no parallel iteration reads an element that another iteration writes")
    rep.rule("CARRY", "no scalar is carried between parallel iterations except by a sum, product, minimum or maximum reduction")
    rep.rule("PAIR", "the serial and the parallel variant chosen by array length are compiled from the same kernel, and every caller passes matching variants")
    rep.assume("group layouts partition the rows (iGroup is a permutation; [first, first+count) spans and cumulative counts do not overlap); per-thread bin limits do not overlap")
    rep.assume("rows addressed by a moving write pointer stay within the row's own width")
    nloops = nfun = 0
    for fn in prog.all_funcs.values() if isinstance(prog.all_funcs, dict) else prog.all_funcs:
        if isinstance(fn.node, ast.Lambda) or "benchmarks" in fn.module.name or ".tests" in fn.module.name:
            continue
        loops = [x for x in walk_own(fn.node) if isinstance(x, ast.For) and is_prange(x.iter)]
        if not loops or mode_of(prog, fn) is False:
            continue
        nfun += 1
        rep.analysed(fn)
        con = fn.qual.replace("riptable.", "")
        for k, lp in enumerate(loops):
            nloops += 1
            bad = None
            for nm in sorted(carried_scalars(fn, lp)):
                r = reduction_ok(lp, nm)
                if r and bad is None:
                    bad = (nm, r)
            rep.ob("CARRY", f"{con} parallel loop {k}", bad is None, "" if bad is None else f"{bad[0]!r} is shared by the iterations: {bad[1]}", f"{fn.module.path}:{lp.lineno}" if hasattr(fn.module, "path") else fn.loc)
        h = Kernel(fn)
        an = ParInterp(prog, h, max_steps=60000, max_depth=4)
        st = State()
        bind = {p: mk("p", p) for p in fn.params()}
        try:
            outs = an.run_function(fn, bind, st)
        except (Budget, AnalysisBroken) as e:
            rep.undecide("OWN", con, f"analysis budget: {e}")
            continue
        rep.paths += len(outs)
        byloop = {}
        for lp, I in an.loops:
            byloop.setdefault(I, lp)
        arrs = {}
        bad = None
        und = set()
        n = 0
        for node, base, idx, value, facts, I in h.stores:
            if private(base, I):
                rep.count("private stores")
                continue
            n += 1
            k = classify(idx, I, facts)
            key = (I, root(base))
            arrs.setdefault(key, []).append((k, idx, node, True, facts))
            if k[0] == "bad":
                bad = bad or (node, k[1])
            elif k[0] == "uniform":
                if mentions(value, I) or any(y.op == "phi" for y in subterms(value)) or not mentions(value, I) and any(l[1] is base and l[2] is idx for l in h.loads):
                    bad = bad or (node, "the stored element does not depend on the loop variable, so iterations overwrite each other")
                else:
                    und.add("uniform store of a uniform value")
            elif k[0] == "lookup":
                if any(l[1] is base and l[2] is idx for l in h.loads):
                    bad = bad or (node, "a read-modify-write through a lookup that can name the same element in several iterations")
                else:
                    und.add("store through a lookup table")
            elif k[0] in ("unknown", "row?"):
                und.add(f"index form not classified")
        rep.ob("OWN", f"{con} stores", bad is None, "" if bad is None else f"line {bad[0].lineno}: {bad[1]}", fn.loc)
        for u in sorted(und):
            rep.count("stores with trusted or unclassified index")
        for node, base, idx, facts, I in h.loads:
            key = (I, root(base))
            if key in arrs and not private(base, I):
                arrs[key].append((classify(idx, I, facts), idx, node, False, facts))
        bad = None
        for (I, b), acc in arrs.items():
            ws = [a for a in acc if a[3]]
            for w in ws:
                for a in acc:
                    if a is w:
                        continue
                    kw, ka = w[0], a[0]
                    if "pinned" in (kw[1], ka[1]):
                        continue
                    if kw[0] == "own" and ka[0] == "own" and kw[1] != ka[1] and kw[1][0] == ka[1][0]:
                        d = psub(dict(kw[1][1]), dict(ka[1][1]))
                        if pconst(d) not in (None, 0):
                            bad = bad or (a[2], "an element next to the iteration's own one, which another iteration writes, is accessed")
                    elif kw[0] == "own" and ka[0] == "uniform" and not a[3]:
                        if a[1].op == "slice" or is_const(a[1]):
                            bad = bad or (a[2], "an element that some other iteration writes is read")
        rep.ob("READ", f"{con} accesses", bad is None, "" if bad is None else f"line {bad[0].lineno}: {bad[1]}", fn.loc)
        rep.count("shared stores", n)
    pairs(prog, rep)
    rep.counts["parallel loops"] = nloops
    rep.counts["parallel kernels"] = nfun
    rep.floor("P27 parallel loops", nloops, 20)


def pairs(prog, rep):
    """serial/parallel variants of one kernel"""
    for m in prog.modules.values():
        comp = compilers(m)
        if not comp:
            continue
        for c in [x for x in ast.walk(m.tree) if isinstance(x, ast.ClassDef)]:
            made = {}
            for n in c.body:
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call) and n.value.args:
                    f = n.value.func
                    if isinstance(f, ast.Name) and f.id in comp and isinstance(n.value.args[0], ast.Name):
                        made[n.targets[0].id] = (n.value.args[0].id, comp[f.id], n)
            for nm, (k, par, n) in made.items():
                if nm.endswith("_par") and nm[:-4] in made:
                    k2 = made[nm[:-4]][0]
                    rep.ob("PAIR", f"{c.name}.{nm}", k == k2, f"{nm} is compiled from {k}, {nm[:-4]} from {k2}", f"{m.name}:{n.lineno}")
            for x in ast.walk(c):
                if isinstance(x, ast.Call) and len(x.args) >= 2:
                    a = [y.attr if isinstance(y, ast.Attribute) else y.id if isinstance(y, ast.Name) else None for y in x.args[:2]]
                    if a[0] in made and a[1] in made:
                        rep.ob("PAIR", f"{c.name} call with {a[0]}, {a[1]}", made[a[0]][0] == made[a[1]][0], f"serial {made[a[0]][0]} is paired with parallel {made[a[1]][0]}", f"{m.name}:{x.lineno}")
                if isinstance(x, ast.IfExp):
                    a = [y.attr if isinstance(y, ast.Attribute) else None for y in (x.body, x.orelse)]
                    if a[0] in made and a[1] in made:
                        rep.ob("PAIR", f"{c.name} choice of {a[0]}, {a[1]}", made[a[0]][0] == made[a[1]][0], f"{made[a[0]][0]} is chosen against {made[a[1]][0]}", f"{m.name}:{x.lineno}")
