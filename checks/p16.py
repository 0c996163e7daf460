"""P16: operations that hand back a new result leave their operands as they were."""
import ast

from sa.absint import C, is_const, mk
from sa.effects import EffectAnalysis
from .p01 import structural

CLASSES = ["Struct", "Dataset", "Multiset", "PDataset", "FastArray", "Categorical", "GroupBy", "Accum2", "AccumTable",
           "DateTimeNano", "Date", "TimeSpan", "DateSpan", "FAString", "TypeRegister_skip"]
MODULES = ["rt_numpy", "rt_utils", "rt_merge", "rt_merge_asof", "rt_hstack", "rt_misc", "rt_bin", "rt_algos", "rt_str", "rt_stats", "rt_ema",
           "rt_mlutils", "rt_datetime", "rt_categorical", "rt_dataset", "rt_io"]
# operations that change the object they are called on by contract (attribute and item syntax, element management, in-place by name)
MUTATE_SELF = {
    "__init__", "__new__", "__del__", "__exit__", "__setattr__", "__setitem__", "__setitem2__", "__delattr__", "__delitem__", "__array_finalize__",
    "__setstate__", "__iadd__", "__isub__", "__imul__", "__itruediv__", "__ifloordiv__", "__imod__", "__ipow__", "__iand__", "__ior__", "__ixor__",
    "__ilshift__", "__irshift__", "register_function", "register_functions", "set_name", "apply_schema", "make_categoricals", "make_matlab_datetimes",
    "make_matlab_categoricals", "flatten_undo", "col_set_value", "col_swap", "col_move", "col_move_to_front", "col_move_to_back", "col_map",
    "col_add_prefix", "col_add_suffix", "col_rename", "col_remove", "col_pop", "col_str_replace", "col_replace_all", "dtranspose",
    "set_display_callback", "imatrix_make", "imatrix_y", "imatrix_xy", "imatrix_totals", "sorts_on", "sorts_off", "sort_view", "sort_inplace",
    "one_hot_encode", "footer_remove", "footer_set_values", "footer_set_value", "add_matrix", "putmask", "sort", "lock", "unlock", "auto_add_on", "auto_add_off",
    "mapping_add", "mapping_remove", "mapping_replace", "mapping_new", "category_add", "category_remove", "category_replace", "category_make_unique_",
    "shrink_", "groupby_reset", "groupby_data_set", "groupby_data_clear", "igroupby", "set_pnames", "label_set_names", "label_remove", "label_fixup",
    "summary_set_names", "summary_remove", "set_timezone", "partition", "fill", "resize", "put", "itemset", "filter_inplace_", "update", "clear", "pop", "popitem",
    "setdefault", "apply_rows_numba", "set_display_width", "resize_", "merge_lookup_inplace_", "showpartitions", "tracing_on"}
MUTATE_ARG = {("add_totals", "gb_ds"), ("merge_index", "indices"), ("__setitem__", "ds"), ("putmask", "arr1"), ("nan_to_zero", "a"), ("putmask", "a"), ("assoc_copy_", "arr")}
# state besides contents that a caller observes
STATE = {"_all_items", "_nrows", "_timezone", "_categories_wrap", "_ordered", "_base_index"}
OFF = {"inplace": False, "destroy": False}
SKIP = {"load", "register_functions", "info", "hist", "tracing_on", "__array_ufunc__"}


def entries(prog):
    seen = set()
    for cn in CLASSES:
        try:
            c = prog.cls(cn)
        except Exception:
            continue
        base = prog.cls("FastArray")
        for k in c.mro:
            if k is base and c is not base or k is prog.cls("Struct") and cn in ("Multiset", "PDataset"):
                continue
            for name, f in getattr(k, "methods", {}).items():
                if (cn, name) in seen:
                    continue
                seen.add((cn, name))
                if name in SKIP or name.startswith("_") and not name.startswith("__"):
                    continue
                if f.kind in ("class", "static") and k is not c:
                    continue
                yield c, name, f
    for mn in MODULES:
        m = prog.modules.get("riptable." + mn)
        if m is None:
            continue
        for name, f in m.funcs.items():
            if name.startswith("_") or name in SKIP:
                continue
            yield None, name, f


def run(prog, rep):
    rep.rule("PURE", "no feasible path of a result-returning public operation writes contents or observable state of the object it is called on")
    rep.rule("ARGS", "no feasible path of a public operation writes contents of an array, table, list or dictionary passed as an argument")
    rep.assume("writes are explicit: item/attribute assignment and deletion, in-place operators, in-place methods, out= arguments and the native set-item/put-mask primitives; "
               "native kernels are trusted not to write their inputs")
    rep.assume("in-place variants (inplace=True), operators spelled in place, and operations that are mutators by name are outside this property; "
               "lazily filled caches, display state and array names are not contents")
    muts, _ = structural(prog)
    ea = EffectAnalysis(prog, muts)
    n = 0
    done = set()
    for c, name, f in entries(prog):
        if (f.qual, c.name if c is not None else "") in done:
            continue
        done.add((f.qual, c.name if c is not None else ""))
        ps = f.params()
        names = {x.arg for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs}
        types, consts = (), ()
        selfp = None
        if c is not None and f.kind not in ("class", "static") and ps:
            selfp = ps[0]
            types = ((ps[0], (frozenset([("exact", c)]), frozenset())),)
        consts = tuple((k, C(v)) for k, v in sorted(OFF.items()) if k in names)
        s = ea.summary(f, consts, types)
        con = f"{c.name}.{name}" if c is not None else f"{f.module.name.replace('riptable.', '')}.{name}"
        rep.analysed(f)
        rep.paths += s.paths
        n += 1
        if not s.complete:
            rep.undecide("PURE", con, "path budget")
        bad_self = bad_arg = vague = None
        for e in s.effects.values():
            if e.kind == "attr" and e.what not in STATE:
                continue
            if e.coarse:
                vague = vague or e
                continue
            if e.param == selfp:
                if name not in MUTATE_SELF:
                    bad_self = bad_self or e
            elif e.param.startswith("_") or e.param in ("out", "cls", "self"):
                continue
            elif (name, e.param) in MUTATE_ARG or name in ("__setitem__", "__setattr__", "__array_finalize__", "__new__") and e.kind == "attr":
                continue
            else:
                bad_arg = bad_arg or e
        if vague is not None and not (bad_self or bad_arg) and (vague.param != selfp or name not in MUTATE_SELF):
            rep.undecide("PURE", con, f"possible write known only from a context-free summary: {vague.what}: " + " > ".join(vague.chain))
        if selfp is not None and name not in MUTATE_SELF:
            rep.ob("PURE", con, bad_self is None, "" if bad_self is None else f"{con} writes the object it is called on ({bad_self.what}): " + " > ".join(bad_self.chain), f.loc)
        rep.ob("ARGS", con, bad_arg is None, "" if bad_arg is None else f"{con} writes its argument {bad_arg.param!r} ({bad_arg.what}): " + " > ".join(bad_arg.chain), f.loc)
    rep.counts["public operations"] = n
    rep.counts["summaries"] = len(ea.memo)
    rep.floor("P16 public operations", n, 400)
