"""C08: containers given by a caller stay the caller's: never changed, never kept and changed later."""

from sa.effects import CONT_LABELS, CONTAINERS
from sa.typed import members

LEVEL = "other"
CONT = {"[v]", "[k]"}
# documented accumulators
OUT_PARAMS = {
    "results": "documented as an in/out accumulator of evaluate_output and friends",
    "results_base": "prefix string", "delays": "documented in/out register values",
}


def cont_path(pth):
    return all(f in CONT or f.startswith("#") for f in pth)


def is_cont(t):
    return any(m[0] == "inst" and (m[1] in CONTAINERS or m[1].startswith("collections"))
               or m[0] == "tuple" for m in members(t))


IMMUTABLE = ("builtins.str", "builtins.bytes", "builtins.range", "builtins.frozenset",
             "_collections_abc.dict_keys", "_collections_abc.dict_values")


def changeable(t, depth=0):
    """Can a value of the type hold something that a container operation changes?"""
    for m in members(t):
        if m[0] == "tuple":
            if any(changeable(x, depth + 1) for x in m[1]):
                return True
        elif m[0] == "inst":
            if m[1] in IMMUTABLE or m[1] == "builtins.tuple":
                if m[1] == "builtins.tuple" and any(changeable(x, depth + 1) for x in m[2]):
                    return True
            elif m[1] in CONTAINERS or m[1].startswith("collections"):
                return True
        elif m[0] == "any" and depth == 0:
            return True
    return False


def public_entry(f):
    return not f.nested and (f.public or f.name in ("__init__", "__call__")) and not any(
        part.startswith("_") and not part.startswith("__") for part in f.qual.split(".")[1:])


def check(ctx):
    ctx.rule("not-changed", "no public function changes a list, dict, set or nested container that a caller "
             "passed (effect summaries over the resolved call graph)", 90)
    ctx.rule("not-kept", "a container parameter is not stored in an object (directly or inside a nested "
             "container) whose class changes that container later", 40)
    p, eng = ctx.p, ctx.eng
    for q, f in sorted(p.funcs.items()):
        s = eng.sum.get(q)
        if s is None or not public_entry(f):
            continue
        pt = p.param_types(f)
        me = f.params[0] if f.cls and f.params and f.kind != "static" else None
        for a in f.all_params():
            if a == me or a in OUT_PARAMS:
                continue
            t = pt.get(a)
            if not t or not is_cont(t) or not changeable(t):
                continue
            ctx.ob("not-changed", f"{f.short}({a})")
            for (l, lab), ev in s.mutates.items():
                if l[0] == "P" and l[1] == a and cont_path(l[2]) and not ev.memo \
                        and lab in CONT_LABELS:
                    ctx.bad("not-changed", f"{f.short}({a}{'.'.join(('',)+l[2])})", ev.chain[0],
                            f"the caller's {a} is changed by `{ev.text}`", ev.chain)
            if me:
                ctx.ob("not-kept", f"{f.short}({a})")
                for (l, fld), v in s.stores.items():
                    if l[0] != "P" or l[1] != me:
                        continue
                    for x in v:
                        if x[0] == "P" and x[1] == a and cont_path(x[2]) and container_loc(x):
                            kept(ctx, f, a, x, (*l[2], fld))


def container_loc(x):
    t = x[3] if len(x) > 3 else None
    return t is None or t == () or not isinstance(t, tuple) or is_cont(t)


def kept(ctx, f, a, x, pth):
    p = ctx.p
    for c in sorted(set(p.subclasses(f.cls)) | set(p.classes[f.cls].mro)):
        if c not in p.classes:
            continue
        k = p.classes[c]
        for m in [*k.methods.values(), *k.setters.values()]:
            s = ctx.eng.sum.get(m.qual)
            if s is None or not m.params or m.name == "__init__" or m.kind == "static":
                continue
            for (l, lab), ev in s.mutates.items():
                if l[0] == "P" and l[1] == m.params[0] and l[2][:len(pth)] == pth and not ev.memo \
                        and lab in CONT_LABELS and cont_path(l[2][len(pth):]):
                    ctx.bad("not-kept", f"{f.short}({a}) kept as {'.'.join(pth)}",
                            f"{p.loc(f, f.node)}",
                            f"the caller's {a}{'.'.join(('',)+x[2])} is kept as {'.'.join(pth)} and "
                            f"{m.short} changes it: `{ev.text}`", ev.chain)
