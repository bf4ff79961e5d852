"""C24: operations and other objects keep, report and copy exactly what they were given."""

from __future__ import annotations

import ast

from checks.opsem import SKIP, OpSem
from checks.refs import compare_refs, known_names, want_modules
from sa.symval import NONE, Blowup, SV, show

LEVEL = "other"
LARGE = {"b_asic.schedule.Schedule", "b_asic.sfg.SFG"}  # constructors that build a graph
SAME = {"str", "int", "list", "tuple", "dict", "b_asic.types.Name", "b_asic.types.GraphID", "b_asic.types.TypeName"}
PLAIN = {"p", "c", "op", "un", "not", "and", "or", "cmp", "ite", "tuple", "list", "is", "dict"}


def walk(t):
    """Every distinct subterm once (terms share structure)."""
    seen, todo = set(), [t]
    while todo:
        t = todo.pop()
        if isinstance(t, tuple) and id(t) not in seen:
            seen.add(id(t))
            yield t
            if t[:1] != ("c",):
                todo.extend(t)


def atoms(t):
    return {x[1] for x in walk(t) if len(x) == 2 and x[0] == "p"}


def heads(t):
    return {x[0] for x in walk(t) if x and isinstance(x[0], str)}


def given(t, v, memo=None):
    """The term under the assumption that v is a proper (true, not None) value of its documented type."""
    memo = {} if memo is None else memo
    if id(t) not in memo:
        memo[id(t)] = (_given(t, v, memo), t)
    return memo[id(t)][0]


def _given(t, v, memo):
    if t == v or not isinstance(t, tuple) or not t:
        return t
    if t[0] == "call" and t[1] in SAME and len(t[2]) == 1 and not t[3]:
        return given(t[2][0], v, memo)
    if t[0] == "ite":
        c = truth(t[1], v, memo)
        if c is not None:
            return given(t[2] if c else t[3], v, memo)
        a, b = given(t[2], v, memo), given(t[3], v, memo)
        return a if a == b else ("ite", t[1], a, b)
    if t[0] == "or" and len(t) == 2 and t[1] and given(t[1][0], v, memo) == v:
        return v
    return t


def truth(c, v, memo):
    if c[0] == "not":
        x = truth(c[1], v, memo)
        return None if x is None else not x
    if c[0] == "is" and c[2] == NONE and given(c[1], v, memo) == v:
        return False
    if c[0] == "cmp" and c[1] in ("is", "==") and c[3] == NONE and given(c[2], v, memo) == v:
        return False
    if given(c, v, memo) == v:
        return True
    if c[0] == "call" and c[1] in ("bool", "b_asic.bool") and given(c[2][0], v, memo) == v:
        return True
    return None


def verdict(t, v):
    g = given(t, v)
    if g == v:
        return "same"
    hs = heads(g)
    if hs <= PLAIN:
        return "other"
    if v[1] not in atoms(g) and hs <= PLAIN | {"call", "new"}:
        return "other"
    return "unknown"


def library(p):
    for q, c in sorted(p.classes.items()):
        if "gui" not in q.lower() and not q.startswith("b_asic.code_printer.test"):
            yield q, c


def setters_of(p, c):
    return sorted({n for m in c.mro if m in p.classes for n in p.classes[m].setters})


def accessors(ctx, p):
    for q, c in library(p):
        S = OpSem(p, q)
        init = p.lookup(q, "__init__")
        heap = None
        if c.short.startswith(SKIP):
            continue
        if q in LARGE:
            ctx.assume(f"{c.short}: its constructor builds its state from a graph, not decided here")
        elif init is not None and "__init__" in c.methods:
            try:
                heap, f = S.merged_init()
            except (Blowup, RecursionError, KeyError):
                ctx.assume(f"{c.short}: its constructor is not decided")
                heap = None
        if heap is not None:
            for a in f.all_params()[1:]:
                g = p.lookup(q, a)
                if g is None or g.kind != "property" or g.abstract:
                    continue
                try:
                    t = S.sv().value(g, {}, dict(heap))
                except (Blowup, RecursionError, KeyError):
                    ctx.assume(f"{c.short}.{a}: not decided")
                    continue
                v = verdict(t, ("p", a))
                if v == "unknown":
                    ctx.assume(f"{c.short}.{a}: what it returns after construction is not decided")
                    continue
                ctx.ob("C24-properties", f"{c.short}.{a} reads what the constructor was given")
                if v == "other":
                    ctx.bad("C24-properties", f"{c.short}.{a}", p.loc(g, g.node),
                            f"after {c.short.rsplit('.')[-1]}({a}=v) the property gives {show(given(t, ('p', a)))[:200]} instead of v")
        new = ("p", "NEW")
        for a in setters_of(p, c):
            g, st = p.lookup(q, a), p.lookup_setter(q, a)
            if g is None or st is None or len(st.params) < 2 or g.abstract:
                continue
            if q not in (st.cls, g.cls) and not (init is not None and "__init__" in c.methods and heap is not None):
                continue
            try:
                outs = [o for o in S.sv().run(st, {st.params[1]: new}, dict(heap or {})) if o[1] != "raise"]
                ts = [S.sv().value(g, {}, dict(o[3].heap)) for o in outs]
            except (Blowup, RecursionError, KeyError):
                ctx.assume(f"{c.short}.{a} = v: not decided")
                continue
            vs = [verdict(t, new) for t in ts]
            if not vs or "unknown" in vs:
                ctx.assume(f"{c.short}.{a} = v: what the property gives then is not decided")
                continue
            ctx.ob("C24-setters", f"{c.short}.{a} gives what was set")
            for t, v in zip(ts, vs):
                if v == "other":
                    ctx.bad("C24-setters", f"{c.short}.{a}", p.loc(st, st.node),
                            f"after x.{a} = v the property gives {show(given(t, new))[:200]} instead of v")


def copies(ctx, p):
    """What evaluation reads from the constructor's arguments survives copy()."""
    base = "b_asic.operation.AbstractOperation"
    for q in sorted(p.subclasses(base)):
        c = p.classes[q]
        ev = p.lookup(q, "evaluate")
        init = p.lookup(q, "__init__")
        if q == base or q == "b_asic.sfg.SFG" or ev is None or ev.abstract or init is None:
            continue
        S = OpSem(p, q)
        try:
            heap, f = S.merged_init()
            plain = {}
            for a, d in f.defaults.items():
                if isinstance(d, ast.Constant):
                    plain[a] = ("c", type(d.value).__name__, d.value)
            kept = copied_args(p, q, S, heap)
            if kept is None:
                ctx.assume(f"{c.short}.copy: another implementation, not decided")
                continue
            plain.update(kept)
            heap0, _ = S.merged_init({**{a: ("p", "unset " + a) for a in f.all_params()[1:]}, **plain})
            key = ("attr", ("p", "self"), "_parameters")
            if key in heap:
                heap0 = {**heap0, key: heap[key]}
            want, _ = S.evaluate(dict(heap))
            got, _ = S.evaluate(dict(heap0))
        except (Blowup, RecursionError, KeyError):
            ctx.assume(f"{c.short}.copy: not decided")
            continue
        ctx.ob("C24-copy", f"{c.short}: evaluation after copy()")
        if got != want:
            lost = sorted(a for a in atoms(want) - atoms(got) if a in f.all_params())
            if lost:
                ctx.bad("C24-copy", f"{c.short}: {', '.join(lost)}", p.loc(ev, ev.node),
                        f"evaluate() depends on {', '.join(lost)}, which copy() loses: it is neither a parameter "
                        "of the component nor handed to the constructor of the copy")
            else:
                ctx.assume(f"{c.short}.copy: equality of the copy is not decided")


def copied_args(p, q, S, heap):
    """Constructor arguments that overrides of copy() hand on; None when not understood."""
    out = {}
    plain = {"b_asic.operation.AbstractOperation.copy", "b_asic.graph_component.AbstractGraphComponent.copy"}
    for m in p.classes[q].mro:
        g = p.classes[m].methods.get("copy") if m in p.classes else None
        if g is None or g.qual in plain or g.abstract:
            continue
        calls = [n for n in ast.walk(g.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                 and n.func.attr == "copy" and isinstance(n.func.value, ast.Call)
                 and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super"]
        if len(calls) != 1 or len(g.node.body) > 2:
            return None
        for k in calls[0].keywords:
            if k.arg is None:
                continue
            if not (isinstance(k.value, ast.Attribute) and isinstance(k.value.value, ast.Name)
                    and k.value.value.id == g.params[0]):
                return None
            h = p.lookup(q, k.value.attr)
            if h is not None and h.kind == "property":
                out[k.arg] = S.sv().value(h, {}, dict(heap))
            else:
                out[k.arg] = heap.get(("attr", ("p", "self"), k.value.attr), NONE)
    return out


def type_names(ctx, p):
    base = "b_asic.graph_component.GraphComponent"
    seen = {}
    for q in sorted(p.subclasses(base)):
        c = p.classes[q]
        g = c.methods.get("type_name")
        if g is None or g.abstract:
            continue
        rets = [n.value for n in ast.walk(g.node) if isinstance(n, ast.Return) and n.value is not None]
        vals = {x.value for r in rets for x in ast.walk(r) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
        if len(rets) != 1 or len(vals) != 1:
            ctx.assume(f"{c.short}.type_name is not decided")
            continue
        v = vals.pop()
        ctx.ob("C24-types", f"{c.short}: {v}")
        if v in seen:
            ctx.bad("C24-types", f"{c.short}: {v}", p.loc(g, g.node), f"{c.short} and {seen[v]} have the same type name {v!r}, "
                    "so that their graph ids collide")
        seen.setdefault(v, c.short)
    # an id is the type name and a number: no other type name may continue with digits
    for a in seen:
        for b in seen:
            if a != b and b.startswith(a) and b[len(a):].isdigit():
                g = next(f for q2 in p.subclasses(base) for f in [p.classes[q2].methods.get("type_name")]
                         if f is not None and p.classes[q2].short == seen[b])
                ctx.bad("C24-types", f"{seen[b]}: {b}", p.loc(g, g.node),
                        f"the type names {a!r} and {b!r} give the same graph ids")


def check(ctx):
    ctx.rule("C24-construct", "constructors set up the ports, sources, timing and parameters they are given", 20)
    ctx.rule("C24-properties", "a property named as a constructor argument gives that argument", 20)
    ctx.rule("C24-setters", "a property gives what was set", 10)
    ctx.rule("C24-copy", "what evaluation depends on is copied", 15)
    ctx.rule("C24-types", "type names are unique and cannot make equal graph ids", 15)
    want_modules(ctx, ["construct"])
    p = ctx.p
    compare_refs(ctx, "construct", "constructors set up the ports, sources, timing and parameters they are given",
                 rule="C24-construct")
    accessors(ctx, p)
    copies(ctx, p)
    type_names(ctx, p)
