"""C09: objects created independently share no changeable state; no call remembers an earlier one."""

import ast

from sa.effects import CONT_LABELS

LEVEL = "other"
MUTABLE_CALLS = {"list", "dict", "set", "defaultdict", "deque", "OrderedDict", "Counter", "bytearray"}


# documented running numbers for default display names
RUNNING_NUMBERS = {("b_asic.process.PlainMemoryVariable", ("_name_cnt",))}


def mutable_value(n, mod, p):
    """Does evaluating the expression once give an object that could be changed?"""
    if isinstance(n, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(n, ast.Call):
        name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
        if name in MUTABLE_CALLS:
            return True
        q = p.canonical(p.dotted(n.func, mod) or "") if isinstance(n.func, (ast.Name, ast.Attribute)) else ""
        return q in p.classes
    if isinstance(n, ast.BoolOp):
        return any(mutable_value(v, mod, p) for v in n.values)
    if isinstance(n, ast.IfExp):
        return mutable_value(n.body, mod, p) or mutable_value(n.orelse, mod, p)
    return False


def check(ctx):
    p, eng = ctx.p, ctx.eng
    ctx.rule("module-state", "no function changes a module-level or class-level object (stores and mutating "
             "calls over the resolved call graph; fill-once caches excepted)", 500)
    ctx.rule("default-value", "a mutable parameter default is neither changed by the function nor kept in an "
             "object that changes it later", 1)
    ctx.rule("class-value", "a mutable class-level value is not changed through an instance", 1)
    ctx.rule("global-rebind", "no function rebinds a module-level name", 500)

    for q, f in sorted(p.funcs.items()):
        s = eng.sum.get(q)
        if f.nested or s is None:
            continue
        ctx.ob("module-state", f.short)
        if q == "b_asic.process.PlainMemoryVariable.__init__":
            ctx.require(any(l[0] == "G" for l, _ in s.mutates), "control: the class-level running number "
                        "of PlainMemoryVariable is not seen to change")
        for (l, lab), ev in s.mutates.items():
            if l[0] == "G" and not ev.memo and (l[1], l[2]) not in RUNNING_NUMBERS:
                ctx.bad("module-state", f"{l[1]}.{'.'.join(l[2])} in {ev.chain[-1].rpartition(' in ')[2]}",
                        ev.chain[-1], f"module- or class-level state is changed by `{ev.text}`", ev.chain)
        # a module-level object kept in an instance that changes it
        for (l, fld), v in s.stores.items():
            for x in v:
                if x[0] == "G" and l[0] == "P" and f.params and l[1] == f.params[0] and f.cls:
                    m = changed_later(ctx, f, (*l[2], fld))
                    if m:
                        ctx.bad("module-state", f"{f.short} keeps {x[1]}.{'.'.join(x[2])}",
                                p.loc(f, f.node), f"a module-level object is kept as {'.'.join((*l[2], fld))} "
                                f"and changed by {m[0].short}: `{m[1].text}`", m[1].chain)
        ctx.ob("global-rebind", f.short)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Global) and any(
                    isinstance(k, ast.Name) and k.id in n.names and isinstance(k.ctx, ast.Store)
                    for k in ast.walk(f.node)):
                ctx.bad("global-rebind", f"{f.short} rebinds {', '.join(n.names)}", p.loc(f, n),
                        "a module-level name is rebound by a function")
        a = f.node.args
        pos = [*a.posonlyargs, *a.args]
        dflt = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [
            (k, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for arg, d in dflt:
            ctx.ob("default-value", f"{f.short}({arg.arg})")
            if not mutable_value(d, f.module, p):
                continue
            for (l, lab), ev in s.mutates.items():
                if l[0] == "P" and l[1] == arg.arg and not ev.memo:
                    ctx.bad("default-value", f"{f.short}({arg.arg})", ev.chain[0],
                            f"the shared default of {arg.arg} is changed by `{ev.text}`", ev.chain)
            for (l, fld), v in s.stores.items():
                for x in v:
                    if x[0] == "P" and x[1] == arg.arg and l[0] == "P" and f.cls and f.params \
                            and l[1] == f.params[0]:
                        m = changed_later(ctx, f, (*l[2], fld))
                        if m:
                            ctx.bad("default-value", f"{f.short}({arg.arg}) kept", p.loc(f, f.node),
                                    f"the shared default of {arg.arg} is kept as {'.'.join((*l[2], fld))} and "
                                    f"changed by {m[0].short}: `{m[1].text}`", m[1].chain)

    for q, c in sorted(p.classes.items()):
        if q in eng.enum_classes:
            continue
        init_fields = set()
        for k in c.mro:
            if k in p.classes and "__init__" in p.classes[k].methods:
                fi = p.classes[k].methods["__init__"]
                for n in ast.walk(fi.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(
                            n.value, ast.Name) and fi.params and n.value.id == fi.params[0]:
                        init_fields.add(n.attr)
        for st in c.node.body:
            tgt = val = None
            if isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                tgt, val = st.target.id, st.value
            elif isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
                tgt, val = st.targets[0].id, st.value
            if tgt is None:
                continue
            ctx.ob("class-value", f"{q}.{tgt}")
            if tgt in ("__slots__", "__match_args__") or not mutable_value(val, c.module, p) \
                    or tgt in init_fields:
                continue
            for k in p.subclasses(q):
                for m in [*p.classes[k].methods.values(), *p.classes[k].setters.values()]:
                    s = eng.sum.get(m.qual)
                    if s is None or not m.params:
                        continue
                    for (l, fld), v in s.stores.items():
                        if l[0] == "P" and l[1] == m.params[0] and any(
                                x[0] == "P" and x[1] == m.params[0] and x[2] == (tgt,) for x in v):
                            c2 = changed_later(ctx, m, (*l[2], fld))
                            if c2:
                                ctx.bad("class-value", f"{q}.{tgt} kept by {m.short}", p.loc(m, m.node),
                                        f"the class-level {tgt}, shared by all instances, is kept as {fld} "
                                        f"and changed by {c2[0].short}: `{c2[1].text}`", c2[1].chain)
                    for (l, lab), ev in s.mutates.items():
                        if l[0] == "P" and l[1] == m.params[0] and l[2][:1] == (tgt,) and not ev.memo:
                            ctx.bad("class-value", f"{q}.{tgt}", ev.chain[0],
                                    f"the class-level {tgt}, shared by all instances, is changed by "
                                    f"`{ev.text}`", ev.chain)


def changed_later(ctx, f, pth):
    p = ctx.p
    for c in sorted(set(p.subclasses(f.cls)) | set(p.classes[f.cls].mro)):
        if c not in p.classes:
            continue
        k = p.classes[c]
        for m in [*k.methods.values(), *k.setters.values()]:
            s = ctx.eng.sum.get(m.qual)
            if s is None or not m.params or m.name == "__init__" or m.kind == "static":
                continue
            for (l, lab), ev in s.mutates.items():
                if l[0] == "P" and l[1] == m.params[0] and l[2][:len(pth)] == pth and not ev.memo \
                        and "*" not in l[2]:
                    return m, ev
    return None
