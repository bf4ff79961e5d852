"""Direct call resolution on the syntax tree: callees of a call and the binding of its arguments."""

from __future__ import annotations

import ast

from .model import Func, Program
from .typed import members


def calls_in(f: Func, nested=True):
    """Call nodes of a function body (with nested functions unless nested=False)."""
    stack = list(f.node.body)
    while stack:
        n = stack.pop(0)
        if isinstance(n, ast.Call):
            yield n
        if not nested and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            continue
        stack[:0] = list(ast.iter_child_nodes(n))


def local_names(f: Func):
    out = set(f.all_params())
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    return out


def callees(p: Program, f: Func, call: ast.Call, local=None):
    """[(Func, bound, cls)] a call may reach; bound: the first parameter is the receiver.
    cls is the constructed class for a constructor call, else None."""
    fn = call.func
    if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(
            fn.value.func, ast.Name) and fn.value.func.id == "super" and f.cls:
        for k in p.classes[f.cls].mro[1:]:
            c = p.classes.get(k)
            if c and fn.attr in c.methods:
                return [(c.methods[fn.attr], True, None)]
        return []
    root = fn
    while isinstance(root, ast.Attribute):
        root = root.value
    local = local_names(f) if local is None else local
    if isinstance(root, ast.Name) and root.id not in local or isinstance(fn, ast.Name):
        d = p.dotted(f.module, fn)
        if d is not None and not (isinstance(root, ast.Name) and root.id in local):
            if d in p.classes:
                g = p.lookup(d, "__init__")
                return [(g, True, d)] if g is not None else []
            if d in p.funcs:
                g = p.funcs[d]
                return [(g, g.kind == "class", None)]
            owner, _, nm = d.rpartition(".")
            if owner in p.classes:
                g = p.lookup(owner, nm)
                if g is not None:
                    return [(g, g.kind == "class", None)]
            return []
    if isinstance(fn, ast.Name):
        for g in p.funcs.values():
            if g.nested and g.name == fn.id and g.module == f.module and g.qual.startswith(f.qual):
                return [(g, False, None)]
    if isinstance(fn, ast.Attribute):
        out = []
        for m in members(p.type_of(f.module, fn.value)):
            if m[0] == "inst" and m[1] in p.classes:
                for g in p.dispatch(m[1], fn.attr):
                    if g.kind not in ("property",) and not any(x[0] is g for x in out):
                        out.append((g, g.kind != "static", None))
            elif m[0] == "type" and m[1][0] == "inst" and m[1][1] in p.classes:
                g = p.lookup(m[1][1], fn.attr)
                if g is not None:
                    out.append((g, g.kind == "class", None))
        return out
    ty = p.type_of(f.module, fn)
    out = []
    for m in members(ty):
        if m[0] == "type" and m[1][0] == "inst" and m[1][1] in p.classes:
            g = p.lookup(m[1][1], "__init__")
            if g is not None:
                out.append((g, True, m[1][1]))
        elif m[0] == "inst" and m[1] in p.classes:
            for g in p.dispatch(m[1], "__call__"):
                out.append((g, True, None))
    return out


MISSING = object()       # the parameter takes its default
OPEN = object()          # bound by a * or ** argument


def bind(g: Func, bound: bool, call: ast.Call):
    """{param: argument expression | MISSING | OPEN} of a call of g."""
    ps = list(g.params)[1 if bound else 0:]
    out = {}
    star = False
    i = 0
    for a in call.args:
        if isinstance(a, ast.Starred):
            star = True
            break
        if i < len(ps):
            out[ps[i]] = a
        i += 1
    dstar = False
    for k in call.keywords:
        if k.arg is None:
            dstar = True
        else:
            out[k.arg] = k.value
    for x in [*ps, *g.kwonly]:
        if x not in out:
            out[x] = OPEN if dstar or (star and x in ps) else MISSING
    return out
