"""C20: no path ends in an undefined name, unset variable, missing attribute or a call its target refuses."""

from __future__ import annotations

import ast
import builtins
import importlib
import re

from checks.refs import known_names
from sa.calls import bind, callees, calls_in, local_names
from sa.paths import Paths, TooMany, names_in
from sa.typed import members

LEVEL = "other"
SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef,
          ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
MODULE_NAMES = {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__class__", "__annotations__",
                "__qualname__", "__module__", "__dict__", "__loader__"}
PLAIN_BASES = {"builtins.object", "object", "abc.ABC", "ABC", "typing.Generic", "Generic", "typing.Protocol", "Protocol"}


# ---------------------------------------------------------------- names
def targets(n, out):
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)


def bindings(body, typing_only=None):
    """Names bound by the statements of one scope (nested scopes excluded)."""
    out = set()
    todo = [(s, False) for s in body]
    while todo:
        n, tc = todo.pop()
        new = set()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            new.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                new.add((a.asname or a.name).split(".")[0] if isinstance(n, ast.Import) or a.asname else a.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            new.update(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            new.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            new.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            new.add(n.rest)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            new.add(n.id)
        if typing_only is not None and tc:
            typing_only |= new
        else:
            out |= new
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            todo += [(d, tc) for d in n.decorator_list]
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            todo += [(x, tc) for x in ast.walk(n) if isinstance(x, ast.NamedExpr)]
            continue
        if isinstance(n, ast.If) and "TYPE_CHECKING" in names_in(n.test) | {
                x.attr for x in ast.walk(n.test) if isinstance(x, ast.Attribute)} and not isinstance(n.test, ast.UnaryOp):
            todo += [(x, True) for x in n.body] + [(x, tc) for x in n.orelse]
            continue
        todo += [(x, tc) for x in ast.iter_child_nodes(n)]
    return out


def args_of(fn):
    a = fn.args
    return {x.arg for x in [*a.posonlyargs, *a.args, *a.kwonlyargs] + [y for y in (a.vararg, a.kwarg) if y]}


def star_names(p, m):
    out = set()
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
            src = p.modules.get(n.module or "")
            if src is None:
                return None
            out |= exported(p, src)
    return out


def exported(p, m, seen=()):
    if m.name in seen:
        return set()
    out = bindings(m.tree.body)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
            s = p.modules.get(n.module or "")
            if s is not None:
                out |= exported(p, s, (*seen, m.name))
    return out | {x.rsplit(".", 1)[1] for x in p.modules if x.rpartition(".")[0] == m.name} | MODULE_NAMES


class Names:
    def __init__(self, ctx, p, m):
        self.ctx, self.p, self.m, self.n = ctx, p, m, 0
        self.typing = set()
        self.top = bindings(m.tree.body, self.typing) | MODULE_NAMES
        star = star_names(p, m)
        self.open = star is None
        self.top |= star or set()
        self.typing -= self.top
        self.future = any(isinstance(n, ast.ImportFrom) and n.module == "__future__" for n in m.tree.body)

    def run(self):
        if not self.open:
            self.body(self.m.tree.body, [], self.m.name, at_def=True)

    def body(self, body, scopes, where, at_def=False):
        for s in body:
            self.visit(s, scopes, where)

    def visit(self, n, scopes, where):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list:
                self.visit(d, scopes, where)
            for d in [*n.args.defaults, *n.args.kw_defaults]:
                if d is not None:
                    self.visit(d, scopes, where)
            tp = {x.name for x in getattr(n, "type_params", [])}
            inner = [s for s in scopes if s[0] != "class"]
            self.body(n.body, [*inner, ("fn", bindings(n.body) | args_of(n) | tp)], f"{where}.{n.name}")
            return
        if isinstance(n, ast.Lambda):
            for d in [*n.args.defaults, *n.args.kw_defaults]:
                if d is not None:
                    self.visit(d, scopes, where)
            self.visit(n.body, [*[s for s in scopes if s[0] != "class"], ("fn", args_of(n) | bindings([n.body]))], where)
            return
        if isinstance(n, ast.ClassDef):
            for d in [*n.decorator_list, *n.bases, *[k.value for k in n.keywords]]:
                self.visit(d, scopes, where)
            self.body(n.body, [*scopes, ("class", bindings(n.body))], f"{where}.{n.name}")
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            own = set()
            for g in n.generators:
                targets(g.target, own)
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    targets(x.target, own)
            inner = [*scopes, ("fn", own)]
            for c in ast.iter_child_nodes(n):
                self.visit(c, inner, where)
            return
        if isinstance(n, ast.AnnAssign):
            for c in (n.target, n.value):
                if c is not None:
                    self.visit(c, scopes, where)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            self.n += 1
            if any(n.id in s for _, s in scopes) or n.id in self.top or hasattr(builtins, n.id):
                return
            why = "is only imported for type checking" if n.id in self.typing else "is not defined"
            self.ctx.bad("C20-names", f"{where.removeprefix('b_asic.')}: {n.id}", f"{self.m.path}:{n.lineno}",
                         f"the name {n.id!r} {why}")
            return
        for c in ast.iter_child_nodes(n):
            self.visit(c, scopes, where)


def imports(ctx, p, m):
    k = 0
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom) and n.level == 0 and (n.module or "").split(".")[0] == "b_asic":
            src = p.modules.get(n.module)
            if src is None:
                if not n.module.startswith("b_asic._"):
                    ctx.bad("C20-names", f"{m.name.removeprefix('b_asic.')}: import {n.module}", f"{m.path}:{n.lineno}",
                            f"there is no module {n.module}")
                continue
            have = exported(p, src)
            for a in n.names:
                k += 1
                if a.name != "*" and a.name not in have and star_names(p, src) is not None and not any(
                        isinstance(f, ast.FunctionDef) and f.name == "__getattr__" for f in src.tree.body):
                    ctx.bad("C20-names", f"{m.name.removeprefix('b_asic.')}: import {a.name}", f"{m.path}:{n.lineno}",
                            f"{n.module} has no {a.name}")
    return k


# ---------------------------------------------------------------- attributes
class Attrs:
    def __init__(self, p):
        self.p = p
        self.cache = {}
        self.stored = {}        # class -> names stored through any expression of that class
        for f in p.funcs.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    for t in members(p.type_of(f.module, n.value)):
                        if t[0] == "inst" and t[1] in p.classes:
                            self.stored.setdefault(t[1], set()).add(n.attr)
        self.py = {}

    def own(self, q):
        c = self.p.classes[q]
        out = set(c.methods) | set(c.setters) | {k for k, v in c.attrs.items() if v is not None} | self.stored.get(q, set())
        for n in ast.walk(c.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                    and n.value.id in ("self", "cls"):
                out.add(n.attr)
        for b in c.node.body:
            if isinstance(b, ast.ClassDef):
                out.add(b.name)
            if isinstance(b, ast.Assign):
                targets(b, out)
        return out

    def have(self, q):
        """Names an object of the class or a subclass may have; None when not known."""
        if q not in self.cache:
            out = set(dir(object)) | {"__dict__"}
            for s in self.p.subclasses(q):
                for k in self.p.classes[s].mro:
                    if k in self.p.classes:
                        out |= self.own(k)
                        c = self.p.classes[k]
                        if "__getattr__" in c.methods or c.node.keywords or c.node.decorator_list:
                            out = None
                            break
                        known = [x for x in c.bases if x in self.p.classes]
                        for b, e in zip(c.bases, c.node.bases):
                            if b not in self.p.classes and b.split("[")[0] not in PLAIN_BASES:
                                out = None
                        if len(known) < len(c.node.bases) and len(c.bases) < len(c.node.bases):
                            if any(ast.unparse(e).split("[")[0].rsplit(".")[-1] not in
                                   {x.rsplit(".")[-1] for x in PLAIN_BASES} | {b.rsplit(".")[-1].split("[")[0] for b in c.bases}
                                   for e in c.node.bases):
                                out = None
                        if out is None:
                            break
                if out is None:
                    break
            self.cache[q] = out
        return self.cache[q]

    def python(self, full):
        if full not in self.py:
            mod, _, nm = full.rpartition(".")
            o = None
            if mod in ("builtins", "collections"):
                o = getattr(importlib.import_module(mod), nm, None)
            self.py[full] = set(dir(o)) if isinstance(o, type) else None
        return self.py[full]


def guarded(p, n, attr, f):
    """hasattr/try around the access, or the object is known through a class test of another expression."""
    for x in ast.walk(f.node):
        if isinstance(x, ast.Constant) and x.value == attr:
            return True
        if isinstance(x, ast.Try) and any(isinstance(h.type, ast.Name) and h.type.id == "AttributeError" or h.type is None
                                          for h in x.handlers) and any(y is n for y in ast.walk(x)):
            return True
    return False


def call_index(p):
    """function -> [(caller, call, bound)]"""
    out = {}
    for f in p.funcs.values():
        if f.nested:
            continue
        local = local_names(f)
        for n in calls_in(f):
            try:
                for g, b, _ in callees(p, f, n, local):
                    out.setdefault(g.qual, []).append((f, n, b))
            except (KeyError, RecursionError):
                continue
    return out


def passed(p, f, param, calls):
    """Types of the arguments given for a parameter in the package."""
    out = []
    for g, call, b in calls.get(f.qual, ()):
        e = bind(f, b, call).get(param)
        out += [t for t in members(p.type_of(g.module, e)) if t != ("none",)] if isinstance(e, ast.AST) else [("any",)]
    return out


def misdeclared(p):
    """Classes whose __iter__ iterates over something else than it declares."""
    def declared(g):
        return re.sub(r"^\w+\[(.*)\]$", r"\1", ast.unparse(g.node.returns)).strip("'\"") if g and g.node.returns else None

    out = set()
    for q in p.classes:
        g = p.lookup(q, "__iter__")
        says = declared(g)
        if says is None:
            continue
        for n in ast.walk(g.node):
            over = n.value if isinstance(n, (ast.Return, ast.YieldFrom)) else None
            if isinstance(over, ast.Call) and isinstance(over.func, ast.Name) and over.func.id == "iter" and over.args:
                over = over.args[0]
            for t in members(p.type_of(g.module, over)) if over is not None else ():
                if t[0] == "inst" and t[1] in p.classes:
                    gives = declared(p.lookup(t[1], "__iter__"))
                elif t[0] == "inst" and len(t) > 2 and len(t[2]) == 1 and t[2][0][0] == "inst":
                    gives = t[2][0][1].rsplit(".")[-1]
                else:
                    continue
                if gives != says:
                    out.add(q)
    return out


def attributes(ctx, p, at):
    n_ok = 0
    wrong = misdeclared(p)
    calls = call_index(p)
    for f in p.funcs.values():
        if f.nested:
            continue
        loose = set()
        for n in ast.walk(f.node):
            if isinstance(n, (ast.For, ast.comprehension)) and any(
                    t[0] == "inst" and t[1] in wrong for t in members(p.type_of(f.module, n.iter))):
                targets(n.target, loose)
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Attribute):
                continue
            if isinstance(n.value, ast.Name) and n.value.id in loose:
                continue
            ms = [t for t in members(p.type_of(f.module, n.value)) if t != ("none",)]
            if not ms:
                continue
            have = []
            for t in ms:
                if t[0] == "inst" and t[1] in p.classes:
                    have.append((t[1], at.have(t[1])))
                elif t[0] == "inst":
                    have.append((t[1], at.python(t[1])))
                elif t[0] == "type" and t[1][0] == "inst" and t[1][1] in p.classes:
                    h = at.have(t[1][1])
                    have.append((t[1][1], None if h is None else h | set(dir(type))))
                else:
                    have.append(("?", None))
            if any(h is None for _, h in have):
                continue
            n_ok += 1
            if all(n.attr not in h for _, h in have):
                if isinstance(n.ctx, ast.Store) and any(q in p.classes for q, _ in have):
                    continue
                if guarded(p, n, n.attr, f):
                    continue
                if isinstance(n.value, ast.Name) and n.value.id in f.params[1 if f.cls else 0:]:
                    said = passed(p, f, n.value.id, calls)
                    if any(t[0] != "inst" or t[1] not in p.classes or at.have(t[1]) is None or n.attr in at.have(t[1])
                           for t in said):
                        ctx.assume(f"{f.short}: {n.value.id} is annotated with another type than callers pass")
                        continue
                ctx.bad("C20-attributes", f"{f.short}: {n.attr}", p.loc(f, n),
                        f"{ast.unparse(n)}: no {' or '.join(sorted({q.removeprefix('b_asic.') for q, _ in have}))} "
                        f"has an attribute {n.attr!r}")
    ctx.ob("C20-attributes", f"{n_ok} attribute accesses on objects of known classes")


def readonly(ctx, p, at):
    k = 0
    for f in p.funcs.values():
        if f.nested:
            continue
        for n in ast.walk(f.node):
            if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)):
                continue
            ms = [t for t in members(p.type_of(f.module, n.value)) if t != ("none",)]
            if not ms or not all(t[0] == "inst" and t[1] in p.classes and at.have(t[1]) is not None for t in ms):
                continue
            k += 1
            bad = True
            for t in ms:
                for s in p.subclasses(t[1]):
                    g = p.lookup(s, n.attr)
                    if g is None or g.kind != "property" or p.lookup_setter(s, n.attr) is not None:
                        bad = False
            if bad:
                ctx.bad("C20-attributes", f"{f.short}: set {n.attr}", p.loc(f, n),
                        f"{ast.unparse(n)} is set, but it is a property without a setter")
    ctx.ob("C20-attributes", f"{k} attribute stores on objects of known classes")


def slots(ctx, p):
    k = 0
    for q, c in p.classes.items():
        have, closed = set(), True
        for m in c.mro:
            mc = p.classes.get(m)
            if mc is None:
                if m.split("[")[0] not in PLAIN_BASES:
                    closed = False
                continue
            if len(mc.bases) != len(mc.node.bases):
                if any(ast.unparse(e).split("[")[0].rsplit(".")[-1] not in
                       {x.rsplit(".")[-1] for x in PLAIN_BASES} | {b.rsplit(".")[-1].split("[")[0] for b in mc.bases}
                       for e in mc.node.bases):
                    closed = False
            s = [b for b in mc.node.body if isinstance(b, (ast.Assign, ast.AnnAssign)) and any(
                isinstance(t, ast.Name) and t.id == "__slots__"
                for t in (b.targets if isinstance(b, ast.Assign) else [b.target]))]
            if not s:
                closed = False
            for b in s:
                v = b.value
                if not all(isinstance(x, (ast.Constant, ast.Tuple, ast.List, ast.Load, ast.Set)) for x in ast.walk(v)):
                    closed = False
                have |= {x.value for x in ast.walk(v) if isinstance(x, ast.Constant)}
        if not closed or "__dict__" in have:
            continue
        k += 1
        for f in [*c.methods.values(), *c.setters.values()]:
            if not f.params or f.kind in ("static", "class"):
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                        and n.value.id == f.params[0]:
                    nm = n.attr
                    if nm.startswith("__") and not nm.endswith("__"):
                        continue
                    if nm not in have and p.lookup_setter(q, nm) is None:
                        ctx.bad("C20-attributes", f"{f.short}: slot {nm}", p.loc(f, n),
                                f"{ast.unparse(n)} is set, but no class of {c.short} has a slot for it")
    ctx.ob("C20-attributes", f"slots of {k} classes")


# ---------------------------------------------------------------- calls
def refuses(g, bound, call):
    """Why a call is not accepted by the function, or None."""
    ps = list(g.params)
    if bound and ps:
        ps = ps[1:]
    elif bound and not g.vararg:
        return "takes no arguments"
    if any(isinstance(a, ast.Starred) for a in call.args):
        star = True
    else:
        star = False
    npos = len([a for a in call.args if not isinstance(a, ast.Starred)])
    if npos > len(ps) and g.vararg is None:
        return f"takes {len(ps)} positional arguments, {npos} are given"
    given = set(ps[:npos])
    posonly = {a.arg for a in g.node.args.posonlyargs}
    open_kw = False
    for k in call.keywords:
        if k.arg is None:
            open_kw = True
            continue
        if k.arg in given and not star:
            return f"gets {k.arg!r} twice"
        if (k.arg not in ps or k.arg in posonly) and k.arg not in g.kwonly and g.kwarg is None:
            return f"has no parameter {k.arg!r}"
        given.add(k.arg)
    if not open_kw:
        for x in ps:
            if x not in given and x not in g.defaults and not star:
                return f"needs {x!r}"
        for x in g.kwonly:
            if x not in given and x not in g.defaults:
                return f"needs {x!r}"
    return None


PLAIN_DEC = {"staticmethod", "classmethod", "abstractmethod", "abc.abstractmethod", "override", "typing.override"}


def sure(p, f, call):
    """The candidates found by class-hierarchy analysis are all there are."""
    fn = call.func
    if isinstance(fn, ast.Attribute) and not (isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name)
                                              and fn.value.func.id == "super"):
        ms = [t for t in members(p.type_of(f.module, fn.value)) if t != ("none",)]
        if p.dotted(f.module, fn) is None and any(
                not (t[0] == "inst" and t[1] in p.classes or t[0] == "type") for t in ms):
            return False
    return True


def call_rule(ctx, p):
    k = 0
    for f in p.funcs.values():
        if f.nested:
            continue
        local = local_names(f)
        foreign = {a.asname or a.name for n in ast.walk(f.node) if isinstance(n, (ast.Import, ast.ImportFrom))
                   and not (getattr(n, "module", None) or "").startswith("b_asic") for a in n.names}
        for n in calls_in(f):
            if isinstance(n.func, ast.Name) and n.func.id in foreign:
                continue
            try:
                cs = callees(p, f, n, local)
            except (KeyError, RecursionError):
                continue
            if not cs or not sure(p, f, n):
                continue
            if isinstance(n.func, ast.Call) or any(c for _, _, c in cs) and not (
                    isinstance(n.func, ast.Name) and p.dotted(f.module, n.func) == cs[0][2]):
                cs = [(g, True, s) for _, _, c in cs if c for s in p.subclasses(c) for g in [p.lookup(s, "__init__")] if g]
                if not cs:
                    continue
            if any(set(g.decorators) - PLAIN_DEC or g.overload for g, _, _ in cs):
                continue
            k += 1
            why = [refuses(g, b, n) for g, b, _ in cs]
            if all(why):
                ctx.bad("C20-calls", f"{f.short}: {ast.unparse(n.func)[:60]}", p.loc(f, n),
                        f"{ast.unparse(n)[:100]}: {cs[0][0].short} {why[0]}")
    ctx.ob("C20-calls", f"{k} calls of functions of the package")


def unpacking(ctx, p):
    k = 0
    for f in p.funcs.values():
        if f.nested:
            continue
        for n in ast.walk(f.node):
            pairs = []
            if isinstance(n, ast.Assign):
                pairs = [(t, n.value) for t in n.targets]
            for t, v in pairs:
                if not isinstance(t, (ast.Tuple, ast.List)) or any(isinstance(x, ast.Starred) for x in t.elts):
                    continue
                if isinstance(v, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in v.elts):
                    m = len(v.elts)
                else:
                    continue
                k += 1
                if m != len(t.elts):
                    ctx.bad("C20-calls", f"{f.short}: unpack {ast.unparse(t)[:40]}", p.loc(f, n),
                            f"{m} values are unpacked to {len(t.elts)} names")
    returned = {}
    for f in p.funcs.values():
        lens = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Return) and n.value is not None:
                lens.add(len(n.value.elts) if isinstance(n.value, ast.Tuple) and not any(
                    isinstance(x, ast.Starred) for x in n.value.elts) else None)
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                lens.add(None)
        if len(lens) == 1 and None not in lens and not any(isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not f.node
                                                           for x in ast.walk(f.node)):
            returned[f.qual] = lens.pop()
    for f in p.funcs.values():
        if f.nested:
            continue
        local = local_names(f)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                for t in n.targets:
                    if isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in t.elts):
                        try:
                            cs = callees(p, f, n.value, local)
                        except (KeyError, RecursionError):
                            continue
                        if not cs or any(c[2] or c[0].decorators for c in cs) or not sure(p, f, n.value):
                            continue
                        ls = [returned.get(c[0].qual) for c in cs]
                        if all(x is not None for x in ls):
                            k += 1
                            if all(x != len(t.elts) for x in ls):
                                ctx.bad("C20-calls", f"{f.short}: unpack {ast.unparse(t)[:40]}", p.loc(f, n),
                                        f"{cs[0][0].short} returns {ls[0]} values, they are unpacked to {len(t.elts)} names")
    ctx.ob("C20-calls", f"{k} unpackings of a known number of values")


# ---------------------------------------------------------------- unset
def own_names(fn):
    own = set()

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                own.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                own.add(c.id)
            if isinstance(c, (ast.MatchAs, ast.MatchStar)) and c.name:
                own.add(c.name)
            walk(c)
    walk(fn)
    return own - args_of(fn) - {x for n in ast.walk(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}


def guards_of(fn, name, whiles=True):
    """Conditions around the stores of a name."""
    out = []

    def walk(n, conds):
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Store):
            nm = n.id if isinstance(n, ast.Name) else "self." + n.attr
            if nm == name:
                out.extend(conds)
        if isinstance(n, ast.If):
            for x in [*n.body, *n.orelse]:
                walk(x, [*conds, n.test])
            return
        if isinstance(n, ast.Match):
            for c in n.cases:
                g = [] if c.guard is None else [c.guard]
                for x in c.body:
                    walk(x, [*conds, n.subject, *g])
            return
        if isinstance(n, ast.While):
            for x in [*n.body, *n.orelse]:
                walk(x, [*conds, n.test] if whiles else conds)
            return
        for c in ast.iter_child_nodes(n):
            walk(c, conds)
    walk(fn, [])
    return out


def arithmetic(e):
    """The condition compares numbers, so that it may follow from others."""
    for n in ast.walk(e):
        if isinstance(n, ast.Compare):
            for op, r in zip(n.ops, n.comparators):
                if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                    return True
                if isinstance(op, (ast.Eq, ast.NotEq)) and not (
                        isinstance(r, (ast.Constant, ast.Attribute)) and not (isinstance(r, ast.Constant)
                                                                              and isinstance(r.value, (int, float))
                                                                              and not isinstance(r.value, bool))):
                    return True
                if isinstance(op, (ast.Is, ast.IsNot)) and not isinstance(r, ast.Constant):
                    return True
                if isinstance(op, (ast.In, ast.NotIn)) and not (isinstance(r, (ast.Tuple, ast.List, ast.Set))
                                                               and all(isinstance(x, ast.Constant) for x in r.elts)):
                    return True
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
            return True
    return False


def closed_choice(conds):
    """The path falls through a chain of comparisons of one thing with constants."""
    neg = {}
    pos = set()
    for c in conds:
        m = re.match(r"(not )?\((.*) == ", c)
        if m:
            if m.group(1):
                neg[m.group(2)] = neg.get(m.group(2), 0) + 1
            else:
                pos.add(m.group(2))
    if any(k not in pos and v >= 2 for k, v in neg.items()):
        return True
    inst = {}
    for c in conds:
        m = re.match(r"(not )?\(isinstance\((.*?), ", c)
        if m:
            inst.setdefault(m.group(2), []).append(m.group(1) is None)
    return any(len(v) >= 2 and not any(v) for v in inst.values())


# Names set in a loop that runs at least once, or finds what it looks for, for a reason outside its function's conditions.
LOOPS_RUN = {
    "sfg.SFG._rewrite_ShiftAddSub": "the two operations are checked to be a shift and an adder",
    "code_printer.vhdl.processing_element._statement_region_common": "a control table has an entry for every process",
    "code_printer.vhdl.top_level._collect_mux_info": "guarded by is_found",
    "sfg_generators.digital_filters.fir": "an empty coefficient list is refused",
}


def strict(ctx, p, f, own):
    """Loops may run zero times and searches may fail: names only set in such a loop."""
    if f.short in LOOPS_RUN or f.qual not in known_names()[0] or f.nested:
        return
    if not any(isinstance(n, (ast.For, ast.While)) for n in ast.walk(f.node)):
        return
    cand = set()
    Paths(f.node, own, lambda n, node, c: cand.add(n), merge=True, strict=True).run()
    private = f.name.startswith("_") and not f.name.startswith("__")
    for v in sorted(cand):
        gs = [g for g in guards_of(f.node, v, whiles=False)]
        if any(arithmetic(g) for g in gs) or len({ast.dump(g) for g in gs}) > 6 or private and any(
                names_in(g) & args_of(f.node) - {"self"} for g in gs):
            continue
        hits = []
        try:
            Paths(f.node, {v}, lambda n, node, c: hits.append((node, c)), strict=True).run()
        except TooMany:
            continue
        hits = [(n, c) for n, c in hits if not closed_choice(c)]
        if hits:
            n, c = min(hits, key=lambda h: (len(h[1]), h[0].lineno))
            ctx.bad("C20-unset", f"{f.short}: {v}", p.loc(f, n),
                    f"{v!r} is used, but not set when no pass of the loop sets it"
                    + (f" and {' and '.join(c)}" if c else ""))


def unset(ctx, p):
    k = 0
    for f in p.funcs.values():
        own = own_names(f.node)
        if not own:
            continue
        k += len(own)
        strict(ctx, p, f, own)
        cand = set()
        Paths(f.node, own, lambda n, node, c: cand.add(n), merge=True).run()
        private = f.nested or f.name.startswith("_") and not f.name.startswith("__")
        for v in sorted(cand):
            gs = guards_of(f.node, v)
            if not gs or any(arithmetic(g) for g in gs) or len({ast.dump(g) for g in gs}) > 6:
                ctx.assume(f"{f.short}: that {v} is set where it is used is not decided")
                continue
            if private and any(names_in(g) & args_of(f.node) - {"self"} for g in gs):
                ctx.assume(f"{f.short}: that {v} is set depends on the callers of a private function")
                continue
            hits = []
            try:
                Paths(f.node, {v}, lambda n, node, c: hits.append((node, c))).run()
            except TooMany:
                ctx.assume(f"{f.short}: too many paths to decide that {v} is set where it is used")
                continue
            hits = [(n, c) for n, c in hits if not closed_choice(c)]
            if hits:
                n, c = min(hits, key=lambda h: (len(h[1]), h[0].lineno))
                ctx.bad("C20-unset", f"{f.short}: {v}", p.loc(f, n),
                        f"{v!r} is used, but not set on the path where {' and '.join(c) or 'its assignment is not reached'}")
    ctx.ob("C20-unset", f"{k} local variables")


def initialised(ctx, p, at):
    """Attributes that the constructor sets on some paths only."""
    k = 0
    for q, c in p.classes.items():
        init = c.methods.get("__init__")
        if init is None or at.have(q) is None or not init.params:
            continue
        self_name = init.params[0]
        stores = {}
        for m in c.mro:
            mc = p.classes.get(m)
            for nm, g in (mc.methods.items() if mc else ()):
                if g.params:
                    stores.setdefault(nm, set()).update(
                        "self." + n.attr for n in ast.walk(g.node) if isinstance(n, ast.Attribute)
                        and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == g.params[0])
        classlevel = {x for m in c.mro if m in p.classes for x in [*p.classes[m].attrs, *p.classes[m].methods]}
        mine = {"self." + n.attr for n in ast.walk(init.node) if isinstance(n, ast.Attribute)
                and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == self_name
                and (n.attr not in classlevel or p.classes[q].attrs.get(n.attr, 0) is None)}
        read = {"self." + n.attr for s in p.subclasses(q) for g in p.classes[s].methods.values() if g is not init
                for n in ast.walk(g.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name)
                and g.params and n.value.id == g.params[0]}

        def deep(call, stores=stores, self_name=self_name):
            fn = call.func
            if isinstance(fn, ast.Attribute):
                if isinstance(fn.value, ast.Name) and fn.value.id == self_name:
                    return reach(fn.attr, stores, p, c)
                if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
                    return set().union(*stores.values(), set())
            if any(isinstance(a, ast.Name) and a.id == self_name for a in [*call.args, *[k.value for k in call.keywords]]):
                return set().union(*stores.values(), set()) | mine_all(p, c)
            return set()
        for v in sorted(mine & read):
            k += 1
            try:
                out = Paths(init.node, {v}, lambda *a: None, self_name=self_name, deep=deep, merge=True).run()
                if not any(v in u for u, _ in out):
                    continue
                pp = Paths(init.node, {v}, lambda *a: None, self_name=self_name, deep=deep)
                out = pp.run()
            except TooMany:
                ctx.assume(f"{init.short}: too many paths to decide that {v} is set")
                continue
            left = [pp.show(l) for u, l in out if v in u]
            left = [x for x in left if not closed_choice(x)]
            if left and not any(arithmetic(g) for g in guards_of(init.node, v)):
                if any(isinstance(n, ast.Constant) and n.value == v[5:] for s in p.subclasses(q)
                       for n in ast.walk(p.classes[s].node)):
                    continue
                ctx.bad("C20-unset", f"{init.short}: {v}", p.loc(init, init.node),
                        f"{v} is read by methods, but the constructor does not set it when {' and '.join(min(left, key=len))}")
    ctx.ob("C20-unset", f"{k} attributes set by constructors")


def mine_all(p, c):
    return {"self." + n.attr for n in ast.walk(c.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}


def reach(name, stores, p, c):
    """Attributes a method sets, through the methods it calls on self as well."""
    out, todo, seen = set(), [name], set()
    while todo:
        m = todo.pop()
        if m in seen:
            continue
        seen.add(m)
        out |= stores.get(m, set())
        for k in c.mro:
            kc = p.classes.get(k)
            if kc and m in kc.methods:
                g = kc.methods[m]
                for n in ast.walk(g.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                            and g.params and n.func.value.id == g.params[0]:
                        todo.append(n.func.attr)
    return out


# ---------------------------------------------------------------- texts
def texts(ctx, p):
    k = 0
    for f in p.funcs.values():
        if f.nested:
            continue
        local = local_names(f)
        fparts = {id(x) for n in ast.walk(f.node) if isinstance(n, ast.JoinedStr) for x in ast.walk(n)}
        formatted = {id(n.func.value) for n in ast.walk(f.node) if isinstance(n, ast.Call)
                     and isinstance(n.func, ast.Attribute) and n.func.attr in ("format", "format_map", "replace", "substitute")}
        for r in ast.walk(f.node):
            if not isinstance(r, ast.Raise) or r.exc is None:
                continue
            for n in ast.walk(r.exc):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in fparts and id(n) not in formatted:
                    k += 1
                    for m in re.finditer(r"\{([A-Za-z_]\w*)((?:\.\w+|\[[^\]{}]*\]|\(\))*)(![rsa])?(:[^{}]*)?\}", n.value):
                        if m.group(1) in local:
                            ctx.bad("C20-text", f"{f.short}: {m.group(0)}", p.loc(f, n),
                                    f"the message {n.value[:70]!r} shows {m.group(0)} instead of its value")
                            break
    ctx.ob("C20-text", f"{k} constant parts of error messages")


def check(ctx):
    p = ctx.p
    ctx.rule("C20-names", "every name is bound where it is used, every import from the package exists", 10)
    ctx.rule("C20-attributes", "every attribute exists on some object the expression can denote, and can be set where it is set", 2)
    ctx.rule("C20-calls", "every call of a function of the package passes arguments that some target accepts", 1)
    ctx.rule("C20-unset", "no variable or attribute is used on a path that does not set it", 2)
    ctx.rule("C20-text", "error messages show the values they name", 1)
    for m in p.modules.values():
        if not m.name.startswith("b_asic") or m.name.startswith("b_asic.vref_"):
            continue
        n = Names(ctx, p, m)
        n.run()
        k = imports(ctx, p, m)
        ctx.ob("C20-names", f"{m.name}: {n.n} names, {k} imported names")
    at = Attrs(p)
    attributes(ctx, p, at)
    readonly(ctx, p, at)
    slots(ctx, p)
    call_rule(ctx, p)
    unpacking(ctx, p)
    unset(ctx, p)
    initialised(ctx, p, at)
    texts(ctx, p)
