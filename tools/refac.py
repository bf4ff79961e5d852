#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the functions under a reference: none may become a DIFF.

python3-vt tools/refac.py NAME [target substrings]     (J=processes, ALL=1 prints all verdicts)
"""
import ast
import copy
import os
import shutil
import sys
import tempfile
from concurrent.futures import ProcessPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)


def jumps(b):
    return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def blocks(fn):
    for n in ast.walk(fn):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, b


def N(s):
    return ast.parse(s, mode="eval").body


def pure(e):
    return not any(isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.Lambda)) for n in ast.walk(e))


def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def negate(e):
    return e.operand if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not) else ast.UnaryOp(ast.Not(), e)


def loop_of(comp, inner):
    """Nested for/if statements of generators around the statements inner."""
    body = inner
    for g in reversed(comp.generators):
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        body = [ast.For(g.target, g.iter, body, [])]
    return body


class Sub(ast.NodeTransformer):
    def __init__(self, old, new):
        self.old, self.new = old, new

    def visit(self, n):
        return self.new if n is self.old else super().generic_visit(n)


def rewrites(fn):
    """(name, action) on the nodes of fn; action changes them in place and gives extra methods."""
    out = []
    for n in list(ast.walk(fn)):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = type(n.ops[0])
            flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq,
                    ast.NotEq: ast.NotEq}
            if o in flip:
                def f(n=n, o=o):
                    n.left, n.comparators, n.ops = n.comparators[0], [n.left], [flip[o]()]
                out.append(("flip", f))
            inv = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq,
                   ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
            if o in inv:
                def f(n=n, o=o):
                    new = ast.UnaryOp(ast.Not(), ast.Compare(n.left, [inv[o]()], n.comparators))
                    Sub(n, new).visit(fn)
                out.append(("invert", f))
        if isinstance(n, ast.BoolOp):
            def f(n=n):
                new = ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(),
                                                        [negate(v) for v in n.values]))
                Sub(n, new).visit(fn)
            out.append(("demorgan", f))
        if isinstance(n, ast.AugAssign):
            def f(n=n):
                t = copy.deepcopy(n.target)
                for x in ast.walk(t):
                    if hasattr(x, "ctx"):
                        x.ctx = ast.Load() if x is t else x.ctx
                new = ast.Assign([n.target], ast.BinOp(t, n.op, n.value))
                Sub(n, new).visit(fn)
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                out.append(("augexpand", f))
        if isinstance(n, ast.If):
            def f(n=n):
                n.test, n.body, n.orelse = negate(n.test), n.orelse or [ast.Pass()], n.body
            out.append(("ifinvert", f))
            if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
                def f(n=n):
                    v = n.test.values
                    n.test, n.body = v[0], [ast.If(v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:]), n.body, [])]
                out.append(("nestif", f))
        if isinstance(n, ast.IfExp):
            def f(n=n):
                n.test, n.body, n.orelse = negate(n.test), n.orelse, n.body
            out.append(("ternary", f))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" and \
                isinstance(n.args[1], ast.Tuple):
            def f(n=n):
                new = ast.BoolOp(ast.Or(), [ast.Call(N("isinstance"), [copy.deepcopy(n.args[0]), c], [])
                                            for c in n.args[1].elts])
                Sub(n, new).visit(fn)
            out.append(("isinst", f))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "cast":
            def f(n=n):
                Sub(n, n.args[1]).visit(fn)
            out.append(("uncast", f))
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and \
                n.iter.func.attr == "items" and isinstance(n.target, ast.Tuple):
            def f(n=n):
                d = n.iter.func.value
                k, v = n.target.elts
                n.iter, n.target = d, k
                kl = copy.deepcopy(k)
                for x in ast.walk(kl):
                    if hasattr(x, "ctx"):
                        x.ctx = ast.Load()
                n.body.insert(0, ast.Assign([v], ast.Subscript(copy.deepcopy(d), kl, ast.Load())))
            if pure(n.iter) and not any(isinstance(c, ast.Call) for c in ast.walk(n.iter.func.value)):
                out.append(("items", f))
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and isinstance(n.iter, (ast.Name, ast.Attribute)):
            def f(n=n):
                t = n.target.id
                n.target = ast.Tuple([ast.Name("idx_q", ast.Store()), ast.Name(t, ast.Store())], ast.Store())
                n.iter = ast.Call(N("enumerate"), [n.iter], [])
            out.append(("enumerate", f))
            if pure(n.iter):
                def f(n=n):
                    n.body.insert(0, ast.Assign([ast.Name(n.target.id, ast.Store())], ast.Subscript(
                        copy.deepcopy(n.iter), ast.Name("idx_q", ast.Load()), ast.Load())))
                    n.target = ast.Name("idx_q", ast.Store())
                    n.iter = ast.Call(N("range"), [ast.Call(N("len"), [n.iter], [])], [])
                out.append(("rangelen", f))
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub):
            def f(n=n):
                new = ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right))
                Sub(n, new).visit(fn)
            if not any(isinstance(x, (ast.Set,)) for x in ast.walk(n)):
                out.append(("subneg", f))
        if isinstance(n, ast.GeneratorExp):
            def f(n=n):
                Sub(n, ast.ListComp(n.elt, n.generators)).visit(fn)
            out.append(("gen2list", f))
    for owner, b in list(blocks(fn)):
        for i, s in enumerate(b):
            doc = i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)
            if doc:
                continue

            def f(b=b, s=s):
                b.insert(b.index(s), ast.parse("unused_q = 0").body[0])
            out.append(("noop", f))
            if isinstance(s, ast.If) and jumps(s.body) and not s.orelse and i + 1 < len(b):
                def f(b=b, s=s):
                    k = b.index(s)
                    s.orelse = b[k + 1:]
                    del b[k + 1:]
                out.append(("else", f))
            if isinstance(s, ast.If) and jumps(s.body) and s.orelse:
                def f(b=b, s=s):
                    k = b.index(s)
                    b[k + 1:k + 1] = s.orelse
                    s.orelse = []
                out.append(("noelse", f))
            e = getattr(s, "value", None) if isinstance(s, (ast.Return, ast.Assign, ast.AugAssign)) else \
                s.test if isinstance(s, ast.If) else s.iter if isinstance(s, ast.For) else None
            if e is not None and not isinstance(e, (ast.Constant, ast.Name)):
                def f(b=b, s=s, e=e):
                    b.insert(b.index(s), ast.Assign([ast.Name("val_q", ast.Store())], e))
                    Sub(e, ast.Name("val_q", ast.Load())).visit(s)
                # an elif test may not be moved in front
                if not (isinstance(owner, ast.If) and b is owner.orelse and len(b) == 1 and isinstance(s, ast.If)):
                    out.append(("temp", f))

                def f(b=b, s=s, e=e):
                    names = sorted({x.id for x in ast.walk(e) if isinstance(x, ast.Name)} & LOCALS[0])
                    helper = ast.parse(f"def _extracted_q({', '.join(names)}):\n    pass").body[0]
                    helper.body = [ast.Return(e)]
                    Sub(e, ast.Call(N("_extracted_q"), [ast.Name(x, ast.Load()) for x in names], [])).visit(s)
                    return [helper]
                out.append(("helper", f))
            if isinstance(s, (ast.For, ast.If)) and not any(isinstance(x, (ast.Return, ast.Break, ast.Continue,
                                                                           ast.Assign, ast.AugAssign, ast.For,
                                                                           ast.NamedExpr))
                                                            and not (isinstance(x, ast.For) and x is s)
                                                            for x in ast.walk(s)):
                def f(b=b, s=s):
                    names = sorted({x.id for x in ast.walk(s) if isinstance(x, ast.Name)} & LOCALS[0])
                    helper = ast.parse(f"def _extracted_q({', '.join(names)}):\n    pass").body[0]
                    helper.body = [s]
                    b[b.index(s)] = ast.Expr(ast.Call(N("_extracted_q"), [ast.Name(x, ast.Load()) for x in names], []))
                    return [helper]
                bound = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                rest = {x.id for t in b[i + 1:] for x in ast.walk(t) if isinstance(x, ast.Name)}
                if not bound & rest:
                    out.append(("stmt_helper", f))
            # comprehension to loop
            if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp)) and isinstance(s, (ast.Return, ast.Assign)):
                def f(b=b, s=s, e=e):
                    acc = ast.Name("acc_q", ast.Store())
                    if isinstance(e, ast.DictComp):
                        init, inner = N("{}"), ast.Assign([ast.Subscript(N("acc_q"), e.key, ast.Store())], e.value)
                    else:
                        init = N("[]") if isinstance(e, ast.ListComp) else N("set()")
                        m = "append" if isinstance(e, ast.ListComp) else "add"
                        inner = ast.Expr(ast.Call(ast.Attribute(N("acc_q"), m, ast.Load()), [e.elt], []))
                    k = b.index(s)
                    b[k:k] = [ast.Assign([acc], init), *loop_of(e, [inner])]
                    s.value = N("acc_q")
                out.append(("comp2loop", f))
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("any", "all", "sum") and \
                    isinstance(s, (ast.Return, ast.Assign)) and isinstance(e.args[0], ast.GeneratorExp):
                def f(b=b, s=s, e=e):
                    g, k = e.args[0], b.index(s)
                    if e.func.id == "sum":
                        ini, inner = "0", [ast.AugAssign(ast.Name("acc_q", ast.Store()), ast.Add(), g.elt)]
                    else:
                        ini = "False" if e.func.id == "any" else "True"
                        t = g.elt if e.func.id == "any" else negate(g.elt)
                        val = N("True" if e.func.id == "any" else "False")
                        inner = [ast.If(t, [ast.Assign([ast.Name("acc_q", ast.Store())], val)], [])]
                    b[k:k] = [ast.Assign([ast.Name("acc_q", ast.Store())], N(ini)), *loop_of(g, inner)]
                    s.value = N("acc_q")
                out.append(("red2loop", f))
            # loop to comprehension
            if isinstance(s, ast.For) and not s.orelse and i and isinstance(b[i - 1], ast.Assign) and \
                    isinstance(b[i - 1].targets[0], ast.Name):
                acc = b[i - 1].targets[0].id
                inner, ifs = s.body, []
                while len(inner) == 1 and isinstance(inner[0], ast.If) and not inner[0].orelse:
                    ifs.append(inner[0].test)
                    inner = inner[0].body
                if len(inner) == 1 and isinstance(inner[0], ast.Expr) and isinstance(inner[0].value, ast.Call) and \
                        isinstance(inner[0].value.func, ast.Attribute) and inner[0].value.func.attr == "append" and \
                        isinstance(inner[0].value.func.value, ast.Name) and inner[0].value.func.value.id == acc and \
                        isinstance(b[i - 1].value, ast.List) and not b[i - 1].value.elts:
                    def f(b=b, s=s, ifs=ifs, x=inner[0].value.args[0], a=b[i - 1]):
                        a.value = ast.ListComp(x, [ast.comprehension(s.target, s.iter, ifs, 0)])
                        b.remove(s)
                    out.append(("loop2comp", f))
            if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                def f(b=b, s=s):
                    b[b.index(s)] = ast.If(s.value.test, [ast.Return(s.value.body)], [ast.Return(s.value.orelse)])
                out.append(("tern2if", f))
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                def f(b=b, s=s):
                    b[b.index(s)] = ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)],
                                           [ast.Assign(copy.deepcopy(s.targets), s.value.orelse)])
                out.append(("tern2if", f))
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) \
                    and isinstance(s.orelse[0], ast.Assign) and \
                    ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]):
                def f(b=b, s=s):
                    b[b.index(s)] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
                out.append(("if2tern", f))
            # swap two independent assignments
            if isinstance(s, ast.Assign) and i + 1 < len(b) and isinstance(b[i + 1], ast.Assign) and \
                    all(isinstance(x.targets[0], (ast.Name, ast.Attribute)) for x in (s, b[i + 1])):
                t = b[i + 1]
                txt = [ast.unparse(x.targets[0]) for x in (s, t)]
                used = ast.unparse(t.value), ast.unparse(s.value)
                if txt[0] not in used[0] and txt[1] not in used[1] and not any(
                        isinstance(x, ast.Call) for y in (s, t) for x in ast.walk(y.value)):
                    def f(b=b, s=s, t=t):
                        k = b.index(s)
                        b[k], b[k + 1] = t, s
                    out.append(("swap", f))
    # the whole body in a private method
    def f():
        args = [a.arg for a in (*fn.args.posonlyargs, *fn.args.args, *fn.args.kwonlyargs)]
        helper = copy.deepcopy(fn)
        helper.name, helper.decorator_list, helper.returns = "_moved_q", [], None
        helper.args.defaults = []
        helper.args.kw_defaults = []
        helper.args.args += helper.args.kwonlyargs
        helper.args.kwonlyargs = []
        call = N(f"self._moved_q({', '.join(args[1:])})") if METHOD[0] else N(f"_moved_q({', '.join(args)})")
        doc = fn.body[:1] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else []
        fn.body = [*doc, ast.Return(call) if any(isinstance(x, ast.Return) and x.value for x in ast.walk(fn))
                   else ast.Expr(call)]
        return [("method", helper)] if METHOD[0] else [helper]
    if not fn.args.vararg and not fn.args.kwarg and (not METHOD[0] or fn.args.args and fn.args.args[0].arg == "self"):
        out.append(("move", f))
    # other names for the locals
    names = sorted({x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})

    def f():
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id in names:
                x.id += "_q"
    if names and not any(isinstance(x, (ast.Nonlocal, ast.Global, ast.FunctionDef)) and x is not fn for x in ast.walk(fn)):
        out.append(("rename", f))
    return out


LOCALS, METHOD = [set()], [False]


def find(tree, qual):
    owner, body = None, tree
    for part in qual.split("."):
        c = [x for x in body.body if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == part]
        c = [x for x in c if not any("setter" in ast.unparse(q) for q in getattr(x, "decorator_list", []))] or c
        if not c:
            return None, None
        owner, body = body, c[-1]
    return owner, body


def prepare(path, qual):
    tree = ast.parse(open(path).read())
    owner, fn = find(tree, qual)
    if fn is None:
        return None, None, None
    METHOD[0] = isinstance(owner, ast.ClassDef)
    LOCALS[0] = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)} | {
        x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    return tree, owner, fn


def patched(path, qual, i):
    tree, owner, fn = prepare(path, qual)
    name, act = rewrites(fn)[i]
    extra = act() or []
    for h in extra:
        if isinstance(h, tuple):
            owner.body.insert(owner.body.index(fn), h[1])
        else:
            k = next(j for j, x in enumerate(tree.body) if isinstance(x, (ast.FunctionDef, ast.ClassDef)))
            tree.body.insert(k, h)
    ast.fix_missing_locations(tree)
    return name, ast.unparse(tree), ast.unparse(fn)


def job(a):
    path, qual, i, tgt, name = a
    d = tempfile.mkdtemp(prefix="refac", dir="/tmp")
    try:
        shutil.copytree("/repo/lib", d + "/lib", ignore=shutil.ignore_patterns("__pycache__"))
        kind, text, fn = patched(path, qual, i)
        with open(d + path.removeprefix("/repo"), "w") as fh:
            fh.write(text)
        from checks.refs import compare_one, known_names
        from sa.model import load
        from sa.refcmp import refs_of
        mod = "b_asic.vref_" + name
        p = load(d, {mod: f"{ROOT}/spec/ref/{name}.py"})
        fns, vocab = known_names()
        vs = [compare_one(p, t, g, kw, fns, vocab) for t, g, kw in refs_of(p, mod) if t == tgt]
        v = min(vs, key=lambda r: {"EQ": 0, "UNK": 1, "DIFF": 2}.get(r[0], 3))
        return tgt, qual, kind, v[0], v[1][:160], fn if v[0] == "DIFF" else ""
    except Exception as e:  # noqa: BLE001
        return tgt, qual, "?", "FAIL", f"{type(e).__name__} {e}"[:160], ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    from collections import Counter

    from checks.refs import find as pfind
    from sa.model import load
    from sa.refcmp import refs_of
    name, only = sys.argv[1], sys.argv[2:]
    mod = "b_asic.vref_" + name
    p = load("/repo", {mod: f"{ROOT}/spec/ref/{name}.py"})
    jobs, seen = [], set()
    for tgt, f, kw in refs_of(p, mod):
        if only and not any(o in tgt for o in only) or tgt in seen:
            continue
        seen.add(tgt)
        g = pfind(p, tgt)
        if g is None:
            continue
        path, rel = p.modules[g.module].path, g.qual.removeprefix(g.module + ".")
        tree, owner, fn = prepare(path, rel)
        if fn is not None:
            jobs += [(path, rel, i, tgt, name) for i in range(len(rewrites(fn)))]
    print(len(jobs), "rewrites")
    c = Counter()
    with ProcessPoolExecutor(int(os.environ.get("J", "4"))) as ex:
        for tgt, qual, kind, v, t, fn in ex.map(job, jobs):
            c[v, kind] += 1
            if v in ("DIFF", "FAIL") or os.environ.get("ALL"):
                print(qual, "|", kind, "|", v, t, flush=True)
                if os.environ.get("SHOW") and fn:
                    print(fn)
    for k, n in sorted(c.items()):
        print(*k, n)


if __name__ == "__main__":
    main()
