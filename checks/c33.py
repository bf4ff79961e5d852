"""C33: signal generators generate the documented signals; their texts denote them."""

from __future__ import annotations

import ast
import itertools

from checks.opsem import OpSem
from checks.refs import compare_refs, literal, want_modules
from sa.symval import Blowup, show

LEVEL = "other"
MOD = "b_asic.signal_generator"
BASE = f"{MOD}.SignalGenerator"
OPS = {"__add__": ast.Add, "__sub__": ast.Sub, "__mul__": ast.Mult, "__truediv__": ast.Div}


class NotText(Exception):
    pass


def conditions(t, out):
    """Conditions of the alternatives in a text term."""
    if isinstance(t, tuple):
        if t and t[0] == "ite":
            if t[1] not in out:
                out.append(t[1])
            conditions(t[2], out)
            conditions(t[3], out)
            return out
        for x in t:
            conditions(x, out)
    return out


def atoms(c):
    if c[0] in ("and", "or"):
        return [a for x in c[1] for a in atoms(x)]
    if c[0] == "not":
        return atoms(c[1])
    return [c]


def holds(c, val):
    if c[0] == "and":
        return all(holds(x, val) for x in c[1])
    if c[0] == "or":
        return any(holds(x, val) for x in c[1])
    if c[0] == "not":
        return not holds(c[1], val)
    return val[c]


def render(t, val):
    """[str or (placeholder term, conversion)] of a text term in one case."""
    if t[0] == "ite":
        return render(t[2] if holds(t[1], val) else t[3], val)
    if t[0] == "c" and t[1] == "str":
        return [t[2]]
    if t[0] == "fstr":
        return [y for x in t[1] for y in render(x, val)]
    if t[0] == "fmt":
        if t[3]:
            raise NotText("format specification")
        x = pick(t[1], val)
        if x[0] in ("fstr", "ite", "mcall") or x[0] == "c" and x[1] == "str":
            if t[2] != -1:
                raise NotText("representation of a text")
            return render(x, val)
        return [(x, t[2])]
    if t[0] == "mcall" and t[2] == "join" and t[1][0] == "c":
        parts = [render(x, val) for x in elements(t[3][0], val)]
        out = []
        for i, x in enumerate(parts):
            out += ([t[1][2]] if i else []) + x
        return out
    if t[0] == "op" and t[1] == "+":
        return [y for x in t[2:] for y in render(x, val)]
    raise NotText(t[0])


def pick(t, val):
    while t[0] == "ite":
        t = t[2] if holds(t[1], val) else t[3]
    return t


def elements(t, val):
    t = pick(t, val)
    if t[0] in ("list", "tuple"):
        return list(t[1])
    if t[0] == "mut" and t[1] == "append":
        return [*elements(t[2], val), t[3][0]]
    raise NotText("sequence " + t[0])


def check(ctx):
    want_modules(ctx, ["signals"])
    compare_refs(ctx, "signals", "a signal generator gives the documented value at every time, and arithmetic on generators "
                 "builds the generator of that arithmetic", rule="C33-values")
    ctx.rule("C33-text", "the text of a signal generator is the Python expression that builds it", 6)
    p = ctx.p
    binary = {f"{MOD}.{c}": o for c, o in (("_AddGenerator", ast.Add), ("_SubGenerator", ast.Sub),
                                           ("_MulGenerator", ast.Mult), ("_DivGenerator", ast.Div))}
    for cls in sorted(p.subclasses(BASE)):
        if cls == BASE:
            continue
        f = p.lookup(cls, "__repr__")
        short = cls.removeprefix("b_asic.")
        if f is None:
            ctx.bad("C33-text", short, p.classes[cls].loc if hasattr(p.classes[cls], "loc") else MOD,
                    "has no __repr__, so the text of a generator made from it is no expression")
            continue
        try:
            text_rule(ctx, p, cls, short, f, binary)
        except (NotText, Blowup, KeyError, IndexError, TypeError, SyntaxError) as e:
            ctx.assume(f"text of {short} is not decided: {type(e).__name__}: {e}")


def text_rule(ctx, p, cls, short, f, binary):
    o = OpSem(p, cls)
    heap, init = o.merged_init()
    t = o.sv().value(f, None, heap)
    conds = []
    for c in conditions(t, []):
        for a in atoms(c):
            if a not in conds:
                conds.append(a)
    inst = [a for a in conds if a[:2] == ("call", "isinstance")] if cls in binary else []
    plain = [a for a in conds if a not in inst]
    if len(plain) > 5:
        raise NotText("too many cases")
    kinds = [*binary, None]
    seen = 0
    for choice in itertools.product([True, False], repeat=len(plain)):
        val0 = dict(zip(plain, choice))
        for ks in itertools.product(kinds if cls in binary else [None], repeat=2 if cls in binary else 0):
            val, kind = dict(val0), {}
            if cls in binary:
                kind = {("p", "a"): ks[0], ("p", "b"): ks[1]}
            for a in inst:
                if kind.get(a[2][0]) is None and a[2][0] in kind:
                    val[a] = False
                else:
                    if a[2][0] not in kind:
                        raise NotText("class of an operand")
                    names = [x[1] for x in a[2][1][1]] if a[2][1][0] == "tuple" else [a[2][1][1]]
                    val[a] = any(kind[a[2][0]] in p.subclasses(n) for n in names)
            parts = render(t, val)
            seen += 1
            case = ", ".join([f"{show(c)}: {v}" for c, v in val0.items()] +
                             [f"{x[1]} a {k.rsplit('.')[-1]}" for x, k in kind.items() if k])
            verify(ctx, p, cls, short, f, init, parts, val0, kind, binary, case)
    ctx.ob("C33-text", f"{short}: {seen} cases")


def verify(ctx, p, cls, short, f, init, parts, val, kind, binary, case):
    where = p.loc(f, f.node)
    names = {}
    text, full = "", ""
    for x in parts:
        if isinstance(x, str):
            text, full = text + x, full + x
            continue
        term, conv = x
        n = f"v{len(names)}"
        names[n] = (term, conv)
        k = kind.get(term)
        if k in binary and conv == -1:
            sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}[binary[k]]
            text += f"{n}x {sym} {n}y"
        else:
            text += n
    try:
        tree = ast.parse(text, mode="eval").body
    except SyntaxError:
        ctx.bad("C33-text", short, where, f"when {case or 'always'}: the text {shown(text, names)!r} is no expression")
        return
    if cls in binary:
        order = [n for n, (t, _) in names.items()]
        if len(order) != 2 or [names[n][0] for n in order] != [("p", "a"), ("p", "b")]:
            if len(order) == 2 and sorted(names[n][0] for n in order) == [("p", "a"), ("p", "b")] \
                    and binary[cls] in (ast.Add, ast.Mult):
                pass
            else:
                ctx.bad("C33-text", short, where, f"the text {shown(text, names)!r} does not show both terms in order")
                return
        ex = {}
        for n in order:
            k = kind.get(names[n][0])
            ex[names[n][0]] = ast.parse(
                f"({n}x {dict(zip((ast.Add, ast.Sub, ast.Mult, ast.Div), '+-*/'))[binary[k]]} {n}y)" if k in binary else n,
                mode="eval").body
        want = ast.BinOp(ex[("p", "a")], binary[cls](), ex[("p", "b")])
        if value(tree) != value(want):
            ctx.bad("C33-text", short, where, f"when {case}: the text {shown(text, names)!r} is another expression")
        return
    if not (isinstance(tree, ast.Call) and isinstance(tree.func, ast.Name)):
        ctx.bad("C33-text", short, where, f"the text {shown(text, names)!r} is no constructor call")
        return
    if tree.func.id != cls.rsplit(".")[-1]:
        ctx.bad("C33-text", short, where, f"the text names {tree.func.id}")
        return
    params = list(init.params[1:])
    given = dict(zip(params, tree.args))
    for k in tree.keywords:
        if k.arg not in params:
            ctx.bad("C33-text", short, where, f"when {case}: the text {shown(text, names)!r} has an unknown argument {k.arg}")
            return
        given[k.arg] = k.value
    for q in params:
        if q in given:
            e = given[q]
            if not (isinstance(e, ast.Name) and e.id in names):
                raise NotText(f"argument {q}")
            term = names[e.id][0]
            if not about(term, q):
                ctx.bad("C33-text", short, where, f"when {case or 'always'}: the text shows {show(term)} as {q}")
            elif term == ("p", q) and names[e.id][1] == -1 and str(p_type(p, init, q)).strip() == "str":
                ctx.bad("C33-text", short, where, f"the text shows the string {q} without quotes")
            continue
        d = init.defaults.get(q)
        if d is None:
            ctx.bad("C33-text", short, where, f"when {case or 'always'}: the text leaves out {q}, which has no default")
            continue
        if not literal(d):
            raise NotText("default")
        dv = ast.literal_eval(d)
        ok = False
        for c, v in val.items():
            if c == ("p", q) and not v and not dv:
                ok = True
            if c[0] == "cmp" and c[1] in ("==", "is") and c[2] == ("p", q) and c[3][0] == "c" and v and c[3][2] == dv:
                ok = True
        if not ok:
            ctx.bad("C33-text", short, where, f"when {case or 'always'}: the text leaves out {q}, which may differ from its default")


def p_type(p, init, q):
    for a in (*init.node.args.posonlyargs, *init.node.args.args, *init.node.args.kwonlyargs):
        if a.arg == q and a.annotation is not None:
            return ast.unparse(a.annotation)
    return ""


def about(t, q):
    """Does t speak about parameter q and no other?"""
    found = set()

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "p":
                found.add(x[1])
                return
            for y in x:
                walk(y)
    walk(t)
    return found - {"self"} == {q}


def shown(text, names):
    for n, (t, _) in names.items():
        text = text.replace(n + "x", f"{show(t)}.1").replace(n + "y", f"{show(t)}.2").replace(n, show(t))
    return text


def value(e):
    """Normal form {(monomial): coefficient} of an arithmetic expression, powers may be negative."""
    if isinstance(e, ast.Name):
        return {((e.id, 1),): 1}
    if isinstance(e, ast.BinOp):
        a, b = value(e.left), value(e.right)
        if isinstance(e.op, (ast.Add, ast.Sub)):
            r = dict(a)
            for m, c in b.items():
                r[m] = r.get(m, 0) + (c if isinstance(e.op, ast.Add) else -c)
            return {m: c for m, c in r.items() if c}
        if isinstance(e.op, ast.Div):
            if len(b) == 1:
                (m, c), = b.items()
                b = {tuple((x, -k) for x, k in m): 1 / c}
            else:
                b = {((repr(sorted(b.items())), -1),): 1}
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                x = dict(m)
                for y, k in n:
                    x[y] = x.get(y, 0) + k
                key = tuple(sorted((y, k) for y, k in x.items() if k))
                r[key] = r.get(key, 0) + c * d
        return {m: c for m, c in r.items() if c}
    raise NotText("expression")
