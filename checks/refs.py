"""Reference comparison driver: functions of the program against spec/ref definitions."""

from __future__ import annotations

import ast
import json
import os

from sa.canon import DIFF, EQ, UNK, Undecided
from sa.core import ROOT
from sa.refcmp import BASE_VOCAB, RefCompare, refs_of
from sa.symval import Blowup

HERE = os.path.join(ROOT, "spec")


def known_names():
    with open(os.path.join(HERE, "known_names.json"), encoding="utf-8") as fh:
        d = json.load(fh)
    return set(d["functions"]), set(d["names"]) | BASE_VOCAB


def want_modules(ctx, names):
    ctx.extra = {f"b_asic.vref_{n}": os.path.join(HERE, "ref", n + ".py") for n in names}


def defines(p, module, name):
    m = p.modules.get(module)
    tree = getattr(m, "tree", m)
    return any(isinstance(t, ast.Name) and t.id == name for s in getattr(tree, "body", [])
               for t in (s.targets if isinstance(s, ast.Assign) else [getattr(s, "target", None)]))


def selfcheck_imports(p, module):
    """A reference may only use names that exist."""
    tree = p.modules[module].tree if hasattr(p.modules[module], "tree") else p.modules[module]
    bad = []
    for s in getattr(tree, "body", []):
        if isinstance(s, ast.ImportFrom) and s.module and s.module.startswith("b_asic"):
            for a in s.names:
                q = f"{s.module}.{a.name}"
                if q not in p.classes and q not in p.funcs and p.canonical(q) == q and not defines(p, s.module, a.name):
                    bad.append(q)
    return bad


def compare_refs(ctx, name, rule_text, only=None, rule=None):
    """Every reference definition in spec/ref/<name>.py; only: predicate on the target."""
    module = f"b_asic.vref_{name}"
    p = ctx.p
    functions, vocab = known_names()
    rid = rule or f"{ctx.prop}-{name}"
    ctx.rule(rid, rule_text, 1)
    decided = 0
    refs = refs_of(p, module)
    for target, f, kw in refs:
        if kw.get("finding"):
            continue
        if only and not only(target):
            continue
        short = target.removeprefix("b_asic.")
        v, text = compare_one(p, target, f, kw, functions, vocab)
        g = find(p, target)
        for target2, f2, kw2 in refs if v != EQ else ():
            # a defect that is on record: exactly this other meaning
            if target2 == target and kw2.get("finding"):
                v, text = compare_one(p, target, f2, kw2, functions, vocab)
                if v == EQ:
                    v = "on record"
                    ctx.bad(rid, f"{short}: {kw2['finding']}", p.loc(g, g.node), kw2["finding"])
        ctx.ob(rid, f"{short}: {v}")
        if v == EQ:
            decided += 1
        elif v == DIFF:
            ctx.bad(rid, short, p.loc(g, g.node), f"differs from its definition: {text}")
        elif v == UNK:
            ctx.assume(f"{short} is not decided: {text}")
    return decided


def find(p, target):
    g = p.funcs.get(target)
    if g is None:
        cls, _, n = target.rpartition(".")
        if cls in p.classes:
            g = p.lookup(cls, n)
    return g


def literal(e):
    return isinstance(e, ast.Constant) or isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant)


def compare_one(p, target, f, kw, functions, vocab, detail=None):
    g = find(p, target)
    if g is None:
        return UNK, "it does not exist"
    cls = kw.get("cls") or (target.rpartition(".")[0] if target.rpartition(".")[0] in p.classes else g.cls)
    rc = RefCompare(p, opaque=kw.get("opaque", ()), expand=kw.get("expand", ()), known=functions)
    rc.ignore = set(kw.get("ignore", ()))
    rc.parts = set(kw.get("parts", ()))
    if list(f.params) != list(g.params)[:len(f.params)]:
        return UNK, "its parameters are others"
    for x, d in f.defaults.items():
        e = g.defaults.get(x)
        if e is not None and all(literal(y) for y in (d, e)) and ast.literal_eval(d) != ast.literal_eval(e):
            return DIFF, f"the default of {x} is {ast.unparse(e)} instead of {ast.unparse(d)}"
    try:
        want = rc.meaning(f, cls)
        got = rc.meaning(g, cls)
        r = rc.compare(got, want, vocab)
    except (Undecided, Blowup, RecursionError, KeyError, AttributeError, IndexError, TypeError, ValueError) as e:
        r = UNK, f"outside the normal forms ({type(e).__name__}: {e})"
        if detail is not None:
            import traceback
            traceback.print_exc()
        return r
    if detail is not None:
        detail += [got, want]
    return r
