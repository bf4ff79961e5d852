"""C06: queries, plots, exports and simulation setup change nothing."""

from checks import effects_common as ec
from checks.c09 import RUNNING_NUMBERS
from spec.api import QUERIES, READERS

LEVEL = "other"


def check(ctx):
    ctx.rule("query-pure", "no store, container mutation or mutating call reaches, over the resolved call "
             "graph, an object that existed at entry (values filled in once on first use excepted)", 150)
    ctx.rule("reader-pure", "functions that export, simulate or map a design leave the design they are "
             "given unchanged and do not hand it to an object that changes it", 6)
    ctx.rule("control", "in-place methods are seen to change their object (positive control)", 10)
    ctx.assume("matplotlib, graphviz, Qt and solver objects passed in are not part of the design")
    ctx.assume("reading a missing key of a defaultdict is not a change")
    ec.controls(ctx, "control", ec.IN_PLACE)
    for cls, names in QUERIES.items():
        for n in names:
            for f in ec.targets(ctx, cls, n):
                ctx.ob("query-pure", f.short)
                pt = ctx.p.param_types(f)
                for (l, _), ev in ctx.eng.sum[f.qual].mutates.items():
                    if (l[0] == "G" and (l[1], l[2]) in RUNNING_NUMBERS) or ev.memo or l[0] == "P" and foreign(ctx, f, pt, l[1]):
                        continue
                    if ec.relevant(ctx, f, ev):
                        ctx.bad("query-pure", ec.construct(f, ev), ev.chain[0], ec.describe(ev), ev.chain)
    for q, params in READERS.items():
        f = ctx.p.func(q)
        s = ctx.eng.sum.get(q)
        ctx.require(s is not None, f"{q} was not analysed")
        for a in params:
            ctx.require(a in f.all_params(), f"{q} has no parameter {a}")
            ctx.ob("reader-pure", f"{f.short}({a})")
            for (l, _), ev in s.mutates.items():
                if l[0] == "P" and l[1] == a and not ev.memo:
                    ctx.bad("reader-pure", ec.construct(f, ev), ev.chain[0], ec.describe(ev), ev.chain)
            if f.name == "__init__":
                retained(ctx, f, s, a)


def retained(ctx, f, s, a):
    """A constructor that keeps the object must not belong to a class that changes it."""
    for (l, fld), v in s.stores.items():
        if l[0] == "P" and l[1] == f.params[0]:
            for x in v:
                if x[0] == "P" and x[1] == a:
                    pth = (*l[2], fld)
                    for c in ctx.p.subclasses(f.cls):
                        for m in ctx.p.classes[c].methods.values():
                            sm = ctx.eng.sum.get(m.qual)
                            if sm is None or not m.params or m.name == "__init__":
                                continue
                            for (k, _), ev in sm.mutates.items():
                                if k[0] == "P" and k[1] == m.params[0] and k[2][:len(pth)] == pth \
                                        and not ev.memo:
                                    ctx.bad("reader-pure", f"{f.short} keeps {a}; {ec.construct(m, ev)}",
                                            ev.chain[0], f"the {a} given to the constructor is kept and "
                                            f"then changed: {ec.describe(ev)}", ev.chain)


FOREIGN = {"ax", "fig", "solver", "sim", "file", "f", "filename", "path"}


def foreign(ctx, f, pt, name):
    if name in FOREIGN and name != f.params[:1]:
        return True
    t = pt.get(name)
    return bool(t) and t[0] == "inst" and not t[1].startswith(("b_asic.", "builtins.", "typing.", "collections"))
