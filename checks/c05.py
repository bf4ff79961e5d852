"""C05: graph transformations return a new graph and leave the old one alone."""

from checks import effects_common as ec
from spec.api import CONNECTED, TRANSFORMS

LEVEL = "other"


def check(ctx):
    ctx.rule("self-unchanged", "no store, container mutation or mutating call reaches, over the resolved "
             "call graph, an object that was reachable from the graph at entry", 16)
    ctx.rule("argument-unchanged", "the same for the operations and graphs passed as arguments", 8)
    ctx.rule("result-fresh", "the returned graph reaches no operation, port, signal or container of the "
             "graph it was made from (dictionary keys excepted)", 12)
    ctx.rule("control", "in-place methods are seen to change their object (positive control)", 10)
    ctx.assume("dynamic dispatch is bounded by the classes of b_asic; user subclasses are not analysed")
    ctx.assume("copy(*args, **kwargs) of a component is called without arguments")
    ec.controls(ctx, "control", ec.IN_PLACE)
    for cls, names in TRANSFORMS.items():
        for n in names:
            for f in ec.targets(ctx, cls, n):
                s = ctx.eng.sum[f.qual]
                me = f.params[0]
                conn = CONNECTED.get((cls, n), set())
                ctx.ob("self-unchanged", f.short)
                for q in f.all_params()[1:]:
                    if q not in conn:
                        ctx.ob("argument-unchanged", f"{f.short}({q})")
                for (l, _), ev in s.mutates.items():
                    if ev.memo or l[0] != "P" or l[1] in conn:
                        continue
                    rid = "self-unchanged" if l[1] == me else "argument-unchanged"
                    if ec.relevant(ctx, f, ev):
                        ctx.bad(rid, ec.construct(f, ev), ev.chain[0], ec.describe(ev), ev.chain)
                if n in ("to_ss", "to_tf", "to_zpk"):
                    continue
                ctx.ob("result-fresh", f.short)
                for l, pth in ec.closure(s):
                    if l[0] == "P" and l[1] not in conn and not pth_prim(l):
                        ctx.bad("result-fresh", f"{f.short} returns {l[1]}.{'.'.join(l[2])}",
                                ctx.p.loc(f, f.node),
                                f"the result shares {l[1]}.{'.'.join(l[2]) or 'itself'} "
                                f"(through {'.'.join(pth) or 'the result itself'})")


def pth_prim(l):
    return False
