"""Shared by the checks that read the mutation summaries."""

from __future__ import annotations

from sa.model import AnalysisBroken


def targets(ctx, cls, name):
    """Every implementation a call obj.name() on a public object of class cls may reach."""
    ctx.p.cls(cls)
    fs = [f for f in ctx.p.dispatch(cls, name) if f.qual in ctx.eng.sum]
    if not fs:
        raise AnalysisBroken(f"{cls}.{name} is not in the program any more")
    return fs


def fields_of(prog, cls):
    out = set()
    for c in prog.classes[cls].mro:
        if c in prog.classes:
            out |= set(prog.facts.class_attrs.get(c, {})) | set(prog.classes[c].ann)
    return out


def relevant(ctx, f, ev):
    """Does the event concern an object this implementation is really called on?

    An implementation of a base class is not reached for subclasses that override it,
    so fields only those subclasses have are not its concern.
    """
    l = ev.loc
    if l[0] != "P" or not f.params or l[1] != f.params[0] or f.cls is None or not l[2]:
        return True
    fld = l[2][0]
    p = ctx.p
    for c in p.subclasses(f.cls):
        if p.lookup(c, f.name) is f and fld in fields_of(p, c):
            return True
    return fld in ("*", "?")


def describe(ev):
    path = ".".join(ev.loc[2]) or "itself"
    return f"{ev.loc[1]}: {path} is changed by `{ev.text}`"


def construct(f, ev):
    last = ev.chain[-1].rpartition(" in ")[2] if ev.chain else f.short
    return f"{f.short} -> {last}: {ev.loc[1]}.{ev.label}"


def closure(s):
    """Pre-existing locations reachable from the result of a function."""
    seen, out, todo = set(), [], [(x, ()) for x in s.ret]
    while todo:
        l, pth = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        if l[0] in "PG":
            out.append((l, pth))
        for (o, f), v in s.nheap.items():
            if o == l and f != "[k]":
                todo += [(x, (*pth, f)) for x in v]
        for x in s.shadow.get(l, ()):
            todo.append((x, (*pth, "~")))
    return out


def controls(ctx, rid, table):
    """Positive controls: known in-place methods must be seen to change their object."""
    for cls, names in table.items():
        for n in names:
            for f in targets(ctx, cls, n):
                s = ctx.eng.sum[f.qual]
                if any(l[0] == "P" and l[1] == f.params[0] and not ev.memo
                       for (l, _), ev in s.mutates.items()):
                    break
            else:
                raise AnalysisBroken(
                    f"positive control: {cls}.{n} is an in-place method but the analysis "
                    "sees no change of its object")
            ctx.ob(rid, f"control {cls}.{n}")


IN_PLACE = {
    "b_asic.sfg.SFG": ["swap_io_of_operation", "set_latency_of_type", "set_execution_time_of_type",
                       "connect_external_signals_to_components"],
    "b_asic.schedule.Schedule": ["move_operation", "set_schedule_time", "rotate_forward"],
    "b_asic.resources.ProcessCollection": ["add_process", "remove_process"],
    "b_asic.architecture.Architecture": ["add_resource", "remove_resource", "move_process"],
}
