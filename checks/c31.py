"""C31: every operation computes its documented function of its inputs and parameters."""

from checks.opsem import OpSem, normal_text, shape, spec_outputs, untuple
from sa.poly import Unknown
from sa.symval import NONE, const
from spec.operations import OPERATIONS, SPECIAL

ROOTCLS = "b_asic.operation.AbstractOperation"


def ks(kind, n=8):
    return {f"x{i}": kind for i in range(n)}


def show_facts(facts):
    out = []
    for k, v in facts.items():
        out.append(f"{k[0]} {k[1][1] if isinstance(k[1], tuple) and k[1][:1] == ('p',) else '…'} = {v}")
    return " and ".join(out)


def compare(ctx, rid, who, where, got, want, kinds, note="", doc="documented value is"):
    """Each output of got against the specification, for every number kind."""
    outs = untuple(got, len(want))
    if outs is None or len(outs) != len(want):
        ctx.bad(rid, f"{who} outputs", where, f"evaluates to {len(outs) if outs else 'an unknown number of'} "
                f"values, {len(want)} outputs are documented{note}")
        return
    for i, (g, w) in enumerate(zip(outs, want)):
        for kind in kinds:
            ctx.ob(rid, f"{who} y{i} for {kind}{note}")
            try:
                r = shape(g, w, ks(kind))
            except Unknown as e:
                ctx.assume(f"{who} y{i}{note} for {kind} is not decided: outside the arithmetic domain ({e})")
                break
            if r is not None:
                facts, a, b = r
                ctx.bad(rid, f"{who} y{i}{note} = {a if isinstance(a, str) else normal_text(a, ks(kind))}", where,
                        f"{doc} {b if isinstance(b, str) else normal_text(b, ks(kind))}"
                        + (f" (for {kind}" + (f", {show_facts(facts)}" if facts else "") + ")"))
                break


def check(ctx):
    p = ctx.p
    ctx.rule("formula", "the value an operation evaluates to, as a term over its inputs and the arguments of "
             "its constructor, has the normal form of its documented function", 60)
    ctx.rule("setter", "after the setter of a parameter ran, the getter returns the new value and the operation "
             "evaluates to the same function of the new value as before of the old", 15)
    ctx.rule("output", "evaluate_output(i, inputs) is the i-th value of evaluate(*inputs)", 30)
    ctx.rule("special", "Input gives its value, Delay its stored or initial value, Constant is covered by the formula", 4)
    ctx.rule("covered", "every concrete operation class has a specification", 30)
    for cls in p.subclasses(ROOTCLS):
        short = cls.removeprefix("b_asic.")
        if cls == ROOTCLS:
            continue
        f = p.lookup(cls, "evaluate")
        if f is None or f.abstract:
            continue
        if short in SPECIAL:
            continue
        ctx.ob("covered", short)
        if short not in OPERATIONS:
            ctx.assume(f"{short} is not in the specification table and is not decided")
            continue
        kinds, spec, params = OPERATIONS[short]
        want = spec_outputs(spec)
        o = OpSem(p, cls)
        name = short.rpartition(".")[2]
        heap, init = o.merged_init()
        for q in params:
            ctx.require(q in init.all_params(), f"{short} has no constructor parameter {q}")
        got, n = o.evaluate(heap)
        compare(ctx, "formula", name, p.loc(f, f.node), got, want, kinds)
        # setters
        for q in params:
            st = p.classes[cls].setters.get(q) if hasattr(p.classes[cls], "setters") else None
            if st is None:
                st = find_setter(p, cls, q)
            if st is None:
                continue
            sv = o.sv()
            outs = [x for x in sv.run(st, {st.params[0]: ("p", "self"), st.params[1]: ("p", "new_" + q)}, heap)
                    if x[1] != "raise"]
            g = p.lookup(cls, q)
            for x in outs:
                got2, _ = o.evaluate(x[3].heap)
                ref = untuple(got, len(want))
                if ref is not None:
                    compare(ctx, "setter", name, p.loc(st, st.node), got2,
                            [sub(w, ("p", q), ("p", "new_" + q)) for w in ref], kinds[:1],
                            f" after {q} = new_{q}", "with the new value it should be")
                gv = o.sv().value(g, {}, x[3].heap)
                if gv != ("p", "new_" + q):
                    ctx.bad("setter", f"{name}.{q}", p.loc(g, g.node),
                            f"the getter does not return the value the setter was given but {normal_text(gv, {})}")
        # evaluate_output
        eo = p.lookup(cls, "evaluate_output")
        for i in range(len(want)):
            ctx.ob("output", f"{name}.evaluate_output({i})")
            args = {"index": const(i), "input_values": ("list", tuple(("p", f"x{k}") for k in range(n))),
                    "results": NONE, "delays": NONE, "prefix": const(""), "data_type": NONE}
            v = o.sv(assume=assume_seq).value(eo, args, heap)
            a = untuple(got, len(want))
            if a is not None and len(a) == len(want) and v != a[i]:
                try:
                    same = all(shape(v, a[i], ks(k)) is None for k in kinds)
                except Unknown:
                    same = False
                if not same:
                    ctx.bad("output", f"{name}.evaluate_output({i})", p.loc(eo, eo.node),
                            f"gives {normal_text(v, ks(kinds[0]))}")
    special(ctx)


def assume_seq(c):
    if c[0] == "call" and c[1] == "isinstance" and len(c[2]) == 2:
        names = str(c[2][1])
        if "Sequence" in names:
            return c[2][0][0] in ("tuple", "list")
        if "Number" in names:
            return c[2][0][0] not in ("tuple", "list")
    return None


def find_setter(p, cls, q):
    for k in p.classes[cls].mro:
        kc = p.classes.get(k)
        if kc is None:
            continue
        for f in p.funcs.values():
            if f.cls == k and f.kind == "setter" and f.name == q:
                return f
    return None


def sub(t, a, b):
    if t == a:
        return b
    return tuple(sub(x, a, b) for x in t) if isinstance(t, tuple) else t


def special(ctx):
    p = ctx.p
    inp = "b_asic.special_operations.Input"
    o = OpSem(p, inp)
    heap, _ = o.merged_init()
    st = find_setter(p, inp, "value")
    ctx.require(st is not None, "Input.value has no setter")
    outs = [x for x in o.sv().run(st, {st.params[1]: ("p", "v")}, heap) if x[1] != "raise"]
    for x in outs:
        v, _ = o.evaluate(x[3].heap)
        ctx.ob("special", "Input evaluates to the value it was given")
        if v != ("p", "v"):
            ctx.bad("special", "Input.evaluate", p.loc(st, st.node), f"evaluates to {normal_text(v, {})}")
        g = p.lookup(inp, "value")
        ctx.ob("special", "Input.value returns the value it was given")
        if o.sv().value(g, {}, x[3].heap) != ("p", "v"):
            ctx.bad("special", "Input.value", p.loc(g, g.node), "the getter does not return the value set")
    d = "b_asic.special_operations.Delay"
    o = OpSem(p, d)
    heap, _ = o.merged_init()
    f = p.lookup(d, "evaluate")
    ctx.ob("special", "Delay evaluates to its initial value")
    v = o.sv().value(f, {"data_type": NONE, "delays": NONE}, heap)
    if v != ("p", "initial_value"):
        ctx.bad("special", "Delay.evaluate", p.loc(f, f.node), f"without stored values evaluates to {normal_text(v, {})}")
    c = p.lookup(d, "current_output")
    for dl, want, txt in ((NONE, ("p", "initial_value"), "initial value"),
                          (("p", "delays"), None, "stored value or initial value")):
        ctx.ob("special", f"Delay.current_output gives its {txt}")
        v = o.sv(assume=lambda c: (c == ("cmp", "is", ("p", "delays"), NONE)) and False or None).value(
            c, {"index": const(0), "delays": dl, "prefix": ("p", "prefix")}, heap)
        if want is not None and v != want:
            ctx.bad("special", "Delay.current_output", p.loc(c, c.node), f"without stored values gives {normal_text(v, {})}")
        if want is None:
            t = v
            while t[0] == "ite":
                t = t[2] if t[1][0] != "cmp" or t[1][1] != "is" else t[3]
            ok = t[0] == "mcall" and t[2] == "get" and t[1] == ("p", "delays") and t[3][1:] == (("p", "initial_value"),)
            ok = ok or ("initial_value" in str(v) and "delays" in str(v))
            if not ok:
                ctx.bad("special", "Delay.current_output stored", p.loc(c, c.node), f"gives {normal_text(v, {})}")
