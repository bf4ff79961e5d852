"""C04: evaluation with a data type gives every value in that data type."""

import ast

from checks.opsem import OpSem, atomise, untuple
from sa.calls import MISSING, OPEN, bind, callees, calls_in, local_names
from sa.equiv import Compare
from sa.poly import Unknown
from sa.symval import NONE, Blowup, State, const, show
from spec.operations import OPERATIONS, SPECIAL

ROOTCLS = "b_asic.operation.AbstractOperation"
DT = ("p", "dt")
DTC = "b_asic.data_type.DataType"
FXP, FPP = ["value", "int_bits", "frac_bits", "bits", "force_complex"], ["value", "exp_bits", "man_bits", "bias",
                                                                        "force_complex"]


def unwrap(t):
    """(value, cast description) of a term that casts a value."""
    if t[0] == "call" and t[1] in ("apytypes.fx", "apytypes.fp"):
        names = FXP if t[1].endswith("fx") else FPP
        kw = dict(t[3])
        for n, v in zip(names, t[2]):
            kw[n] = v
        v = kw.pop("value", NONE)
        return v, (t[1], tuple(sorted((k, x) for k, x in kw.items() if x not in (NONE,))))
    if t[0] == "mcall" and t[2] == "cast":
        kw = dict(t[4])
        # positional order of APyFixed.cast / APyFloat.cast differ; name them by what they are given
        for i, v in enumerate(t[3]):
            kw[f"#{i}"] = v
        return t[1], ("cast", tuple(sorted((k, x) for k, x in kw.items() if x not in (NONE,))))
    return t, None


def ref_cast(o, heap, core):
    """The term of casting core, with the cast of the operation's class."""
    f = o.p.lookup(o.cls, "_cast_to_data_type")
    sv = mk(o)
    return sv.value(f, {f.params[1]: core, f.params[2]: DT}, heap)


def mk(o, **kw):
    sv = o.sv(**kw)
    sv.cls_of[DT] = DTC
    return sv


def check(ctx):
    p = ctx.p
    ctx.rule("output", "every output of evaluate(…, data_type) is the cast of the output of evaluate(…) to that "
             "data type", 60)
    ctx.rule("cast", "casting uses the word lengths, complexness, quantization and overflow modes of the data type", 4)
    ctx.rule("forward", "a call with a data_type parameter, made where a data type is known, passes the data type on", 8)
    ctx.rule("origin", "a stored value (delay, initial value) taken while evaluating a graph is cast before it is used", 1)
    ctx.rule("type", "DataType: the number of integer/fraction/exponent/mantissa bits and totals follow from the "
             "word lengths given", 12)
    for cls in p.subclasses(ROOTCLS):
        short = cls.removeprefix("b_asic.")
        f = p.lookup(cls, "evaluate")
        if cls == ROOTCLS or f is None or f.abstract or short.endswith("SFG"):
            continue
        if short not in OPERATIONS and short not in SPECIAL:
            ctx.assume(f"{short} is not in the specification table")
        if short.endswith((".Output", ".Sink")):
            continue
        o = OpSem(p, cls)
        name = short.rpartition(".")[2]
        heap, _ = o.merged_init()
        f = p.lookup(cls, "evaluate")
        args, n = o.eval_args(f, NONE)
        if "delays" in f.params:
            args["delays"] = ("p", "delays")
        plain = o.sv().value(f, args, heap)
        typed = mk(o).value(f, {**args, "data_type": DT}, heap)
        nout = len(heap[("attr", ("p", "self"), "_output_ports")][1]) if (
            "attr", ("p", "self"), "_output_ports") in heap else 1
        a, b = untuple(plain, nout), untuple(typed, nout)
        if a is None or b is None or len(a) != len(b):
            ctx.bad("output", f"{name} outputs", p.loc(f, f.node), "gives another number of outputs with a data type")
            continue
        for i, (x, y) in enumerate(zip(a, b)):
            for kind in ("num", "cnum", "fx", "cfx", "fp", "cfp"):
                ctx.ob("output", f"{name} y{i} for {kind}")
                want = ref_cast(o, heap, x)
                ks = {f"x{k}": kind for k in range(n)}
                try:
                    c = Compare(ks, atomise_dt, decide_dt, unwrap)
                    r = c.run(y, want)
                except (Unknown, Blowup) as e:
                    ctx.assume(f"{name} y{i} for {kind}: not decided ({e})")
                    continue
                if r is not None:
                    ctx.bad("output", f"{name} y{i}", p.loc(f, f.node),
                            f"with a data type the output is {txt(r[1])}, the cast value is {txt(r[2])} (for {kind})")
                    break
    casts(ctx)
    forward(ctx)
    origin(ctx)
    dtype(ctx)


def txt(x):
    if isinstance(x, str):
        return x
    v, tag = unwrap(x)
    return show(x)[:200] if tag else "not cast: " + show(x)[:160]


def atomise_dt(t):
    x = t
    while x[0] in ("idx", "attr") and x[2] not in ("real", "imag"):
        x = x[1]
    if x == ("p", "delays"):
        return t
    if t[0] == "mcall" and t[1] == ("p", "delays"):
        return ("par", "delays." + t[2])
    return t if x[0] == "p" else None


def decide_dt(c):
    if c[0] == "cmp" and c[1] == "is" and c[2] in (DT, ("p", "delays")) and c[3] == NONE:
        return False
    if c in (DT, ("p", "delays")):
        return True
    return None


SPEC = {   # representation -> kind -> (what is called, {argument: property})
    "FIXED_POINT": {
        "num": ("apytypes.fx", {"int_bits": "int_bits", "frac_bits": "frac_bits", "force_complex": "is_complex"}),
        "cnum": ("apytypes.fx", {"int_bits": "int_bits", "frac_bits": "frac_bits", "force_complex": "is_complex"}),
        "fx": ("cast", {"int_bits": "int_bits", "frac_bits": "frac_bits", "quantization": "quantization_mode",
                        "overflow": "overflow_mode"}),
        "cfx": ("cast", {"int_bits": "int_bits", "frac_bits": "frac_bits", "quantization": "quantization_mode",
                         "overflow": "overflow_mode"}),
    },
    "FLOATING_POINT": {
        "num": ("apytypes.fp", {"exp_bits": "exp_bits", "man_bits": "man_bits", "force_complex": "is_complex"}),
        "cnum": ("apytypes.fp", {"exp_bits": "exp_bits", "man_bits": "man_bits", "force_complex": "is_complex"}),
        "fp": ("cast", {"exp_bits": "exp_bits", "man_bits": "man_bits"}),
        "cfp": ("cast", {"exp_bits": "exp_bits", "man_bits": "man_bits"}),
    },
}
POS = {"apytypes.fx": FXP, "apytypes.fp": FPP}


def prop_term(ctx, name, heap=None):
    """Term(s) an attribute of the data type may be written as."""
    from sa.symval import SV
    sv = SV(ctx.p, None)
    sv.cls_of[DT] = DTC
    sv.fstack = [ctx.p.lookup(DTC, "__init__")]
    return sv.attr(DT, name, State({}, dict(heap or {}), {}))


def casts(ctx):
    """Every choice of representation, complexness, quantization and overflow mode is taken in turn
    (a finite case split), and the one call that is left is compared with the data type."""
    from sa.poly import first_cond, simplify
    from sa.symval import SV
    p = ctx.p
    f = p.lookup(ROOTCLS, "_cast_to_data_type")
    ctx.require(f is not None, "AbstractOperation._cast_to_data_type is gone")
    o = OpSem(p, ROOTCLS)
    modes = {}
    for fld, cls in (("quantization_mode", "b_asic.quantization.QuantizationMode"),
                     ("overflow_mode", "b_asic.quantization.OverflowMode")):
        g = p.lookup(cls, "to_apytypes")
        ctx.require(g is not None, f"{cls}.to_apytypes is gone")
        modes[fld] = []
        for m in enum_members(p, cls):
            ref = ("ref", f"{cls}.{m}")
            sv = SV(p, None)
            v = sv.value(g, {g.params[0]: ref})
            if v != ("opq", "never returns"):
                modes[fld].append((ref, v))
        ctx.require(modes[fld], f"{cls} has no modes")
    cases = [(q, v, x) for q in modes["quantization_mode"] for v in modes["overflow_mode"] for x in (True, False)]
    for rep, kinds in SPEC.items():
        for q, ov, cplx in cases:
            heap = {("attr", DT, "num_repr"): ("ref", "b_asic.data_type.NumRepresentation." + rep),
                    ("attr", DT, "is_complex"): const(cplx),
                    ("attr", DT, "quantization_mode"): q[0], ("attr", DT, "overflow_mode"): ov[0]}
            sv = mk(o)
            term = sv.value(f, {f.params[1]: ("p", "x0"), f.params[2]: DT}, heap)
            case = f"{rep}, {q[0][1].rsplit('.')[-1]}, {ov[0][1].rsplit('.')[-1]}, {'complex' if cplx else 'real'}"
            for kind, (what, want) in kinds.items():
                ctx.ob("cast", f"{kind} to {case}")
                c = Compare({"x0": kind}, atomise_dt, decide_dt, unwrap)
                try:
                    t = simplify(term, {}, c.decide({}))
                    if first_cond(t) is not None:
                        raise Unknown("condition on " + show(first_cond(t))[:80])
                except Unknown as e:
                    ctx.assume(f"casting {kind} to {case}: not decided ({e})")
                    continue
                v, tag = unwrap(t)
                if tag is None or tag[0] != what:
                    ctx.bad("cast", f"{kind} to {rep}", p.loc(f, f.node), f"gives {show(t)[:120]}, not {what} ({case})")
                    continue
                if v != ("p", "x0"):
                    ctx.bad("cast", f"{kind} to {rep}", p.loc(f, f.node),
                            f"casts {show(v)[:120]}, not the value ({case})")
                got = dict(tag[1])
                if any(k.startswith("#") for k in got):
                    ctx.assume(f"casting {kind} to {rep}: positional cast arguments not decided")
                    continue
                for arg, prop in want.items():
                    e = {"quantization_mode": {q[1]}, "overflow_mode": {ov[1]}, "is_complex": {const(cplx)}}.get(
                        prop) or expected(ctx, prop, heap)
                    g = got.get(arg)
                    g = simplify(g, {}, c.decide({})) if g is not None else None
                    if g is None and prop == "is_complex" and not cplx:
                        continue
                    if g is None or g not in e:
                        ctx.bad("cast", f"{kind} to {rep} {arg}", p.loc(f, f.node),
                                f"{arg} is {show(g)[:80] if g else 'not given'}, not the {prop} of the data type ({case})")
                for arg in got:
                    if arg not in want:
                        ctx.bad("cast", f"{kind} to {rep} {arg}", p.loc(f, f.node), f"unexpected argument {arg}")


def enum_members(p, cls):
    return [t.id for st in p.classes[cls].node.body if isinstance(st, ast.Assign) for t in st.targets
            if isinstance(t, ast.Name)]


def expected(ctx, prop, heap):
    i = {"int_bits": 0, "exp_bits": 0, "frac_bits": 1, "man_bits": 1}.get(prop)
    return {("idx", ("attr", DT, "wl"), const(i)), prop_term(ctx, prop, heap), ("attr", DT, prop)}


def forward(ctx):
    p = ctx.p
    for f in p.funcs.values():
        if not f.module.startswith("b_asic") or f.module.startswith(("b_asic.GUI", "b_asic.gui_utils",
                                                                     "b_asic.scheduler_gui", "b_asic.code_printer")):
            continue
        known = None
        if "data_type" in f.all_params():
            known = "data_type"
        elif f.cls and any(isinstance(n, ast.Attribute) and n.attr == "_data_type" and isinstance(n.value, ast.Name)
                           and n.value.id == "self" for n in ast.walk(p.classes[f.cls].node)):
            known = "self._data_type"
        if known is None:
            continue
        loc = local_names(f)
        for c in calls_in(f):
            for g, bound, cls in callees(p, f, c, loc):
                if "data_type" not in [*g.params, *g.kwonly] or g.name == "__init__":
                    continue
                b = bind(g, bound, c).get("data_type", MISSING)
                who = f"{f.short} -> {g.short}"
                ctx.ob("forward", who)
                if b is MISSING or (b is not OPEN and isinstance(b, ast.Constant) and b.value is None):
                    ctx.bad("forward", who, p.loc(f, c), f"the call does not pass {known} on")
                break


def origin(ctx):
    """SFG._evaluate_source: no uncast current_output reaches a result or the return value."""
    p = ctx.p
    q = "b_asic.sfg.SFG._evaluate_source"
    f = p.funcs.get(q)
    if f is None:
        ctx.assume("SFG._evaluate_source is gone; origin rule not decided")
        ctx.rules["origin"]["minimum"] = 0
        return
    o = OpSem(p, "b_asic.sfg.SFG")
    from sa.symval import SV
    sv = SV(p, "b_asic.sfg.SFG", inline=lambda g: g.name not in ("_cast_to_data_type", "_do_evaluate_source", "key"))
    outs = sv.run(f)
    seen = False

    def uncast(t, none=()):
        """Can the value be a stored value that was not cast (and is not None)?"""
        if not isinstance(t, tuple) or not t or t in none:
            return False
        if t[0] in ("call", "mcall"):
            return t[2] == "current_output" or t[0] == "call" and str(t[1]).endswith(".current_output")
        if t[0] == "ite":
            c = t[1]
            n = (*none, c[2]) if c[0] == "cmp" and c[1] == "is" and c[3] == NONE else none
            return uncast(t[2], n) or uncast(t[3], none)
        return t[0] in ("tuple", "list", "op") and any(uncast(x, none) for x in t[1:])
    for conds, kind, v, st in outs:
        if kind == "raise":
            continue
        seen = True
        ctx.ob("origin", "SFG._evaluate_source return value")
        none = tuple(c[2] for c, b in conds if b and c[0] == "cmp" and c[1] == "is" and c[3] == NONE)
        if uncast(v, none):
            ctx.bad("origin", "SFG._evaluate_source", p.loc(f, f.node), "a stored value is returned without casting it")
    ctx.require(seen, "SFG._evaluate_source never returns")


def dtype(ctx):
    p = ctx.p
    cls = p.cls(DTC)
    init = p.lookup(DTC, "__init__")
    from sa.symval import SV
    shapes = {"int": None, "tuple": None}
    for shape_ in ("int", "tuple", "float"):
        rep = ("ref", "b_asic.data_type.NumRepresentation." + ("FLOATING_POINT" if shape_ == "float" else "FIXED_POINT"))

        def assume(c, shape_=shape_, rep=rep):
            if c[0] == "call" and c[1] == "isinstance" and c[2][0][0] == "p":
                return ("int" in str(c[2][1])) == (shape_ == "int")
            if c[0] == "cmp" and c[1] in ("==", "is"):
                refs = [x for x in c[2:] if x[0] == "ref" and ".NumRepresentation." in x[1]]
                if len(refs) == 2:
                    return refs[0] == refs[1]
                if NONE in c[2:]:
                    return False
            return None
        for given in ("wl+in+out", "wl+in", "wl+out", "wl"):
            sv = SV(p, DTC, assume=assume)
            args = {"num_repr": rep}
            for a in ("input_wl", "output_wl"):
                args[a] = ("p", a) if a.removesuffix("put_wl") in given.split("+") else NONE
            outs = [x for x in sv.run(init, args) if x[1] != "raise"]
            ctx.require(outs, "DataType.__init__ never returns")
            for x in outs:
                heap = x[3].heap

                def w(name):
                    return [("c", "int", 1), ("op", "-", ("p", name), ("c", "int", 1))] if shape_ == "int" else [
                        ("idx", ("p", name), const(0)), ("idx", ("p", name), const(1))]
                props = {"bits": ("sum", "wl"), "high": ("high", "wl"), "low": ("low", "wl"),
                         "input_bits": ("sum", "input_wl"), "input_high": ("high", "input_wl"),
                         "output_bits": ("sum", "output_wl"), "output_high": ("high", "output_wl")}
                if shape_ == "float":
                    props |= {"exp_bits": (0, "wl"), "man_bits": (1, "wl")}
                else:
                    props |= {"int_bits": (0, "wl"), "frac_bits": (1, "wl")}
                for fld in ("num_repr", "is_signed", "is_complex", "quantization_mode", "overflow_mode"):
                    ctx.ob("type", f"{fld} ({shape_}, {given})")
                    got = heap.get(("attr", ("p", "self"), fld), None)
                    if got is None:
                        sv2 = SV(p, DTC, assume=assume)
                        sv2.fstack = [init]
                        got = sv2.attr(("p", "self"), fld, State({}, dict(heap), {}))
                    if got != (rep if fld == "num_repr" else ("p", fld)):
                        ctx.bad("type", f"DataType.{fld}", p.loc(init, init.node), f"is {txt2(got)}, not the value given")
                for pr, (k, src) in props.items():
                    g = p.lookup(DTC, pr)
                    if g is None:
                        continue
                    src = "wl" if src != "wl" and args[src] == NONE else src
                    a, b = w(src)
                    want = {0: a, 1: b, "low": const(0)}.get(k)
                    if want is None:
                        want = ("op", "+", a, b)
                        if shape_ == "float":
                            want = ("op", "+", want, const(1))
                        if k == "high":
                            want = ("op", "-", want, const(1))
                    ctx.ob("type", f"{pr} ({shape_}, {given})")
                    sv2 = SV(p, DTC, assume=assume)
                    got = sv2.value(g, {}, heap)
                    try:
                        r = Compare({}, atomise_dt, None, None).run(summed(got), want)
                    except Unknown as e:
                        ctx.assume(f"DataType.{pr}: not decided ({e})")
                        continue
                    if r is not None:
                        ctx.bad("type", f"DataType.{pr} ({shape_}, {given})", p.loc(g, g.node),
                                f"is {txt2(r[1])}, should be {txt2(r[2])}")


def txt2(x):
    return x if isinstance(x, str) else show(x)


def summed(t):
    """sum(pair) of a two-element word length."""
    if not isinstance(t, tuple):
        return t
    if t[:2] == ("call", "sum") and len(t[2]) == 1 and t[2][0][0] not in ("tuple", "list"):
        x = t[2][0]
        return ("op", "+", ("idx", x, const(0)), ("idx", x, const(1)))
    return tuple(summed(x) for x in t)
