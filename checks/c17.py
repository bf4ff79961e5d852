"""C17: quantization and overflow modes mean what their documentation says, everywhere."""

from checks.opsem import BIN, spec_term
from sa.equiv import Compare
from sa.poly import Arith, Unknown
from sa.symval import NONE, SV, Blowup, const, show

Q = "b_asic.quantization."
APY = {
    "QuantizationMode": {
        "ROUNDING": "RND", "TRUNCATION": "TRN", "MAGNITUDE_TRUNCATION": "TRN_MAG", "JAMMING": "JAM",
        "UNBIASED_ROUNDING": "RND_CONV", "UNBIASED_JAMMING": "JAM_UNBIASED",
        "UNBIASED_MAGNITUDE_TRUNCATION": "TRN_ZERO"},
    "OverflowMode": {"WRAPPING": "WRAP", "SATURATION": "SAT"},
}
ALIAS = {"WRAP": {"WRAP", "TWOS_OVERFLOW"}}
# documented effect on the value scaled by 2**fractional_bits
QUANT = {
    "ROUNDING": "floor(v + 0.5)",
    "TRUNCATION": "floor(v)",
    "MAGNITUDE_TRUNCATION": "trunc(v)",
    "JAMMING": "floor(v) | 1",
    "UNBIASED_ROUNDING": "round(v)",
    "UNBIASED_JAMMING": "floor(v) if v - floor(v) == 0 else floor(v) | 1",
    "UNBIASED_MAGNITUDE_TRUNCATION": "trunc(v)",
}


def rewrite(t):
    """Truncation, minimum and maximum as choices."""
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(rewrite(x) for x in t)
    if t[0] == "call" and len(t) == 4 and t[1] in ("math.trunc", "int", "numpy.trunc", "numpy.fix") and len(t[2]) == 1:
        x = t[2][0]
        return ("ite", ("cmp", "<", x, const(0)), ("call", "math.ceil", (x,), ()), ("call", "math.floor", (x,), ()))
    if t[0] == "call" and len(t) == 4 and t[1] in ("numpy.floor", "numpy.ceil", "numpy.round", "numpy.rint"):
        n = {"floor": "math.floor", "ceil": "math.ceil"}.get(t[1][6:], "round")
        return ("call", n, t[2], t[3])
    if t[0] == "call" and len(t) == 4 and t[1] in ("min", "max") and len(t[2]) == 2:
        a, b = t[2]
        return ("ite", ("cmp", "<", a, b), *((a, b) if t[1] == "min" else (b, a)))
    return t


def spec(mode, over, x):
    v = f"({x} * 2 ** fractional_bits)"
    import ast
    q = term(QUANT[mode].replace("v", "VV"), {"VV": term(v)})
    y = ("op", "/", q, term("2 ** fractional_bits"))
    i = term("2 ** (integer_bits - 1)")
    if over == "SATURATION":
        hi, lo = ("op", "-", i, ("op", "/", const(1), term("2 ** fractional_bits"))), ("un", "-", i)
        return ("call", "max", (lo, ("call", "min", (y, hi), ())), ())
    two = ("op", "*", const(2), i)
    return ("op", "-", ("op", "%", ("op", "+", y, i), two), i)


def term(text, names=None):
    import ast
    names = names or {}

    def t(e):
        if isinstance(e, ast.Constant):
            return const(e.value)
        if isinstance(e, ast.Name):
            return names.get(e.id, ("p", e.id))
        if isinstance(e, ast.Attribute):
            return ("attr", t(e.value), e.attr)
        if isinstance(e, ast.BinOp):
            return ("op", {**BIN, ast.BitOr: "|"}[type(e.op)], t(e.left), t(e.right))
        if isinstance(e, ast.IfExp):
            return ("ite", t(e.test), t(e.body), t(e.orelse))
        if isinstance(e, ast.Compare):
            return ("cmp", "==", t(e.left), t(e.comparators[0]))
        if isinstance(e, ast.Call):
            n = {"floor": "math.floor", "ceil": "math.ceil", "trunc": "math.trunc"}.get(e.func.id, e.func.id)
            return ("call", n, tuple(t(a) for a in e.args), ())
        raise AssertionError(ast.dump(e))
    return t(ast.parse(text, mode="eval").body)


def atomise(t):
    x = t
    while x[0] in ("idx",):
        x = x[1]
    return t if x[0] == "p" or x[0] == "attr" and x[1][0] == "p" and x[2] in ("real", "imag") else None


def check(ctx):
    p = ctx.p
    ctx.rule("mapping", "every quantization and overflow mode converts to the APyTypes mode of the same meaning", 9)
    ctx.rule("members", "every mode that exists is documented in the tables of this check", 9)
    ctx.rule("value", "quantize computes the documented rounding of the scaled value followed by the documented "
             "overflow, for every pair of modes", 14)
    ctx.rule("complex", "real and imaginary part of a complex value are quantized separately in the same way", 14)
    ctx.rule("width", "the result has exactly the requested integer and fractional bits", 14)
    for cn, table in APY.items():
        cls = p.cls(Q + cn)
        f = p.lookup(Q + cn, "to_apytypes")
        ctx.require(f is not None, f"{cn}.to_apytypes is gone")
        mem = [m for m, v in cls.attrs.items() if v is not None and not m.startswith("_")]
        for m in mem:
            ctx.ob("members", f"{cn}.{m}")
            if m not in table:
                ctx.assume(f"{cn}.{m} is not documented in the tables and not decided")
                continue
            ctx.ob("mapping", f"{cn}.{m}")
            sv = SV(p, None)
            outs = sv.run(f, {f.params[0]: ("ref", f"{Q}{cn}.{m}")})
            vals = [sv.outval(x) for x in outs if x[1] != "raise"]
            if not vals:
                ctx.bad("mapping", f"{cn}.{m}", p.loc(f, f.node), "cannot be converted")
                continue
            v = sv.tree([(x[0], sv.outval(x)) for x in outs if x[1] != "raise"])
            ok = ALIAS.get(table[m], {table[m]})
            if v[0] != "ref":
                ctx.assume(f"{cn}.{m}: conversion not decided: {show(v)[:80]}")
            elif v[1].rpartition(".")[2] not in ok or cn not in v[1]:
                ctx.bad("mapping", f"{cn}.{m}", p.loc(f, f.node), f"converts to {v[1]}, not {table[m]}")
        for m in table:
            if m not in mem:
                ctx.bad("members", f"{cn}.{m}", f"{cls.path}:{cls.node.lineno}", "the mode is gone")
    f = p.func(Q + "quantize")
    fb, ib = ("p", "fractional_bits"), ("p", "integer_bits")
    two_i = Arith({}).poly(("op", "-", term("2 * 2 ** (integer_bits - 1)"), term("1 / 2 ** fractional_bits")))
    for m in APY["QuantizationMode"]:
        for ov in APY["OverflowMode"]:
            for cpx in (False, True):
                def assume(c, cpx=cpx):
                    if c[0] == "call" and c[1] == "isinstance" and c[2][0] == ("p", "value"):
                        return ("complex" in str(c[2][1])) == cpx if "complex" in str(c[2][1]) else None
                    return None
                rid = "complex" if cpx else "value"
                who = f"{m}, {ov}"
                sv = SV(p, None, assume=assume)
                args = {"quantization_mode": ("ref", f"{Q}QuantizationMode.{m}"),
                        "overflow_mode": ("ref", f"{Q}OverflowMode.{ov}")}
                ctx.ob(rid, who)
                try:
                    outs = sv.run(f, args)
                except Blowup:
                    ctx.assume(f"{rid} {who}: not decided (too many paths)")
                    continue
                good = [x for x in outs if x[1] != "raise"]
                if not good or any(sv.outval(x) == ("opq", "raises") or "raises" in str(sv.outval(x)) for x in good):
                    ctx.bad(rid, who, p.loc(f, f.node), "quantize raises for this mode")
                    continue
                v = sv.tree([(x[0], sv.outval(x)) for x in good])
                if v[0] == "call" and v[1] == "apytypes.fx":
                    kw = dict(zip(("value", "int_bits", "frac_bits"), v[2])) | dict(v[3])
                    ctx.ob("width", who)
                    if kw.get("int_bits") != ib or kw.get("frac_bits") != fb:
                        if not (kw.get("bits") is not None and kw.get("int_bits", ib) == ib and kw.get("frac_bits", fb) == fb):
                            ctx.bad("width", who, p.loc(f, f.node), "the result does not have the requested bits: "
                                    f"{show(v)[:100]}")
                    v = kw.get("value", NONE)
                parts = [(v, "value")]
                if cpx:
                    if v[0] == "call" and v[1] == "complex" and len(v[2]) == 2:
                        parts = [(v[2][0], "value.real"), (v[2][1], "value.imag")]
                    elif v[0] == "op" and v[1] == "+" and v[3][0] == "op" and v[3][1] == "*" and const(1j) in v[3][2:]:
                        parts = [(v[2], "value.real"), (v[3][3] if v[3][2] == const(1j) else v[3][2], "value.imag")]
                    else:
                        ctx.assume(f"complex {who}: not decided: {show(v)[:80]}")
                        continue
                for got, x in parts:
                    try:
                        c = Compare({"value": "cnum" if cpx else "num"}, atomise, None, None, nonneg=[two_i])
                        r = c.run(rewrite(got), rewrite(spec(m, ov, x)))
                    except Unknown as e:
                        ctx.assume(f"{rid} {who}: not decided ({e})")
                        continue
                    if r is not None:
                        ctx.bad(rid, f"{who} {x}", p.loc(f, f.node),
                                f"gives {nm(r[1])}, documented is {nm(r[2])}")


def nm(x):
    s = x if isinstance(x, str) else show(x)
    return s[:300]
