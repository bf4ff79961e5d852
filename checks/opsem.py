"""Semantics of operation classes as terms: constructor state, evaluation, specification."""

import ast

from sa.equiv import Compare
from sa.poly import Arith, Poly, Unknown
from sa.symval import FALSE, NONE, SV, TRUE, const

BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**"}
SKIP = ("port.", "signal.")
TIMING = {"name", "latency", "latency_offsets", "execution_time"}


def inline(f):
    return not f.short.startswith(SKIP)


def spec_term(text):
    def t(e):
        if isinstance(e, ast.Constant):
            return const(e.value)
        if isinstance(e, ast.Name):
            return ("p", e.id)
        if isinstance(e, ast.BinOp):
            return ("op", BIN[type(e.op)], t(e.left), t(e.right))
        if isinstance(e, ast.UnaryOp):
            return ("un", "-", t(e.operand)) if isinstance(e.op, ast.USub) else ("not", t(e.operand))
        if isinstance(e, ast.IfExp):
            return ("ite", t(e.test), t(e.body), t(e.orelse))
        if isinstance(e, ast.Compare):
            return ("cmp", "==", t(e.left), t(e.comparators[0]))
        if isinstance(e, ast.Subscript):
            return ("idx", t(e.value), t(e.slice))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            return ("mcall", t(e.func.value), e.func.attr, (), ())
        if isinstance(e, ast.Call):
            return ("call", e.func.id, tuple(t(a) for a in e.args), ())
        raise AssertionError(ast.dump(e))
    return t(ast.parse(text, mode="eval").body)


def spec_outputs(spec):
    """Specified output terms; an int N stands for the N-point DFT."""
    if isinstance(spec, str):
        n = int(spec.split()[1])
        import cmath
        outs = []
        for k in range(n):
            s = const(0)
            for m in range(n):
                w = cmath.exp(-2j * cmath.pi * k * m / n)
                if abs(w.imag) < 1e-12:
                    w = round(w.real, 12)
                s = ("op", "+", s, ("op", "*", const(w), ("p", f"x{m}")))
            outs.append(s)
        return outs
    return [spec_term(s) for s in spec]


def atomise(t):
    """Inputs, parameters and their elements and fields are atoms."""
    x = t
    while x[0] in ("idx", "attr") and x[2] not in ("real", "imag"):
        x = x[1]
    return t if x[0] == "p" else None


def untuple(t, n):
    """The output terms of an evaluation result."""
    if t[0] in ("tuple", "list"):
        return list(t[1])
    if t[0] == "ite":
        a, b = untuple(t[2], n), untuple(t[3], n)
        if a is not None and b is not None and len(a) == len(b):
            return [("ite", t[1], x, y) if x != y else x for x, y in zip(a, b)]
        return None
    return [t] if n == 1 else None


class OpSem:
    def __init__(self, prog, cls, depth=7):
        self.p, self.cls, self.depth = prog, cls, depth
        self.short = prog.classes[cls].short if hasattr(prog.classes[cls], "short") else cls.removeprefix("b_asic.")

    def sv(self, **kw):
        return SV(self.p, self.cls, depth=self.depth, inline=inline, **kw)

    def init(self, args=None):
        """Object states after the constructor returns normally."""
        f = self.p.lookup(self.cls, "__init__")
        outs = self.sv().run(f, args or {})
        return [(o[0], o[3].heap) for o in outs if o[1] != "raise"], f

    def merged_init(self, args=None):
        outs, f = self.init(args)
        if len(outs) == 1:
            return outs[0][1], f
        sv = self.sv()
        keys = []
        for _, h in outs:
            keys += [k for k in h if k not in keys]
        return {k: sv.tree([(c, h.get(k, SV.heap_default(k))) for c, h in outs]) for k in keys}, f

    def ctor_params(self):
        f = self.p.lookup(self.cls, "__init__")
        return [a for a in f.all_params()[1:]]

    def eval_args(self, f, data_type=NONE):
        args, n = {}, 0
        for a in f.params[1:]:
            if a == "data_type":
                args[a] = data_type
            elif a == "delays":
                args[a] = NONE
            else:
                args[a] = ("p", f"x{n}")
                n += 1
        return args, n

    def evaluate(self, heap, data_type=NONE, assume=None):
        f = self.p.lookup(self.cls, "evaluate")
        args, n = self.eval_args(f, data_type)
        return self.sv(assume=assume).value(f, args, heap), n

    def call(self, name, heap, args, kinds=("method", "property", "setter")):
        """(value, heap) of calling a method by positional args; None if there is none."""
        f = self.p.lookup(self.cls, name)
        return f


def shape(got, want, kinds, decide=None):
    """None if the terms agree, else a readable disagreement."""
    c = Compare(kinds, atomise, decide)
    return c.run(got, want)


def normal_text(t, kinds):
    """Readable normal form of a term (best effort)."""
    from sa.symval import show
    try:
        return str(Arith(kinds, atomise=atomise).poly(t))
    except Unknown:
        return show(t)
