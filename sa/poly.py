"""Arithmetic normal form of value-numbering terms: polynomials over atoms, complex coefficients."""

from __future__ import annotations

import cmath
import math

TOL = 1e-9
KINDS = ("num", "cnum", "fx", "cfx", "fp", "cfp")
IS = {
    "numbers.Real": {"num"}, "float": {"num"}, "int": {"num"}, "complex": {"cnum"},
    "numbers.Number": {"num", "cnum"}, "numbers.Complex": {"num", "cnum"},
    "apytypes.APyFixed": {"fx"}, "apytypes.APyCFixed": {"cfx"}, "apytypes.APyFloat": {"fp"},
    "apytypes.APyCFloat": {"cfp"},
    "b_asic.operation.Operation": set(), "b_asic.port.OutputPort": set(), "str": set(), "list": set(),
    "tuple": set(), "dict": set(),
}
WRAP = {"complex", "float", "apytypes.fx", "apytypes.fp", "apytypes.cx", "numpy.float64", "numpy.complex128"}
# lossy functions: distinct from their argument, kept as atoms
LOSSY = {"int", "round", "math.floor", "math.ceil", "math.trunc", "numpy.floor", "numpy.ceil", "numpy.round",
         "numpy.rint", "numpy.trunc", "numpy.sign", "math.fabs", "numpy.real", "numpy.imag", "bool"}
OPER = {"add": "+", "iadd": "+", "sub": "-", "isub": "-", "mul": "*", "imul": "*", "truediv": "/",
        "pow": "**", "lshift": "<<", "rshift": ">>", "floordiv": "//", "mod": "%",
        "subtract": "-", "multiply": "*", "divide": "/", "true_divide": "/", "power": "**"}
FUN = {
    "math.cos": cmath.cos, "math.sin": cmath.sin, "math.sqrt": cmath.sqrt, "math.exp": cmath.exp,
    "cmath.exp": cmath.exp, "numpy.cos": cmath.cos, "numpy.sin": cmath.sin, "numpy.exp": cmath.exp,
    "cmath.sqrt": cmath.sqrt,
}
CONST = {"math.pi": math.pi, "numpy.pi": math.pi, "cmath.pi": math.pi, "math.inf": math.inf,
         "numpy.inf": math.inf, "math.e": math.e}


class Unknown(Exception):
    """The term uses a construct the arithmetic normal form does not model."""


def kind_of(t, kinds):
    """Number kind of a term when the inputs have the given kinds."""
    k = t[0]
    if k == "p":
        return kinds.get(t[1], "num")
    if k == "c":
        return "cnum" if isinstance(t[2], complex) else "num"
    if k == "op":
        if t[1] in (">>", "<<", "**") and False:
            return kind_of(t[2], kinds)
        a, b = kind_of(t[2], kinds), kind_of(t[3], kinds)
        return join(a, b)
    if k == "un":
        return kind_of(t[2], kinds)
    if k == "ite":
        a, b = kind_of(t[2], kinds), kind_of(t[3], kinds)
        return a if a == b else join(a, b)
    if k == "call":
        n = t[1]
        if n == "complex":
            return "cnum"
        if n == "float":
            return "num"
        if n == "apytypes.fx":
            return "cfx" if t[2] and kind_of(t[2][0], kinds).startswith("c") else "fx"
        if n == "apytypes.fp":
            return "cfp" if t[2] and kind_of(t[2][0], kinds).startswith("c") else "fp"
        if t[2]:
            r = kind_of(t[2][0], kinds)
            for x in t[2][1:]:
                r = join(r, kind_of(x, kinds))
            return r
    if k == "attr" and t[2] in ("real", "imag"):
        return kind_of(t[1], kinds).removeprefix("c") if kind_of(t[1], kinds) != "cnum" else "num"
    return "num"


def join(a, b):
    if a == b:
        return a
    c = "c" if a[0] == "c" or b[0] == "c" else ""
    base = {x.removeprefix("c") for x in (a, b)}
    base.discard("num")
    r = base.pop() if base else "num"
    return c + r


class Poly:
    __slots__ = ("d",)

    def __init__(self, d=None):
        self.d = d or {}

    @staticmethod
    def const(c):
        return Poly({(): complex(c)}) if c != 0 else Poly()

    @staticmethod
    def atom(a, e=1):
        return Poly({((a, e),): 1 + 0j})

    def __add__(self, o):
        d = dict(self.d)
        for m, c in o.d.items():
            d[m] = d.get(m, 0) + c
        return Poly({m: c for m, c in d.items() if abs(c) > 1e-13})

    def scale(self, k):
        return Poly({m: c * k for m, c in self.d.items()})

    def __mul__(self, o):
        d = {}
        for m, c in self.d.items():
            for n, e in o.d.items():
                x = mono(m, n)
                d[x] = d.get(x, 0) + c * e
        return Poly({m: c for m, c in d.items() if abs(c) > 1e-13})

    def as_const(self):
        if not self.d:
            return 0j
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def single(self):
        return next(iter(self.d.items())) if len(self.d) == 1 else None

    def canon(self):
        def rnd(c):
            return (round(c.real, 9) + 0.0, round(c.imag, 9) + 0.0)
        return tuple(sorted(((m, rnd(c)) for m, c in self.d.items()), key=repr))

    def same(self, o):
        for m in {*self.d, *o.d}:
            a, b = self.d.get(m, 0), o.d.get(m, 0)
            if abs(a - b) > TOL * max(1, abs(a), abs(b)):
                return False
        return True

    def __str__(self):
        if not self.d:
            return "0"
        out = []
        for m, c in sorted(self.d.items(), key=repr):
            c = c.real if abs(c.imag) < 1e-12 else c
            v = "*".join(atxt(a) + (f"^{e}" if e != 1 else "") for a, e in m)
            out.append(f"{c:.6g}*{v}" if v and c != 1 else v or f"{c:.6g}")
        return " + ".join(out)


def atxt(a):
    if a[0] == "par":
        return a[1]
    if a[0] == "p":
        return a[1]
    if a[0] == "E2":
        return f"2^({ctxt(a[1])})"
    if a[0] in ("attr", "idx"):
        from .symval import show
        return show(a)
    if all(isinstance(x, tuple) for x in a[1:]):
        return a[0] + "(" + ", ".join(ctxt(x) for x in a[1:]) + ")"
    return a[0] + "(" + ", ".join(str(x) for x in a[1:]) + ")"


def ctxt(c):
    """Readable canonical polynomial."""
    try:
        return str(Poly({m: complex(*k) for m, k in c}))
    except Exception:
        return str(c)


def mono(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=repr))


class Arith:
    """Turns terms into polynomials under given input kinds and facts."""

    def __init__(self, kinds, subst=None, atomise=None):
        self.kinds = kinds
        self.subst = subst or {}       # atom -> number
        self.atomise = atomise

    def atom(self, a):
        if a in self.subst:
            return Poly.const(self.subst[a])
        return Poly.atom(a)

    def exp2(self, p):
        """2**p for an integer-linear p."""
        out = Poly.const(1)
        for m, c in p.d.items():
            if abs(c.imag) > 1e-12:
                raise Unknown("complex exponent")
            if m == ():
                out = out.scale(2 ** c.real)
            else:
                if abs(c.real - round(c.real)) > 1e-12:
                    raise Unknown("fractional exponent of 2")
                out = out * Poly({((("E2", Poly({m: 1}).canon()), int(round(c.real))),): 1 + 0j})
        return out

    def inv(self, p):
        s = p.single()
        if s is None:
            if not p.d:
                raise Unknown("division by zero")
            return Poly.atom(("inv", p.canon()))
        m, c = s
        return Poly({tuple((a, -e) for a, e in m): 1 / c})

    def power(self, b, e):
        ec = e.as_const()
        bc = b.as_const()
        if ec is not None and abs(ec.imag) < 1e-12:
            r = ec.real
            if abs(r - round(r)) < 1e-12 and abs(r) <= 8:
                r = int(round(r))
                out = Poly.const(1)
                x = b if r >= 0 else self.inv(b)
                for _ in range(abs(r)):
                    out = out * x
                return out
            if bc is not None:
                return Poly.const(bc ** ec)
            return self.atom(("pow", b.canon(), round(r, 9)))
        if bc is not None and abs(bc - 2) < 1e-12:
            return self.exp2(e)
        return self.atom(("pow", b.canon(), e.canon()))

    def poly(self, t) -> Poly:
        if self.atomise:
            a = self.atomise(t)
            if a is not None:
                return self.atom(a)
        k = t[0]
        if k == "c":
            if isinstance(t[2], (int, float, complex)):
                if isinstance(t[2], float) and math.isinf(t[2]):
                    return self.atom(("inf",)).scale(1 if t[2] > 0 else -1)
                return Poly.const(t[2])
            raise Unknown(f"constant {t[2]!r}")
        if k == "p":
            return self.atom(t)
        if k == "ref":
            if t[1] in CONST:
                v = CONST[t[1]]
                return self.atom(("inf",)) if math.isinf(v) else Poly.const(v)
            raise Unknown(t[1])
        if k == "un" and t[1] == "-":
            return self.poly(t[2]).scale(-1)
        if k == "op":
            o = t[1]
            a, b = self.poly(t[2]), self.poly(t[3])
            if o == "+":
                return a + b
            if o == "-":
                return a + b.scale(-1)
            if o == "*":
                return a * b
            if o == "/":
                return a * self.inv(b)
            if o == "**":
                return self.power(a, b)
            if o == ">>":
                return a * self.exp2(b.scale(-1))
            if o == "<<":
                return a * self.exp2(b)
            if o == "//":
                return self.atom(("floor", (a * self.inv(b)).canon()))
            if o == "%":
                return a + (b * self.atom(("floor", (a * self.inv(b)).canon()))).scale(-1)
            if o in ("|", "&", "^"):
                return self.atom((o, *sorted((a.canon(), b.canon()), key=repr)))
            raise Unknown(f"operator {o}")
        if k == "call":
            n = t[1]
            if n in WRAP and t[2]:
                x = t[2][0]
                if n == "float" and x == ("c", "str", "inf"):
                    return self.atom(("inf",))
                return self.poly(x)
            if n in FUN and len(t[2]) == 1:
                c = self.poly(t[2][0]).as_const()
                if c is not None:
                    return Poly.const(FUN[n](c))
                return self.atom((n.rpartition(".")[2], self.poly(t[2][0]).canon()))
            if n == "numpy.exp" and len(t[2]) == 1:
                pass
            if n in ("numpy.sqrt", "math.sqrt", "cmath.sqrt"):
                return self.power(self.poly(t[2][0]), Poly.const(0.5))
            if n == "pow" and len(t[2]) == 2:
                return self.power(self.poly(t[2][0]), self.poly(t[2][1]))
            if n in ("abs", "numpy.abs", "numpy.absolute"):
                return self.atom(("abs", self.poly(t[2][0]).canon()))
            if n in ("numpy.conjugate", "numpy.conj"):
                return self.conj(t[2][0])
            if n in ("min", "max", "numpy.minimum", "numpy.maximum"):
                n = n[-3:] if n in ("min", "max") else n[6:9]
                n = {"min": "min", "max": "max"}.get(n, n)
                return self.atom((n, *sorted((self.poly(x).canon() for x in t[2]), key=repr)))
            if n == "sum" and len(t[2]) == 1 and t[2][0][0] in ("tuple", "list"):
                out = Poly()
                for x in t[2][0][1]:
                    out = out + self.poly(x)
                return out
            mod, _, base = n.rpartition(".")
            if mod in ("operator", "numpy") and base in OPER and len(t[2]) == 2:
                return self.poly(("op", OPER[base], *t[2]))
            if mod in ("operator", "numpy") and base in ("neg", "negative") and len(t[2]) == 1:
                return self.poly(t[2][0]).scale(-1)
            if mod == "math" and base == "prod" and len(t[2]) == 1 and t[2][0][0] in ("tuple", "list"):
                out = Poly.const(1)
                for x in t[2][0][1]:
                    out = out * self.poly(x)
                return out
            if n in LOSSY and t[2]:
                ps = [self.poly(x) for x in t[2]]
                c = ps[0].as_const()
                if c is not None and len(ps) == 1 and abs(c - round(c.real)) < 1e-12:
                    return ps[0] if base not in ("sign", "fabs", "imag", "bool") else self.atom((base, c))
                if n == "int" and not self.from_input(t[2][0]):
                    return ps[0]
                return self.atom((base, *(q.canon() for q in ps)))
            raise Unknown(f"call of {n}")
        if k == "mcall":
            mm = {"__add__": "+", "__sub__": "-", "__mul__": "*", "__truediv__": "/", "__pow__": "**"}
            if t[2] in mm and len(t[3]) == 1:
                return self.poly(("op", mm[t[2]], t[1], t[3][0]))
            if t[2] == "conjugate" or t[2] == "conj":
                return self.conj(t[1])
            if t[2] == "cast":
                return self.poly(t[1])
            raise Unknown(f"call of .{t[2]}")
        if k == "attr" and t[2] in ("real", "imag"):
            kd = kind_of(self.unwrap(t[1]), self.kinds)
            if not kd.startswith("c"):
                return self.poly(t[1]) if t[2] == "real" else Poly()
            return self.atom((t[2], self.poly(t[1]).canon()))
        raise Unknown(f"{k} term")

    def from_input(self, t):
        """Does the term depend on an input value x0, x1, …?"""
        if not isinstance(t, tuple):
            return False
        if t[:1] == ("p",) and t[1][:1] == "x" and t[1][1:].isdigit():
            return True
        return any(self.from_input(x) for x in t)

    def unwrap(self, t):
        while t[0] == "call" and t[1] in ("complex",) and t[2]:
            t = t[2][0]
        return t

    def conj(self, x):
        if not kind_of(self.unwrap(x), self.kinds).startswith("c"):
            return self.poly(x)
        return self.atom(("conj", self.poly(x).canon()))


def has_ite(t):
    if not isinstance(t, tuple):
        return False
    if t and t[0] == "ite":
        return True
    return any(has_ite(x) for x in t)


def first_cond(t):
    """Innermost first undecided condition of a term."""
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] == "ite":
        return first_cond(t[1]) or atomic(t[1])
    for x in t:
        c = first_cond(x)
        if c is not None:
            return c
    return None


def atomic(c):
    while c[0] in ("not", "and", "or"):
        c = c[1] if c[0] == "not" else c[1][0]
    return c


def simplify(t, facts, decide):
    """Resolve ite terms under facts (atomic condition -> bool)."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "ite":
        c = cond(simplify(t[1], facts, decide), facts, decide)
        if c is True:
            return simplify(t[2], facts, decide)
        if c is False:
            return simplify(t[3], facts, decide)
        return ("ite", c, simplify(t[2], facts, decide), simplify(t[3], facts, decide))
    return tuple(simplify(x, facts, decide) for x in t)


def cond(c, facts, decide):
    if c in (True, False):
        return c
    if c[0] == "c":
        return bool(c[2])
    if c[0] == "not":
        x = cond(c[1], facts, decide)
        return (not x) if isinstance(x, bool) else ("not", x)
    if c[0] in ("and", "or"):
        out = []
        for x in c[1]:
            y = cond(x, facts, decide)
            if isinstance(y, bool):
                if y == (c[0] == "or"):
                    return y
                continue
            out.append(y)
        if not out:
            return c[0] == "and"
        return out[0] if len(out) == 1 else (c[0], tuple(out))
    if c[0] == "ite":
        x = cond(c[1], facts, decide)
        if isinstance(x, bool):
            return cond(c[2] if x else c[3], facts, decide)
        return c
    if c in facts:
        return facts[c]
    r = decide(c)
    return c if r is None else bool(r)
