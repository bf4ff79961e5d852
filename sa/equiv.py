"""Equivalence of gated arithmetic terms: split on atomic conditions, compare normal forms."""

from __future__ import annotations

from .poly import Arith, IS, Poly, Unknown, atomic, cond, first_cond, kind_of, simplify


def is_leaf_tuple(t):
    return t[0] in ("tuple", "list")


class Compare:
    def __init__(self, kinds, atomise, decide=None, wrap=None, nonneg=()):
        """atomise(term) -> atom or None names parameters; wrap(term) -> (core, tag);
        nonneg: polynomials known to be positive."""
        self.nonneg = list(nonneg)
        self.kinds = kinds
        self.atomise = atomise
        self.extra = decide or (lambda c: None)
        self.wrap = wrap or (lambda t: (t, None))
        self.leaves = 0

    def canon_cond(self, c):
        """Canonical form of an atomic condition."""
        if c[0] == "call" and c[1] == "isinstance":
            return c
        if c[0] == "cmp" and c[1] == "==":
            try:
                p = Arith(self.kinds, atomise=self.atomise).poly(("op", "-", c[2], c[3]))
                k = p.as_const()
                if k is not None:
                    return abs(k) < 1e-12
                q = p.canon()
                n = Poly({m: -v for m, v in p.d.items()}).canon()
                return ("zero", min(q, n, key=repr))
            except Unknown:
                return c
        if c[0] == "cmp" and c[1] == "<":
            try:
                p = Arith(self.kinds, atomise=self.atomise).poly(("op", "-", c[2], c[3]))
                k = p.as_const()
                if k is not None:
                    return k.real < 0
                for x in self.nonneg:
                    if p.same(x):
                        return False
                    if p.same(x.scale(-1)):
                        return True
                return ("neg", p.canon())
            except Unknown:
                return c
        if c[0] in ("idx", "attr", "mcall", "p", "op"):
            a = self.atomise(c)
            if a is not None:
                return ("truth", a)
        return c

    def decide(self, facts):
        def d(c):
            if c[0] == "call" and c[1] == "isinstance" and len(c[2]) == 2:
                k = kind_of(c[2][0], self.kinds)
                ts = c[2][1][1] if c[2][1][0] == "tuple" else (c[2][1],)
                names = []
                for x in ts:
                    if x[0] == "op" and x[1] == "|":
                        names += [y[1] for y in x[2:] if y[0] == "ref"]
                    elif x[0] == "ref":
                        names.append(x[1])
                    else:
                        return None
                if all(n in IS for n in names):
                    return any(k in IS[n] for n in names)
                return None
            r = self.extra(c)
            if r is not None:
                return r
            k = self.canon_cond(c)
            if isinstance(k, bool):
                return k
            if k in facts:
                return facts[k]
            # x == 0 and the truth value of a number x are the same question
            if k[0] == "truth":
                z = ("zero", Poly.atom(k[1]).canon())
                n = ("zero", Poly({m: -v for m, v in Poly.atom(k[1]).d.items()}).canon())
                for y in (z, n):
                    if y in facts:
                        return not facts[y]
            if k[0] == "zero":
                for f, v in facts.items():
                    if f[0] == "truth":
                        for s in (1, -1):
                            if k[1] == Poly({((f[1], 1),): complex(s)}).canon():
                                return not v
            return None
        return d

    @staticmethod
    def back(canon):
        return Poly({m: complex(*c) for m, c in canon})

    def infeasible(self, facts):
        """Do the order facts contradict each other?"""
        neg = [self.back(k[1]) for k, v in facts.items() if k[0] == "neg" and v]
        pos = [self.back(k[1]) for k, v in facts.items() if k[0] == "neg" and not v] + self.nonneg
        for i, a in enumerate(neg):
            # a < 0 with a = sum of non-negative ones, or a + b non-negative with both negative
            for b in pos:
                if a.same(b):
                    return True
                for c in pos:
                    if a.same(b + c):
                        return True
            for b in neg[i + 1:]:
                s = a + b
                k = s.as_const()
                if k is not None and k.real >= 0 or any(s.same(x) for x in self.nonneg):
                    return True
        return False

    def zero_multiple(self, d, facts):
        """Is d a multiple of something the facts say is zero?"""
        zs = [self.back(k[1]) for k, v in facts.items() if k[0] == "zero" and v]
        negs = [self.back(k[1]) for k, v in facts.items() if k[0] == "neg" and not v]
        zs += [a for i, a in enumerate(negs) for b in negs[i + 1:] if not (a + b).d]
        for z in zs:
            for m, c in z.d.items():
                if m in d.d and d.same(z.scale(d.d[m] / c)):
                    return True
                break
        return False

    def substs(self, facts):
        out = {}
        facts = dict(facts)
        negs = [self.back(k[1]) for k, v in facts.items() if k[0] == "neg" and not v]
        for i, a in enumerate(negs):
            for b in negs[i + 1:]:
                if not (a + b).d:
                    facts[("zero", a.canon())] = True
        for k, v in facts.items():
            if k[0] == "truth" and not v:
                out[k[1]] = 0
            if k[0] == "zero" and v:
                mons = dict(k[1])
                lin = [(m, c) for m, c in mons.items() if m]
                if len(lin) == 1 and len(lin[0][0]) == 1 and lin[0][0][0][1] == 1:
                    a = lin[0][0][0][0]
                    c0 = mons.get((), (0.0, 0.0))
                    ck = complex(*lin[0][1])
                    out[a] = -complex(*c0) / ck
        return out

    def run(self, got, want, facts=None, depth=0):
        """None if equivalent, else (facts, got, want) of a disagreeing leaf."""
        facts = facts or {}
        d = self.decide(facts)
        got, want = simplify(got, {}, d), simplify(want, {}, d)
        if depth > 14:
            raise Unknown("too many conditions")
        if facts and self.infeasible(facts):
            return None
        c = first_cond(got) or first_cond(want)
        if c is not None:
            k = self.canon_cond(atomic(c))
            if isinstance(k, bool) or k in facts:
                raise Unknown(f"condition {c}")
            for v in (True, False):
                r = self.run(got, want, {**facts, k: v}, depth + 1)
                if r is not None:
                    return r
            return None
        if is_leaf_tuple(got) and is_leaf_tuple(want):
            if len(got[1]) != len(want[1]):
                return facts, got, want
            for a, b in zip(got[1], want[1]):
                r = self.run(a, b, facts, depth)
                if r is not None:
                    return r
            return None
        if is_leaf_tuple(got) != is_leaf_tuple(want):
            return facts, got, want
        self.leaves += 1
        (g, gt), (w, wt) = self.wrap(got), self.wrap(want)
        if gt != wt:
            return facts, got, want
        if g == w:
            return None
        ar = Arith(self.kinds, self.substs(facts), self.atomise)
        pg, pw = ar.poly(g), ar.poly(w)
        if pg.same(pw) or self.zero_multiple(pg + pw.scale(-1), facts):
            return None
        return facts, str(pg), str(pw)
