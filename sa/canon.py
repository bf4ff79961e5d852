"""Canonical form of value-numbering terms over integers, sequences, sets and mappings,
and a three-valued comparison of two canonical terms.

Loops that accumulate (append, update, +=, min, max, early return of a constant) become
the comprehension they compute; comprehensions are flattened; arithmetic becomes
polynomials; comparisons get one orientation.  Two terms compare EQ, DIFF (they agree up
to one or more places where both sides are understood and differ) or UNK (the shapes are
too far apart to tell; never reported).
"""

from __future__ import annotations

from itertools import combinations

from .symval import show as show_term

EQ, DIFF, UNK = "EQ", "DIFF", "UNK"
SELF = ("p", "self")


class Undecided(Exception):
    pass


# ---------------------------------------------------------------- polynomials
def padd(a, b, k=1):
    d = dict(a)
    for m, c in b.items():
        d[m] = d.get(m, 0) + k * c
        if d[m] == 0:
            del d[m]
    return d


def pmul(a, b):
    d = {}
    for m, c in a.items():
        for n, e in b.items():
            x = dict(m)
            for t, i in n:
                x[t] = x.get(t, 0) + i
            x = tuple(sorted(((t, i) for t, i in x.items() if i), key=repr))
            d[x] = d.get(x, 0) + c * e
            if d[x] == 0:
                del d[x]
    return d


def to_poly(t):
    if t[0] == "num":
        return dict(t[1])
    if t[0] == "c" and type(t[2]) in (int, float, complex):
        return {(): t[2]} if t[2] != 0 else {}
    return {((t, 1),): 1}


def from_poly(d):
    if not d:
        return ("c", "int", 0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return ("c", type(c).__name__, c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return ("num", tuple(sorted(d.items(), key=repr)))


def is_num(t):
    return t[0] == "num" or t[0] == "c" and type(t[2]) in (int, float, complex)


SEQ = ("cat", "map")


def is_seq(t):
    return t[0] in SEQ


def items_of(t):
    """Sequence term -> tuple of ('elt', x) | ('seq', x)."""
    if t[0] == "cat":
        return t[1]
    return (("seq", t),)


def cat(items):
    out = []
    for k, x in items:
        if k == "seq" and x[0] == "cat":
            out += x[1]
        else:
            out.append((k, x))
    if len(out) == 1 and out[0][0] == "seq":
        return out[0][1]
    return ("cat", tuple(out))


def comp(body, gens):
    """gens: ((level|None, iter, conds), ...); body a sequence term."""
    if body == ("cat", ()):
        return body
    if body[0] == "ite":
        a = comp(body[2], (*gens, (None, None, (body[1],))))
        b = comp(body[3], (*gens, (None, None, (neg(body[1]),))))
        if a == ("cat", ()):
            return b
        if b == ("cat", ()):
            return a
        return comp_raw(body, gens)
    if body[0] == "map":
        return comp(body[1], (*gens, *body[2]))
    return comp_raw(body, gens)


def comp_raw(body, gens):
    out = []
    for lv, it, cs in gens:
        flat = []
        for c in cs:
            flat += c[1] if c[0] == "and" else [c]
        flat = [c for c in flat if c != TRUE]
        if any(c == FALSE for c in flat):
            return ("cat", ())
        if it is None and out:
            a, b, c = out[-1]
            out[-1] = (a, b, tuple(sorted({*c, *flat}, key=repr)))
        elif it is None and not flat:
            continue
        else:
            out.append((lv, it, tuple(sorted(set(flat), key=repr))))
    if not out:
        return body
    lv, it, cs = out[-1]
    if len(out) > 1 and it is not None and not cs and body == ("cat", (("elt", ("bnd", lv, "item")),)) and (
            it[0] in ("attr", "mcall", "bnd", "idx")):
        return comp_raw(it, out[:-1])         # every item of every sequence
    return ("map", body, tuple(out))


TRUE, FALSE = ("c", "bool", True), ("c", "bool", False)
NONE = ("c", "NoneType", None)


def neg(c):
    if c[0] == "not":
        return c[1]
    if c in (TRUE, FALSE):
        return FALSE if c == TRUE else TRUE
    return ("not", c)


def truth(c):
    """A number used as a condition."""
    if c[0] in ("num", "mod", "fdiv", "sum"):
        return neg(eq0(to_poly(c)))
    if c[0] == "c" and type(c[2]) in (int, float):
        return TRUE if c[2] else FALSE
    if c[0] == "cat" and not c[1]:
        return FALSE
    if c[0] == "cat" and any(k == "elt" for k, _ in c[1]):
        return TRUE
    return c


def boolop(o, items):
    out = []
    for t in items:
        if t[0] == o:
            out += t[1]
        elif t == (TRUE if o == "or" else FALSE):
            return t
        elif t in (TRUE, FALSE):
            continue
        else:
            out.append(t)
    u = sorted(set(out), key=repr)
    for x in u:
        if neg(x) in u:
            return TRUE if o == "or" else FALSE
    if not u:
        return FALSE if o == "or" else TRUE
    return u[0] if len(u) == 1 else (o, tuple(u))


def mk_ite(c, a, b):
    if a == b:
        return a
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if c[0] == "not":
        return mk_ite(c[1], b, a)
    if a == TRUE and b == FALSE:
        return c
    if a == FALSE and b == TRUE:
        return neg(c)
    if b == FALSE and is_bool(a):
        return boolop("and", (c, a))
    if a == TRUE and is_bool(b):
        return boolop("or", (c, b))
    if c[0] == "lt0":
        # a < b ? a : b
        d = dict(c[1])
        for x, y, o in ((a, b, "min"), (b, a, "max")):
            if is_bool(x) or x[0] in ("cat", "map", "leaf") or y[0] in ("cat", "map", "leaf"):
                break
            df = padd(to_poly(x), to_poly(y), -1)
            if df == d or padd(df, {(): 1}, -1) == d:
                return mk_ext(o, (("elt", x), ("elt", y)))
    return ("ite", c, a, b)


def is_bool(t):
    return t in (TRUE, FALSE) or t[0] in ("lt0", "eq0", "eq", "in", "is", "not", "and", "or", "any", "isinst")


def mk_ext(o, items):
    """min / max over sequence items."""
    flat = []
    for k, x in items:
        if k == "elt" and x[0] == o:
            flat += x[1]
        elif k == "seq":
            flat += split_ext(x)
        else:
            flat.append((k, x))
    consts = [x[2] for k, x in flat if k == "elt" and x[0] == "c" and type(x[2]) in (int, float)]
    flat = {i for i in flat if not (i[0] == "elt" and i[1][0] == "c" and type(i[1][2]) in (int, float))}
    if consts:
        v = min(consts) if o == "min" else max(consts)
        flat.add(("elt", ("c", type(v).__name__, v)))
    flat = sorted(flat, key=repr)
    if len(flat) == 1 and flat[0][0] == "elt":
        return flat[0][1]
    return (o, tuple(flat))


def choice(t):
    """An ite inside an arithmetic term (not below a loop)."""
    if t[0] == "ite":
        return t
    if t[0] == "num":
        for m, _ in t[1]:
            for a, e in m:
                r = choice(a)
                if r is not None:
                    return r
    elif t[0] in ("mod", "fdiv"):
        return choice(t[1]) or choice(t[2])
    return None


def pick_choice(t, c, val):
    if t[0] == "ite":
        if t[1] == c:
            return pick_choice(t[2] if val else t[3], c, val)
        return mk_ite(t[1], pick_choice(t[2], c, val), pick_choice(t[3], c, val))
    if t[0] == "num":
        out = {}
        for m, k in t[1]:
            f = {(): k}
            for a, e in m:
                b = pick_choice(a, c, val)
                f = pmul(f, to_poly(b) if e == 1 else {((b, e),): 1})
            out = padd(out, f)
        return from_poly(out)
    if t[0] in ("mod", "fdiv"):
        return (t[0], pick_choice(t[1], c, val), pick_choice(t[2], c, val))
    return t


def split_ext(x):
    """Items of a sequence whose order does not matter, alternatives as filters."""
    if x[0] == "cat":
        out = []
        for k, e in x[1]:
            out += split_ext(e) if k == "seq" else [(k, e)]
        return out
    if x[0] == "map":
        b = x[1]
        alts = None
        if b[0] == "ite":
            alts = [(b[2], b[1]), (b[3], neg(b[1]))]
        elif b[0] == "cat" and len(b[1]) == 1 and b[1][0][0] == "elt" and choice(b[1][0][1]) is not None:
            e = b[1][0][1]
            c = choice(e)[1]
            alts = [(cat((("elt", pick_choice(e, c, True)),)), c), (cat((("elt", pick_choice(e, c, False)),)), neg(c))]
        elif b[0] == "cat" and len(b[1]) != 1:
            return [i for k, e in b[1] for i in split_ext(comp(cat(((k, e),)), x[2]))]
        if alts:
            return [i for y, c in alts for i in split_ext(comp(y, (*x[2], (None, None, (c,)))))]
    return [("seq", x)]


def mk_sum(seq):
    out = {}
    for k, x in items_of(seq):
        if k == "elt":
            if is_seq(x):
                raise Undecided("sum of sequences")
            out = padd(out, to_poly(x))
        elif x[0] == "map":
            out = padd(out, sum_comp(x))
        else:
            out = padd(out, {((("sum", x), 1),): 1})
    return from_poly(out)


def sum_comp(x):
    body, gens = x[1], x[2]
    out = {}
    if body[0] == "ite":
        for b, c in ((body[2], body[1]), (body[3], neg(body[1]))):
            y = comp(b, (*gens, (None, None, (c,))))
            if y != ("cat", ()):
                out = padd(out, to_poly(mk_sum(y)))
        return out
    for k, e in items_of(body):
        if k == "seq":
            y = ("sum", comp(cat(((k, e),)), gens))
            out = padd(out, {((y, 1),): 1})
            continue
        if e == ("c", "int", 0):
            continue
        ch = choice(e)
        if ch is not None:
            c = ch[1]
            for b, c in ((pick_choice(e, c, True), c), (pick_choice(e, c, False), neg(c))):
                if b != ("c", "int", 0):
                    y = comp(cat((("elt", b),)), (*gens, (None, None, (c,))))
                    out = padd(out, to_poly(mk_sum(y)) if y[0] == "map" else {})
            continue
        p = to_poly(e)
        lvs = {g[0] for g in gens if g[0] is not None}
        for m, c in p.items():
            # constants and factors that do not depend on the loop go outside
            inn = tuple(f for f in m if any(has_level(f[0], lv) for lv in lvs))
            outm = tuple(f for f in m if f not in inn)
            y = ("sum", comp(cat((("elt", from_poly({inn: 1})),)), gens))
            out = padd(out, pmul({((y, 1),): 1}, {outm: c}))
    return out


def has_level(t, lv):
    if not isinstance(t, tuple):
        return False
    if len(t) == 3 and t[0] == "bnd" and t[1] == lv:
        return True
    return any(has_level(x, lv) for x in t)


def has_term(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(has_term(y, x) for y in t)


def subst(t, m):
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    return tuple(subst(x, m) for x in t)


# ---------------------------------------------------------------- canonicaliser
class Canon:
    def __init__(self, prog, getters=True):
        self.p = prog
        self.memo = {}
        self.fmemo = {}
        self.getters = set()
        self.alias = trivial_getters(prog, self.getters) if getters else {}
        self.lens, self.items = simple_accessors(prog, self.getters)
        self.solid = solid_containers(prog)

    def __call__(self, t):
        if not isinstance(t, tuple):
            return t
        if t in self.memo:
            return self.memo[t]
        r = self.norm(t)
        self.memo[t] = r
        return r

    def many(self, ts):
        return tuple(self(x) for x in ts)

    def norm(self, t):
        k = t[0] if t else None
        m = getattr(self, "n_" + k, None) if isinstance(k, str) else None
        if m is not None:
            return m(t)
        if k in ("p", "ref", "bnd", "opq", "unset"):
            return t
        return tuple(self(x) if isinstance(x, tuple) else x for x in t)

    def n_c(self, t):
        if t[1] == "float" and t[2] == int(t[2]) if t[1] == "float" and abs(t[2]) < 1e15 else False:
            return ("c", "int", int(t[2]))
        return t

    def n_attr(self, t):
        if not isinstance(t[1], tuple):
            return t
        if t[2] in self.lens:
            return self(("call", "len", (("attr", t[1], self.lens[t[2]]),), ()))
        return ("attr", self(t[1]), self.alias.get(t[2], t[2]))

    def n_bm(self, t):
        return ("attr", self(t[1]), self.alias.get(t[2], t[2]))

    def n_star(self, t):
        return ("star", self(t[1]))

    # -- canonical forms again, after a substitution
    def n_num(self, t):
        out = {}
        for m, c in t[1]:
            f = {(): c}
            for a, e in m:
                b = self(a)
                f = pmul(f, to_poly(b)) if e == 1 else pmul(f, {((b, e),): 1})
            out = padd(out, f)
        return from_poly(out)

    def n_lt0(self, t):
        return lt0(to_poly(self.n_num(t)))

    def n_eq0(self, t):
        return eq0(to_poly(self.n_num(t)))

    def n_mod(self, t):
        return self.arith("%", self(t[1]), self(t[2]))

    def n_cat(self, t):
        out = []
        for k, x in t[1]:
            x = self(x)
            out += items_of(self.domain(x)) if k == "seq" and is_seq(self.domain(x)) else [(k, x)]
        return cat(out)

    def n_map(self, t):
        out, sub = [], {}
        for lv, it, cs in t[2]:
            if it is None:
                out.append((None, None, tuple(self(subst(c, sub)) for c in cs)))
                continue
            gens, s = self.iterate(self(subst(it, sub)), lv)
            sub.update(s)
            out += gens
            out.append((None, None, tuple(self(subst(c, sub)) for c in cs)))
        return comp(self(subst(t[1], sub)), tuple(out))

    def n_min(self, t):
        return mk_ext(t[0], self.n_cat(("cat", t[1]))[1] if self.n_cat(("cat", t[1]))[0] == "cat" else (
            ("seq", self.n_cat(("cat", t[1]))),))

    n_max = n_min

    def n_sum(self, t):
        x = self.listed(self(t[1]))
        return mk_sum(x) if is_seq(x) else ("sum", x)

    def n_any(self, t):
        return mk_any(self.listed(self(t[1])), "any")

    def n_setc(self, t):
        return self.mk_set(self(t[1]))

    def n_eq(self, t):
        return self.eq(self(t[1]), self(t[2]))

    def n_in(self, t):
        return self.n_cmp(("cmp", "in", t[1], t[2]))

    def n_un(self, t):
        a = self(t[2])
        if t[1] == "-":
            if is_seq(a):
                return ("un", "-", a)
            return from_poly({m: -c for m, c in to_poly(a).items()})
        return ("un", t[1], a)

    def n_op(self, t):
        o, a, b = t[1], self(t[2]), self(t[3])
        if o == "+" and any(x[0] == "fstr" or x[0] == "c" and isinstance(x[2], str) for x in (a, b)):
            ps = []
            for x in (a, b):
                if x[0] == "fstr":
                    ps += x[1]
                elif x[0] == "c":
                    ps.append(x)
                else:
                    ps.append(("fmt", x, -1, ""))
            from .symval import SV
            return SV.fstr(ps)
        return self.arith(o, a, b)

    def arith(self, o, a, b):
        if o == "+" and (is_seq(a) or is_seq(b)):
            return cat((*self.as_items(self.listed(a)), *self.as_items(self.listed(b))))
        if o in "+-*" and (a[0] == "ite" or b[0] == "ite"):
            pass
        if o == "+" and not any(x[0] in ("c", "fstr") and not is_num(x) for x in (a, b)):
            return from_poly(padd(to_poly(a), to_poly(b)))
        if o == "-" and a[0] not in ("setc", "dictc") and b[0] not in ("setc", "dictc"):
            return from_poly(padd(to_poly(a), to_poly(b), -1))
        if o == "*" and not is_seq(a) and not is_seq(b):
            return from_poly(pmul(to_poly(a), to_poly(b)))
        if o == "%" and not (a[0] == "c" and not is_num(a)) and a[0] != "fstr":
            n = to_poly(b)
            pa = self.reduce(to_poly(a), n)
            x = from_poly(pa)
            if x[0] == "mod" and x[2] == b:
                return x
            return ("mod", x, b)
        if o == "//":
            return ("fdiv", a, b)
        if o == "/" and b[0] == "c" and is_num(b) and b[2]:
            return from_poly(pmul(to_poly(a), {(): 1 / b[2]}))
        if o in ("|", "&", "^") and repr(b) < repr(a):
            a, b = b, a
        return ("op", o, a, b)

    @staticmethod
    def reduce(p, n):
        """Drop integer multiples of n (a single atom) and collapse inner mods by n."""
        nt = from_poly(n)
        if nt[0] in ("num", "c"):
            return p
        out = {}
        for m, c in p.items():
            if isinstance(c, int) and any(f == nt and e == 1 for f, e in m):
                continue
            if isinstance(c, int) and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "mod" and m[0][0][2] == nt:
                out = padd(out, to_poly(m[0][0][1]), c)
                continue
            out = padd(out, {m: c})
        return out

    # -- conditions
    def n_not(self, t):
        return neg(self.cond(t[1]))

    def n_and(self, t):
        return boolop("and", [self.cond(x) for x in t[1]])

    def n_or(self, t):
        # 'a or b' as a value is kept as a choice
        return boolop("or", [self.cond(x) for x in t[1]])

    def cond(self, t):
        return truth(self(t))

    def n_cmp(self, t):
        o, a, b = t[1], self(t[2]), self(t[3])
        if o == "is":
            if NONE in (a, b):
                x = b if a == NONE else a
                return FALSE if self.never_none(x) else ("is", x, NONE)
            return ("is", *sorted((a, b), key=repr))
        if o == "in":
            b = self.domain(b)
            if b[0] == "cat" and all(k == "elt" for k, _ in b[1]):
                return boolop("or", [self.eq(a, x) for _, x in b[1]])
            if b[0] == "setc":
                b = b[1]
            return ("in", a, b)
        if o == "==":
            return self.eq(a, b)
        if o == "<":
            if is_seq(a) or is_seq(b):
                return ("lt", a, b)
            return lt0(padd(to_poly(a), to_poly(b), -1))
        return ("cmp", o, a, b)

    def never_none(self, x):
        if x[0] in ("num", "mod", "fdiv", "cat", "map", "dictc", "setc", "new", "fstr", "min", "max") or \
                x[0] == "c" and x != NONE:
            return True
        if x[0] == "idx" and x[1][0] == "attr" and x[1][2] in self.solid:
            return True
        return False

    def eq(self, a, b):
        if a == b:
            return TRUE
        for x in (a, b):
            if x[0] in ("setc", "dictc", "cat", "map", "fstr") or x[0] == "c" and not is_num(x):
                return ("eq", *sorted((a, b), key=repr))
        return eq0(padd(to_poly(a), to_poly(b), -1))

    def n_ite(self, t):
        return mk_ite(truth(self(t[1])), self(t[2]), self(t[3]))

    # -- containers
    def as_items(self, x):
        if is_seq(x):
            return items_of(x)
        return (("seq", x),)

    def n_list(self, t):
        out = []
        for x in t[1]:
            if x[0] == "star":
                out += self.as_items(self.listed(self(x[1])))
            else:
                out.append(("elt", self(x)))
        return cat(out)

    n_tuple = n_list

    def n_set(self, t):
        return self.mk_set(self.n_list(t))

    def mk_set(self, seq):
        if seq[0] == "setc":
            return seq
        its = sorted(set(items_of(seq)), key=repr) if is_seq(seq) else [("seq", seq)]
        return ("setc", cat(its) if not (len(its) == 1 and its[0][0] == "seq") else its[0][1])

    def n_dict(self, t):
        out = []
        for k, v in t[1]:
            if k[0] == "star":
                d = self(k[1])
                out += items_of(d[1]) if d[0] == "dictc" else [("seq", ("ditems", d))]
            else:
                out.append(("elt", ("pair", self(k), self(v))))
        return ("dictc", cat(out))

    def domain(self, x):
        """Canonical thing iterated over."""
        if x[0] == "dictc":
            return self.map_elts(x[1], lambda p: p[1])
        if x[0] == "mcall" and x[2] == "keys" and not x[3]:
            return self.domain(x[1])
        if x[0] == "call" and x[1] in ("list", "tuple", "iter") and len(x[2]) == 1 and not x[3]:
            return self.domain(x[2][0])
        return x

    def map_elts(self, seq, f):
        """Map a function over the pair elements of a sequence."""
        if seq[0] == "cat":
            return cat(tuple(("elt", f(x)) if k == "elt" else ("seq", self.map_elts(x, f)) for k, x in seq[1]))
        if seq[0] == "map":
            return comp(self.map_elts(seq[1], f), seq[2])
        if seq[0] == "ditems":
            lv = fresh_level(seq)
            it = ("bnd", lv, "item")
            e = f(("pair", it, ("idx", seq[1], it)))
            if e == it:
                return seq[1]
            return comp(cat((("elt", e),)), ((lv, seq[1], ()),))
        raise Undecided("elements of a mapping")

    def n_comp(self, t):
        kind, elt, gens = t[1], t[2], t[3]
        lvs = self.gen_levels(t)
        sub = {}
        out = []
        for (it, cs), lv in zip(gens, lvs):
            it2, s = self.iterate(self(subst(it, sub)), lv)
            sub.update(s)
            g = list(it2)
            cs = tuple(truth(self(subst(c, sub))) for c in cs)
            if cs:
                g.append((None, None, cs))
            out += g
        e = self(subst(elt, sub))
        e = self.simp(e)
        if kind == "dict":
            xs = items_of(e)
            e = ("pair", xs[0][1], xs[1][1])
        r = comp(cat((("elt", e),)), tuple(out))
        if kind == "set":
            return self.mk_set(r)
        if kind == "dict":
            return ("dictc", r)
        return r

    def simp(self, t):
        """Re-simplify a term after substitution of canonical parts."""
        return t

    def gen_levels(self, t):
        """Absolute levels of the generators of a comprehension term."""
        n = len(t[3])
        base = t[4] if len(t) > 4 else None
        if base is None:
            lv = [x for x in levels(t[2])] + [x for it, cs in t[3] for c in cs for x in levels(c)]
            lv += [x for it, _ in t[3][1:] for x in levels(it)]
            raise Undecided("comprehension without level")
        return [base + i for i in range(n)]

    def iterate(self, it, lv):
        """(generators, substitution for the item) of iterating over a canonical term."""
        item = ("bnd", lv, "item")
        if it[0] == "mcall" and it[2] in ("items", "values") and not it[3]:
            d = it[1]
            if d[0] == "dictc":
                seq = d[1]
                f = (lambda p: cat((("elt", p[1]), ("elt", p[2])))) if it[2] == "items" else (lambda p: p[2])
                return self.iterate(self.map_elts(seq, f), lv)
            v = ("idx", d, item)
            if it[2] == "items":
                return ((lv, d, ()),), {("idx", item, ("c", "int", 0)): item, ("idx", item, ("c", "int", 1)): v,
                                        item: ("tuple", (item, v))}
            return ((lv, d, ()),), {item: v}
        it = self.domain(it)
        if it[0] == "map" and it[1][0] == "cat" and len(it[1][1]) == 1 and it[1][1][0][0] == "elt":
            # iterate over an element-wise comprehension: fuse
            e = it[1][1][0][1]
            # levels of the inner comp are moved above to avoid capture
            gens, mp = relevel(it[2], lv)
            e = subst(e, mp)
            m = {item: e}
            if e[0] == "cat" and all(k == "elt" for k, _ in e[1]):
                for i, (_, x) in enumerate(e[1]):
                    m[("idx", item, ("c", "int", i))] = x
            return gens, m
        return ((lv, it, ()),), {}

    def n_idx(self, t):
        b, k = self(t[1]), self(t[2])
        if b[0] == "cat" and k[0] == "c" and isinstance(k[2], int) and all(x[0] == "elt" for x in b[1]) \
                and -len(b[1]) <= k[2] < len(b[1]):
            return b[1][k[2]][1]
        if b[0] == "dictc" and b[1][0] == "cat" and all(x[0] == "elt" for x in b[1][1]):
            for _, p in reversed(b[1][1]):
                if p[1] == k:
                    return p[2]
        return ("idx", b, k)

    def n_mut(self, t):
        name, b = t[1], self(t[2])
        args = self.many(t[3])
        if name in ("append", "fx") and len(args) == 1:
            return cat((*self.as_items(b), ("elt", args[0])))
        if name == "extend" and len(args) == 1:
            return cat((*self.as_items(b), *self.as_items(self.listed(args[0]))))
        if name == "update" and len(args) == 1 and b[0] == "counter" and args[0][0] != "counter":
            return ("counter", cat((*self.as_items(b[1]), *self.as_items(self.listed(args[0])))))
        if name == "[]":
            return ("dictc", cat((*self.ditems(b), ("elt", ("pair", args[0], args[1])))))
        if name == "add" and len(args) == 1:
            return self.mk_set(cat((*self.sitems(b), ("elt", args[0]))))
        if name == "update" and len(args) == 1:
            if b[0] == "bnd" and is_seq(args[0]):
                return ("mut", name, b, args)        # of a counter or of a set: known where it starts
            if args[0][0] == "setc" or is_seq(args[0]) or b[0] == "setc":
                return self.mk_set(cat((*self.sitems(b), *self.sitems(args[0]))))
            return ("dictc", cat((*self.ditems(b), *self.ditems(args[0]))))
        return ("mut", name, b, args)

    def ditems(self, d):
        return items_of(d[1]) if d[0] == "dictc" else (("seq", ("ditems", d)),)

    def sitems(self, s):
        if s[0] == "setc":
            return items_of(s[1]) if is_seq(s[1]) else (("seq", s[1]),)
        return self.as_items(s)

    # -- calls
    def n_call(self, t):
        if not isinstance(t[1], str):
            return ("call", self(t[1]), self.many(t[2]), tuple((k, self(v)) for k, v in t[3]))
        n = t[1]
        args = self.many(t[2])
        kw = tuple((k, self(v)) for k, v in t[3])
        if n in ("list", "tuple") and not kw:
            if not args:
                return ("cat", ())
            return self.listed(args[0])
        if n in ("set", "frozenset") and not kw:
            return self.mk_set(self.listed(args[0]) if args else ("cat", ()))
        if n == "dict" and len(args) == 1 and not kw:
            x = args[0]
            if x[0] == "dictc":
                return x
            if is_seq(x):
                try:
                    return ("dictc", self.map_pairs(x))
                except Undecided:
                    pass
            return ("dictc", ("ditems", x)) if not is_seq(x) else ("call", n, args, kw)
        if n in ("min", "max") and not kw:
            if len(args) == 1:
                return mk_ext(n, self.as_items(self.listed(args[0])))
            return mk_ext(n, tuple(("elt", a) for a in args))
        if n == "max" and len(args) == 1 and kw and kw[0][0] == "default" and len(kw) == 1:
            return ("call", n, (self.listed(args[0]),), kw)
        if n == "sum" and not kw and args:
            x = self.listed(args[0])
            if len(args) == 2 and is_seq(args[1]):
                return cat((*items_of(args[1]), *self.flatten(x)))
            if is_seq(x):
                r = mk_sum(x)
            else:
                r = ("sum", x)
            if len(args) == 2:
                r = from_poly(padd(to_poly(r), to_poly(args[1])))
            return r
        if n in ("itertools.chain.from_iterable",) and len(args) == 1:
            return cat(self.flatten(self.listed(args[0])))
        if n == "itertools.chain" and not kw:
            return cat([i for a in args for i in self.as_items(self.listed(a))])
        if n in ("any", "all") and len(args) == 1:
            return mk_any(self.listed(args[0]), n)
        if n == "len" and len(args) == 1:
            x = self.listed(args[0])
            if is_seq(x):
                try:
                    return mk_sum(self.ones(x))
                except Undecided:
                    pass
            return ("call", "len", (x,), ())
        if n == "isinstance" and len(args) == 2:
            cs = [x for _, x in items_of(args[1])] if args[1][0] == "cat" else [args[1]]
            flat = []
            for c in cs:
                flat += [c] if not (c[0] == "op" and c[1] == "|") else list(c[2:])
            return boolop("or", [("isinst", args[0], c) for c in flat])
        if n in ("divmod",) and len(args) == 2:
            return cat((("elt", self.arith("//", *args)), ("elt", self.arith("%", *args))))
        if n == "collections.defaultdict" and len(args) <= 1:
            return ("ddict", args)
        if n in ("sorted",) and args:
            return ("call", n, (self.listed(args[0]), *args[1:]), kw)
        if n in ("filter", "map") and len(args) == 2 and not kw and args[0][0] == "lam" and args[0][2] == 1:
            lv = fresh_level(t)
            gens, m = self.iterate(args[1], lv)
            item = ("bnd", lv, "item")
            e = m.get(item, item)
            e = self(e)
            par = ("bnd", args[0][1], "a0")
            b = self(subst(args[0][3], {par: e}))
            if n == "map":
                return comp(cat((("elt", b),)), gens)
            return comp(cat((("elt", e),)), (*gens, (None, None, (truth(b),))))
        if n == "collections.Counter" and len(args) <= 1 and not kw:
            return ("counter", self.listed(args[0]) if args else ("cat", ()))
        if n == "int" and len(args) == 1 and not kw and args[0][0] in ("fdiv", "mod", "num", "c") and is_num(args[0]):
            return args[0]
        if n in ("b_asic.types.Name", "b_asic.types.TypeName", "b_asic.types.GraphID") and len(args) == 1 and not kw \
                and args[0][0] == "call" and args[0][1] == n:
            return args[0]
        return ("call", n, args, kw)

    def listed(self, x):
        if x[0] == "mcall" and x[2] in ("values", "items") and not x[3]:
            lv = fresh_level(x)
            gens, m = self.iterate(x, lv)
            item = ("bnd", lv, "item")
            e = m.get(item, item)
            return comp(cat((("elt", self(e)),)), gens)
        x = self.domain(x)
        if x[0] == "setc":
            return x
        return x

    def map_pairs(self, seq):
        def f(e):
            if e[0] == "cat" and len(e[1]) == 2 and all(k == "elt" for k, _ in e[1]):
                return ("pair", e[1][0][1], e[1][1][1])
            raise Undecided("not a pair")
        return self.map_elts(seq, f)

    def flatten(self, x):
        """Items of the concatenation of a sequence of sequences."""
        if x[0] == "cat":
            out = []
            for k, e in x[1]:
                out += self.as_items(self.listed(e)) if k == "elt" else self.flatten(e)
            return tuple(out)
        if x[0] == "map":
            return (("seq", comp(cat(self.flatten(x[1])), x[2])),)
        raise Undecided("flatten")

    def ones(self, x):
        one = ("c", "int", 1)
        if x[0] == "cat":
            return cat(tuple(("elt", one) if k == "elt" else ("seq", self.ones(e)) for k, e in x[1]))
        if x[0] == "map":
            return comp(self.ones(x[1]), x[2])
        raise Undecided("length")

    def n_mcall(self, t):
        b = self(t[1])
        args = self.many(t[3])
        kw = tuple((k, self(v)) for k, v in t[4])
        if t[2] in self.items and len(args) == 1 and not kw:
            return self(("idx", ("attr", b, self.items[t[2]]), args[0]))
        if t[2] in ("values", "items", "keys") and not args and b[0] == "dictc":
            if t[2] == "keys":
                return self.domain(b)
            f = (lambda p: cat((("elt", p[1]), ("elt", p[2])))) if t[2] == "items" else (lambda p: p[2])
            return self.map_elts(b[1], f)
        if t[2] == "keys" and not args:
            return b
        if t[2] == "copy" and not args and (is_seq(b) or b[0] in ("dictc", "setc")):
            return b
        if t[2] == "get" and len(args) == 2 and b[0] == "dictc" and b[1][0] == "cat" and not b[1][1]:
            return args[1]
        if t[2] in ("union", "intersection", "difference") and len(args) == 1 and not kw:
            if t[2] == "union":
                return self.mk_set(cat((*self.sitems(b), *self.sitems(args[0]))))
            return self.arith({"intersection": "&", "difference": "-"}[t[2]], b, args[0])
        return ("mcall", b, t[2], args, kw)

    def n_new(self, t):
        return ("new", t[1], self.many(t[2]), self.fill(t[1], tuple((k, self(v)) for k, v in t[3])))

    def fill(self, cls, kw):
        f = self.p.lookup(cls, "__init__") if cls in self.p.classes else None
        if f is None:
            return kw
        import ast
        d = dict(kw)
        for k, e in f.defaults.items():
            if k not in d and isinstance(e, ast.Constant):
                d[k] = ("c", type(e.value).__name__, e.value)
        return tuple(sorted(d.items()))

    def n_lam(self, t):
        return ("lam", t[1], t[2], self(t[3]))

    def n_fstr(self, t):
        return ("fstr", tuple(self(x) if isinstance(x, tuple) else x for x in t[1]))

    def n_fmt(self, t):
        return ("fmt", self(t[1]), t[2], t[3])

    def n_each(self, t):
        return ("each", self(t[1]), t[2])

    def n_leaf(self, t):
        """Outcome of a function."""
        return t

    # -- loops
    def fold(self, f):
        """Canonical parts of a fold: level, iter, {name: (init, update)}, exit tree."""
        if f in self.fmemo:
            return self.fmemo[f]
        lv = f[4]
        it, inits, tree = f[1], dict(f[2]), f[3]
        sub = {}
        if it[0] == "while":
            gens = ((lv, ("while", self(it[1])), ()),)
        else:
            gens, sub = self.iterate(self(it), lv)
        tree = subst(tree, sub)
        kinds = set()

        def leaves(t):
            if t[0] == "ite":
                leaves(t[2])
                leaves(t[3])
            else:
                kinds.add(t[1][0])
        leaves(tree)

        def pick(t, g):
            if t[0] == "ite":
                return mk_ite(self(t[1]), pick(t[2], g), pick(t[3], g))
            return g(t[1])
        names = []
        def coll(t):
            if t[0] == "ite":
                coll(t[2])
                coll(t[3])
            else:
                for n, _ in (*t[1][2], *t[1][3]):
                    if n not in names:
                        names.append(n)
        coll(tree)
        res = (lv, gens, {n: self(v) for n, v in inits.items()}, kinds,
               lambda n: pick(tree, lambda l: self(dict((*l[2], *l[3])).get(n, ("bnd", lv, n)))),
               names, lambda g: pick(tree, g))
        self.fmemo[f] = res
        return res

    def n_sel(self, t):
        f, name = t[1], t[2]
        lv, gens, inits, kinds, update, names, pick = self.fold(f)
        me = ("bnd", lv, name)
        if kinds <= {"next"} and not (gens and isinstance(gens[0][1], tuple) and gens[0][1][:1] == ("while",)):
            u = update(name)
            if u == me:
                return inits.get(name, ("unset", ""))
            others = [("bnd", lv, n) for n in names if n != name]
            if not any(has_term(u, o) for o in others) and name in inits:
                r = self.reduce_loop(inits[name], u, me, gens)
                if r is not None:
                    return r
            if not any(has_term(u, o) for o in [*others, me]) and not any(has_level(u, g[0]) for g in gens):
                pass
        # generic loop, sliced to what the variable depends on
        order, todo = [], [name]
        while todo:
            n = todo.pop(0)
            if n in order:
                continue
            order.append(n)
            u = update(n)
            for m in names:
                if m not in order and has_term(u, ("bnd", lv, m)):
                    todo.append(m)
        ren = {("bnd", lv, n): ("bnd", lv, f"#{i}") for i, n in enumerate(order)}
        vs = tuple((subst(inits.get(n, ("unset", "")), {}), subst(update(n), ren)) for n in order)
        ex = ("none",)
        if kinds - {"next"}:
            ex = pick(lambda l: ("c", "str", l[0]))
            ex = subst(ex, ren)
        return ("loop", lv, gens, vs, ex)

    def reduce_loop(self, init, u, me, gens):
        """Closed form of folding me := u."""
        # conditional update
        def split(u, conds):
            if u[0] == "ite" and not has_term(u[1], me):
                return split(u[2], (*conds, u[1])) + split(u[3], (*conds, neg(u[1])))
            return [(conds, u)]
        parts = [(c, x) for c, x in split(u, ()) if x != me]
        if not parts:
            return init
        kinds = set()
        seqs = []
        for conds, x in parts:
            g = (*gens, (None, None, conds)) if conds else gens
            if x[0] == "cat" and x[1] and x[1][0] == ("seq", me):
                rest = cat(x[1][1:])
                kinds.add("list")
            elif x[0] == "dictc" and x[1][0] == "cat" and x[1][1] and x[1][1][0] == ("seq", ("ditems", me)):
                rest = cat(x[1][1][1:])
                kinds.add("dict")
            elif x[0] == "setc" and x[1][0] == "cat" and ("seq", me) in x[1][1]:
                rest = cat(tuple(i for i in x[1][1] if i != ("seq", me)))
                kinds.add("set")
            elif x[0] == "mut" and x[1] == "update" and x[2] == me and len(x[3]) == 1 and (
                    init[0] in ("counter", "setc")):
                rest = self.listed(x[3][0])
                if not is_seq(rest):
                    return None
                kinds.add("counter" if init[0] == "counter" else "set")
            elif x[0] in ("min", "max") and ("elt", me) in x[1]:
                rest = cat(tuple(i for i in x[1] if i != ("elt", me)))
                kinds.add(x[0])
            elif x[0] == "num" and dict(x[1]).get(((me, 1),)) == 1:
                p = dict(x[1])
                del p[((me, 1),)]
                rest = cat((("elt", from_poly(p)),))
                kinds.add("sum")
            else:
                return None
            if has_term(rest, me):
                return None
            seqs.append(comp(rest, g))
        if len(kinds) != 1:
            return None
        kind = kinds.pop()
        if kind in ("list", "dict") and len(seqs) > 1:
            # order matters: one sequence with conditional items
            def body(u):
                if u == me:
                    return ("cat", ())
                if u[0] == "ite":
                    return mk_ite(u[1], body(u[2]), body(u[3]))
                if kind == "list":
                    return cat(u[1][1:])
                return cat(u[1][1][1:])
            seqs = [comp(body(u), gens)]
        its = tuple(i for s in seqs for i in items_of(s))
        if kind == "list":
            return cat((*self.as_items(init), *its))
        if kind == "dict":
            return ("dictc", cat((*self.ditems(init), *its)))
        if kind == "set":
            return self.mk_set(cat((*self.sitems(init), *its)))
        if kind == "counter":
            return ("counter", cat((*self.as_items(init[1]), *its)))
        if kind in ("min", "max"):
            return mk_ext(kind, (("elt", init), *its))
        return from_poly(padd(to_poly(init), to_poly(mk_sum(cat(its)))))

    def n_fexit(self, t):
        lv, gens, inits, kinds, update, names, pick = self.fold(t[1])
        ex = pick(lambda l: TRUE if l[0] in t[2] else FALSE)
        if not any(has_term(ex, ("bnd", lv, n)) for n in names) and "break" not in kinds and kinds <= {
                "next", "ret", "raise"}:
            return mk_any(comp(cat((("elt", ex),)), gens), "any")
        return ("xexit", t[2], lv, gens, ex)

    def n_fret(self, t):
        lv, gens, inits, kinds, update, names, pick = self.fold(t[1])
        vals = []

        def g(l):
            if l[0] == t[2]:
                v = self(l[1])
                if v not in vals:
                    vals.append(v)
            return TRUE
        pick(g)
        if len(vals) == 1 and not has_level(vals[0], lv) and not any(has_level(vals[0], x[0]) for x in gens):
            return vals[0]
        ex = pick(lambda l: self(l[1]) if l[0] == t[2] else ("opq", "-"))
        return ("xret", lv, gens, ex)


def mk_any(seq, n):
    """any/all of a sequence of conditions."""
    if n == "all":
        return neg(mk_any(map_bool(seq, lambda x: neg(truth(x))), "any"))
    out = []
    for k, x in items_of(seq) if is_seq(seq) else (("seq", seq),):
        if k == "elt":
            out.append(truth(x))
        elif x[0] == "map":
            y = comp_filter(x)
            if y is not None:
                out.append(y)
        else:
            out.append(("any", x))
    return boolop("or", out)


def map_bool(seq, f):
    if seq[0] == "cat":
        return ("cat", tuple((k, f(x)) if k == "elt" else (k, map_bool(x, f)) for k, x in seq[1]))
    if seq[0] == "map":
        return ("map", map_bool(seq[1], f), seq[2])
    return ("mapnot", seq)


def comp_filter(x):
    """any(c for ...) as existence of an item passing the filter."""
    body = x[1]
    if body[0] == "cat" and all(k == "elt" for k, _ in body[1]):
        c = boolop("or", [truth(e) for _, e in body[1]])
        if c == FALSE:
            return None
        y = comp(cat((("elt", TRUE),)), (*x[2], (None, None, (c,))))
        if y == ("cat", ()):
            return None
        return ("any", y)
    return ("any", x)


def lt0(p):
    """p < 0 over the integers, with one polarity."""
    if set(p) <= {()}:
        return TRUE if p.get((), 0) < 0 else FALSE
    q = padd({m: -c for m, c in p.items()}, {(): 1}, -1)       # not (p < 0)  <=>  -p - 1 < 0
    a, b = tuple(sorted(p.items(), key=repr)), tuple(sorted(q.items(), key=repr))
    la = [c for m, c in a if m != ()][0]
    if not isinstance(la, complex) and la < 0:
        return ("not", ("lt0", b))
    return ("lt0", a)


def eq0(p):
    if set(p) <= {()}:
        return TRUE if not p else FALSE
    a = tuple(sorted(p.items(), key=repr))
    la = [c for m, c in a if m != ()][0]
    if not isinstance(la, complex) and la < 0:
        a = tuple(sorted(((m, -c) for m, c in p.items()), key=repr))
    return ("eq0", a)


def levels(t):
    if not isinstance(t, tuple):
        return set()
    if len(t) == 3 and t[0] == "bnd" and isinstance(t[1], int):
        return {t[1]}
    r = set()
    for x in t:
        r |= levels(x)
    return r


def gen_lv(t):
    """All levels bound or used in a canonical term."""
    r = levels(t)
    def walk(t):
        if isinstance(t, tuple):
            if t and t[0] == "map":
                for g in t[2]:
                    if g[0] is not None:
                        r.add(g[0])
            for x in t:
                walk(x)
    walk(t)
    return r


_FRESH = [10000]


def fresh_level(t):
    _FRESH[0] += 1
    return _FRESH[0]


def relevel(gens, lv):
    """Give the generators of a fused comprehension fresh levels."""
    m = {}
    out = []
    for l, it, cs in gens:
        if l is not None:
            n = fresh_level(None)
            mm = {x: ("bnd", n, x[2]) for x in all_bnd(gens, l)}
            mm[("bnd", l, "item")] = ("bnd", n, "item")
        else:
            n, mm = None, {}
        out.append((n, subst(it, m) if it is not None else None, tuple(subst(subst(c, m), mm) for c in cs)))
        m.update(mm)
    return tuple(out), m


def all_bnd(t, lv):
    r = set()

    def walk(t):
        if isinstance(t, tuple):
            if len(t) == 3 and t[0] == "bnd" and t[1] == lv:
                r.add(t)
            else:
                for x in t:
                    walk(x)
    walk(t)
    return r


def rename(t, depth=0, env=None):
    """Number bound variables by nesting depth."""
    env = env or {}
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "bnd" and len(t) == 3:
        return ("bnd", env.get(t[1], t[1]), t[2])
    if t[0] == "map" and len(t) == 3 and isinstance(t[2], tuple):
        e = dict(env)
        gens = []
        d = depth
        for lv, it, cs in t[2]:
            it2 = rename(it, d, e) if it is not None else None
            if lv is not None:
                e[lv] = d
                d += 1
            cs2 = tuple(sorted((rename(c, d, e) for c in cs), key=repr))
            gens.append((e.get(lv), it2, cs2))
        return ("map", rename(t[1], d, e), tuple(gens))
    if t[0] == "loop" and len(t) == 5:
        e = dict(env)
        gens = []
        d = depth
        lvs = [g[0] for g in t[2] if g[0] is not None]
        if t[1] not in lvs:
            e[t[1]] = d
            d += 1
        for lv, it, cs in t[2]:
            it2 = rename(it, d, e) if it is not None else None
            if lv is not None:
                e[lv] = d
                d += 1
            gens.append((e.get(lv), it2, tuple(sorted((rename(c, d, e) for c in cs), key=repr))))
        vs = tuple((rename(i, depth, env), rename(u, d, e)) for i, u in t[3])
        return ("loop", e[t[1]], tuple(gens), vs, rename(t[4], d, e))
    if t[0] in ("xexit", "xret"):
        e = dict(env)
        d = depth
        gens = []
        lv0 = t[-3]
        if lv0 not in [g[0] for g in t[-2]]:
            e[lv0] = d
            d += 1
        for lv, it, cs in t[-2]:
            it2 = rename(it, d, e) if it is not None else None
            if lv is not None:
                e[lv] = d
                d += 1
            gens.append((e.get(lv), it2, tuple(sorted((rename(c, d, e) for c in cs), key=repr))))
        return (*t[:-3], e[lv0], tuple(gens), rename(t[-1], d, e))
    if t[0] == "lam":
        e = dict(env)
        e[t[1]] = depth
        return ("lam", depth, t[2], rename(t[3], depth + 1, e))
    r = tuple(rename(x, depth, env) for x in t)
    if r[0] in ("and", "or") and len(r) == 2:
        return (r[0], tuple(sorted(r[1], key=repr)))
    if r[0] in ("num", "lt0", "eq0"):
        return (r[0], tuple(sorted(((tuple(sorted(m, key=repr)), c) for m, c in r[1]), key=repr)))
    if r[0] in ("min", "max") and len(r) == 2:
        return (r[0], tuple(sorted(r[1], key=repr)))
    if r[0] == "setc" and r[1][0] == "cat":
        return ("setc", ("cat", tuple(sorted(r[1][1], key=repr))))
    return r


def trivial_getters(prog, quals=None):
    """Property names that, wherever defined, just return one private field of the same kind."""
    import ast
    seen, bad = {}, set()
    for f in prog.funcs.values():
        if f.kind != "property" or f.abstract:
            continue
        body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        fld = None
        if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Attribute) \
                and isinstance(body[0].value.value, ast.Name) and f.params and body[0].value.value.id == f.params[0]:
            fld = body[0].value.attr
            if quals is not None:
                quals.add(f.qual)
        if fld is None or seen.get(f.name, fld) != fld:
            bad.add(f.name)
        else:
            seen[f.name] = fld
    return {k: v for k, v in seen.items() if k not in bad}


def simple_accessors(prog, quals):
    """Properties that everywhere are the length, and methods that everywhere are an item, of one field."""
    import ast
    lens, items, bad = {}, {}, set()
    for f in prog.funcs.values():
        if f.cls is None or f.abstract or f.kind not in ("property", "method") and f.kind:
            continue
        body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        v = body[0].value if len(body) == 1 and isinstance(body[0], ast.Return) else None
        me = f.params[0] if f.params else None

        def field(e):
            return e.attr if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == me else None
        form = None
        if f.kind == "property":
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "len" and len(v.args) == 1:
                form = (lens, field(v.args[0]))
        elif isinstance(v, ast.Subscript) and isinstance(v.slice, ast.Name) and len(f.params) == 2 and \
                v.slice.id == f.params[1]:
            form = (items, field(v.value))
        if form is not None and form[1] is not None:
            quals.add(f.qual)
        if form is None or form[1] is None or form[0].get(f.name, form[1]) != form[1]:
            bad.add(f.name)
        else:
            form[0][f.name] = form[1]
    return ({k: v for k, v in lens.items() if k not in bad}, {k: v for k, v in items.items() if k not in bad})


def solid_containers(prog):
    """Fields declared, wherever they are, as a container whose items are plain numbers."""
    import ast
    seen, bad = set(), set()
    for c in prog.classes.values():
        for n, a in c.ann.items():
            t = ast.unparse(a) if isinstance(a, ast.AST) else str(a)
            if t.startswith(("dict[", "list[", "defaultdict[")) and t.endswith((" int]", "[int]")):
                seen.add(n)
            else:
                bad.add(n)
    return seen - bad
