"""Comparison of a function of the program with a reference definition.

Both are value-numbered (sa/symval.py) under the same policy: private helpers are
expanded, public functions stay symbolic.  The outcomes (returned value, raised
exception, changed fields, calls made for their effect) form a decision tree that is
brought to canonical form (sa/canon.py) and compared case by case.
"""

from __future__ import annotations

import ast
from itertools import combinations

from .canon import (DIFF, EQ, FALSE, NONE, TRUE, UNK, Canon, Undecided, boolop, eq0, from_poly, has_level, is_bool,
                    is_num, is_seq, items_of, lt0, mk_ite, neg, cat, padd, rename, to_poly)
from .symval import SV, Blowup, show

IGNORED_CALLS = {"print", "warnings.warn", "logging.debug", "logging.info", "logger.debug", "logger.info"}


def exc_name(v):
    while isinstance(v, tuple) and v and v[0] in ("new", "call"):
        v = v[1]
    if isinstance(v, tuple) and v[0] == "ref":
        v = v[1]
    return v if isinstance(v, str) else "?"


CLASSES: dict = {}       # class -> its bases, for isinstance facts
LEAVES_OF: dict = {}


class RefCompare:
    def __init__(self, p, opaque=(), expand=(), known=None, limit=4000):
        self.p = p
        self.canon = Canon(p)
        self.opaque = set(opaque)
        self.expand = set(expand)
        self.known = known            # names of the public functions references may mention
        self.limit = limit
        self.ignore, self.parts = set(), set()

    # ------------------------------------------------------------ terms
    def inline(self, f):
        if f.qual in self.opaque or f.name in self.opaque:
            return False
        if f.qual in self.expand or f.nested or f.kind == "setter" and "setters" in self.expand or f.name in self.expand:
            return True
        if f.name.startswith("__"):
            return f.name == "__init__" and False
        if f.name.startswith("_"):
            return f.cls is None or f.cls in self.mro
        if f.qual in self.canon.getters and f.cls in self.mro:
            return True
        return self.known is not None and f.qual not in self.known

    def outcomes(self, f, cls, args=None, heap=None):
        self.mro = set(self.p.classes[cls].mro) if cls else set()
        sv = SV(self.p, cls, inline=self.inline, depth=6, cap=400)
        sv.ref = True
        if f.cls is None and cls and f.params:
            args = {f.params[0]: ("p", "self"), **(args or {})}
        outs = sv.run(f, args, heap)
        return sv, outs, dict(heap or {})

    def meaning(self, f, cls, args=None, heap=None, keep=None):
        """Canonical decision tree of outcomes of f."""
        sv, outs, heap0 = self.outcomes(f, cls, args, heap)
        self.leaves = []
        lst = []
        for conds, kind, v, st in outs:
            if kind == "raise":
                leaf = ("leaf", "raise", ("c", "str", exc_name(v)), ())
            else:
                hp = []
                for k, x in st.heap.items():
                    if k[0] in ("rz",) or x == heap0.get(k, sv.heap_default(k)) or x == k:
                        continue
                    hp.append((k, x))
                leaf = ("leaf", "ret", v if kind == "ret" else NONE, tuple(sorted(hp, key=repr)))
            self.leaves.append(leaf)
            lst.append((conds, leaf))
        return self.tree(lst)

    def tree(self, outs):
        if len(outs) == 1 or all(t == outs[0][1] for _, t in outs):
            return self.leaf(outs[0][1])
        c0 = next((conds[0][0] for conds, _ in outs if conds), None)
        if c0 is None:
            return self.leaf(outs[-1][1])
        yes, no = [], []
        for conds, t in outs:
            if conds and conds[0][0] == c0:
                (yes if conds[0][1] else no).append((conds[1:], t))
            else:
                yes.append((conds, t))
                no.append((conds, t))
        if not yes:
            return self.tree(no)
        if not no:
            return self.tree(yes)
        c = self.canon(c0)
        y, n = self.tree(yes), self.tree(no)
        if c[0] in ("p", "attr", "idx"):
            y = self.not_none(y, c)
        return mk_ite(c, y, n)

    @classmethod
    def not_none(cls, t, x):
        """t where x is true, thus not None."""
        if not isinstance(t, tuple):
            return t
        if t == ("is", x, NONE):
            return FALSE
        if t and t[0] == "ite":
            g = cls.not_none(t[1], x)
            if g == FALSE:
                return cls.not_none(t[3], x)
            if g == TRUE:
                return cls.not_none(t[2], x)
            return mk_ite(g, cls.not_none(t[2], x), cls.not_none(t[3], x))
        if t and t[0] == "not":
            return neg(cls.not_none(t[1], x))
        if t and t[0] in ("and", "or") and len(t) == 2:
            return boolop(t[0], [cls.not_none(y, x) for y in t[1]])
        return tuple(cls.not_none(y, x) for y in t)

    def leaf(self, l):
        _, kind, v, hp = l
        if kind == "raise":
            return l
        out = {}
        for k, x in hp:
            x = self.canon(x)
            if k == ("fx",):
                items = tuple(i for i in items_of(x) if not self.ignored(i))
                if items:
                    out[("fx",)] = cat(items)
                continue
            key = (k[0], *[self.canon(y) if isinstance(y, tuple) else self.canon.alias.get(y, y) for y in k[1:]])
            d = self.canon(k) if k[0] in ("attr", "idx") else None
            if x != d:
                out[key] = x
        return ("leaf", kind, self.canon(v), tuple(sorted(out.items(), key=repr)))

    @staticmethod
    def ignored(i):
        t = i[1]
        return i[0] == "elt" and t[0] == "call" and isinstance(t[1], str) and (
            t[1] in IGNORED_CALLS or t[1].startswith("logging."))

    # ------------------------------------------------------------ comparison
    def compare(self, got, want, vocab):
        self.n = 0
        self.vocab = vocab
        want = rename(want)
        self.wsub = subterms(want, set())
        self.wnames = {t[2] for t in self.wsub if t[0] in ("attr", "mcall") and isinstance(t[2], str)} | {
            t[1] for t in self.wsub if t[0] == "call" and isinstance(t[1], str)}
        CLASSES.clear()
        CLASSES.update({q: set(c.mro) for q, c in self.p.classes.items()})
        LEAVES_OF.clear()
        self.memo = {}
        return self.cmp(rename(got), want, ())

    def own(self, t):
        """Is t a quantity the reference itself speaks about?"""
        if t[0] == "c":
            return not isinstance(t[2], str) or t in self.wsub
        if t[0] == "num":
            return all(self.own(a) for a in atoms(dict(t[1])))
        return t in self.wsub and t[0] in ("p", "attr", "idx", "mcall", "call", "bnd", "mod", "fdiv", "ref", "min",
                                           "max", "sum")

    def cmp(self, a, b, facts):
        """(verdict, text)"""
        self.n += 1
        if self.n > self.limit:
            return UNK, "too many cases"
        if a == b:
            return EQ, ""
        if a[0] == "ite" or b[0] == "ite":
            return self.split(a, b, facts)
        if a[0] == "cat" and b[0] in ("cat", "map"):
            hc = h_cat(a, b)
            if hc:
                return self.split(*hc, facts)
        for x, y in ((a, b), (b, a)):
            if x[0] in ("call", "mcall") and y in x and str(x[1 if x[0] == "call" else 2]).endswith("copy") or (
                    x[0] == "call" and x[1] == "copy.copy" and x[2] == (y,)):
                return UNK, "copy"
        r = self.cmp1(a, b, facts)
        if r[0] == UNK and self.own(a) and self.own(b) and not {a[0], b[0]} & {"sum", "c"} and not (
                a[0] in ("min", "max") and b[0] in ("min", "max")):
            return DIFF, f"{ctext(a)} instead of {ctext(b)}"
        if r[0] == UNK and self.differ(a, b, facts):
            return DIFF, f"{ctext(a)} instead of {ctext(b)}"
        if r[0] == UNK and b[0] in ("min", "max") and ("elt", a) in b[1]:
            return DIFF, f"only {ctext(a)} instead of {ctext(b)}"
        if r[0] == UNK and h_cat(a, b):
            return self.split(*h_cat(a, b), facts)
        if r[0] == UNK:
            x = inner_ite(a) or inner_ite(b)
            if x is not None:
                r2 = self.split(("ite", x[1], a, a), ("ite", x[1], b, b), facts)
                if r2[0] != UNK:
                    return r2
        return r

    def pure(self, t):
        """A scalar term all of whose functions and fields the reference mentions too."""
        if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
            return False
        k = t[0]
        if k in ("c", "p", "bnd"):
            return True
        if k == "ref":
            return t[1] in self.vocab
        if k == "num":
            return all(self.pure(a) for a in atoms(dict(t[1])))
        if k in ("lt0", "eq0"):
            return all(self.pure(a) for a in atoms(dict(t[1])))
        if k == "attr":
            return (t[2] in self.wnames or t[2].startswith("_") and t[2] in self.vocab) and self.pure(t[1])
        if k in ("idx", "mod", "fdiv", "eq", "is", "not", "ite"):
            return all(self.pure(x) for x in t[1:])
        if k == "in":
            return self.pure(t[1]) and (self.pure(t[2]) or t[2][0] == "cat" and self.pure_items(t[2][1]))
        if k == "isinst":
            return self.pure(t[1]) and self.pure(t[2])
        if k in ("and", "or"):
            return all(self.pure(x) for x in t[1])
        if k in ("min", "max"):
            return self.pure_items(t[1])
        if k == "op":
            return t[1] == "/" and all(self.pure(x) for x in t[2:])
        if k == "call":
            return (t[1] in ("abs", "len") or t[1] in self.wnames) and all(self.pure(x) for x in t[2]) and not t[3]
        if k == "mcall":
            return t[2] in self.wnames and self.pure(t[1]) and all(self.pure(x) for x in t[3]) and not t[4]
        return False

    def pure_items(self, items):
        return all(k == "elt" and self.pure(x) for k, x in items)

    def differ(self, a, b, facts):
        """Two different normal forms of scalars over the same functions and fields."""
        if is_bool(a) != is_bool(b) or not self.pure(a) or not self.pure(b):
            return False
        if is_bool(a):
            return not self.related(a, b)
        for x, y in ((a, b), (b, a)):
            if x[0] == "c" and any(equates(f, y) for f, v in facts):
                return False
        ma, mb = ({x for x in subterms(t, set()) if x[0] in ("min", "max")} for t in (a, b))
        if ma and mb and ma != mb:
            return False
        if all(any(x[0] == "op" for x in subterms(t, set())) for t in (a, b)):
            return False
        da, db = ({x[0] for x in subterms(t, set()) if x[0] in ("mod", "fdiv")} for t in (a, b))
        return len(da | db) < 2 or not (da and db and da != db)

    def related(self, c, d):
        """May the conditions c and d be two ways to say the same?"""
        if not self.pure(c) or not self.pure(d):
            return True
        c, d = (x[1] if x[0] == "not" else x for x in (c, d))
        if c[0] in ("and", "or") or d[0] in ("and", "or"):
            cs = c[1] if c[0] in ("and", "or") else (c,)
            ds = d[1] if d[0] in ("and", "or") else (d,)
            return any(self.related(x, y) for x in cs for y in ds if x != y)
        if c[0] == d[0] and c[0] in ("lt0", "eq0", "is", "in", "eq"):
            return c[0] == "in" and "cat" in (c[2][0], d[2][0]) and c[1] == d[1]
        if {c[0], d[0]} == {"lt0", "eq0"}:
            return atoms(dict(c[1])) == atoms(dict(d[1]))
        for x, y in ((c, d), (d, c)):
            if not is_bool(x):                      # truth of a value
                if y[0] != "in" and has(y, x) or not is_bool(y) and has(x, y):
                    return True
            elif x[0] == "in":
                if (x[2][0] == "cat" or y[0] == "isinst") and has(y, x[1]):
                    return True
            elif x[0] == "isinst":
                if has(y, x[1]):
                    return True
        if c[0] == "eq" or d[0] == "eq":
            o = d if c[0] == "eq" else c
            return o[0] in ("is", "eq0") and (has(o, c[1]) or has(o, c[2]))
        return False

    def cmp1(self, a, b, facts):
        h, g = a[0], b[0]
        if h == "leaf" and g == "leaf":
            return self.leaves_cmp(a, b, facts)
        if "leaf" in (h, g):
            return UNK, "leaf"
        if is_bool(a) and is_bool(b):
            return self.bool_cmp(a, b, facts)
        na, nb = h == "num" or is_num(a), g == "num" or is_num(b)
        if na or nb:
            if h == "c" and g == "c":
                return DIFF, f"{a[2]!r} instead of {b[2]!r}"
            return self.poly_cmp(a, b, facts)
        for x, y in ((a, b), (b, a)):
            if x[0] == "mod" and x[1] == y and y[0] == "bnd":
                return DIFF, f"{ctext(a)} instead of {ctext(b)}"
        if h != g:
            if h == "p" and g == "new" and b[1] in self.vocab:
                return DIFF, f"{ctext(a)} itself instead of a new {b[1].rsplit('.')[-1]}"
            if {h, g} == {"min", "max"} and a[1] == b[1]:
                return DIFF, f"{h} instead of {g}"
            for x, y in ((a, b), (b, a)):
                if x[0] == "slice" and x[1] == y and set(x[2:]) - {NONE, ("c", "int", 0)} and self.own(y):
                    return DIFF, f"{ctext(a)} instead of {ctext(b)}"
            if {h, g} == {"mod", "fdiv"} and a[1:] == b[1:]:
                return DIFF, f"{ctext(a)} instead of {ctext(b)}"
            return UNK, f"{h} / {g}"
        if h == "c":
            return DIFF, f"{a[2]!r} instead of {b[2]!r}"
        if h == "p":
            return DIFF, f"{a[1]} instead of {b[1]}"
        if h == "bnd":
            return (DIFF if a[2] == b[2] == "item" else UNK), "other loop variable"
        if h == "ref":
            if a[1] in self.vocab and b[1] in self.vocab:
                return DIFF, f"{a[1]} instead of {b[1]}"
            return UNK, "ref"
        if h == "attr":
            v, t = self.cmp(a[1], b[1], facts)
            if a[2] == b[2]:
                return v, t
            if v == EQ and a[2] in self.vocab and b[2] in self.vocab:
                return DIFF, f".{a[2]} instead of .{b[2]} of {show(b[1])}"
            return UNK, f".{a[2]} / .{b[2]}"
        if h in ("idx", "pair", "mod", "fdiv", "isinst"):
            return self.all([self.cmp(x, y, facts) for x, y in zip(a[1:], b[1:])])
        if h in ("op",):
            r = self.all([self.cmp(x, y, facts) for x, y in zip(a[2:], b[2:])])
            if a[1] != b[1]:
                return (DIFF, f"{a[1]} instead of {b[1]}") if r[0] == EQ else (UNK, "operator")
            return r
        if h == "cat":
            return self.items_cmp(a[1], b[1], facts)
        if h in ("min", "max"):
            return self.table_cmp(a[1], b[1], facts)
        if h == "setc":
            if a[1][0] == b[1][0] == "cat":
                return self.table_cmp(a[1][1], b[1][1], facts)
            return self.cmp(a[1], b[1], facts)
        if h in ("dictc", "sum", "any", "ditems", "counter"):
            return self.cmp(a[1], b[1], facts)
        if h == "map":
            return self.comp_cmp(a, b, facts)
        if h == "mcall":
            r = [self.cmp(a[1], b[1], facts)]
            if a[2] != b[2]:
                rest = self.all([*r, self.args_cmp(a[3], b[3], facts)])
                if rest[0] == EQ and a[2] in self.vocab and b[2] in self.vocab:
                    return DIFF, f".{a[2]}() instead of .{b[2]}()"
                return UNK, "method"
            return self.all([*r, self.args_cmp(a[3], b[3], facts, a[2]), self.kw_cmp(a[4], b[4], facts)])
        if h == "call":
            if a[1] != b[1]:
                if isinstance(a[1], str) and isinstance(b[1], str) and a[1] in self.vocab and b[1] in self.vocab \
                        and self.all([self.args_cmp(a[2], b[2], facts), self.kw_cmp(a[3], b[3], facts)])[0] == EQ:
                    return DIFF, f"{a[1]}() instead of {b[1]}()"
                if not (isinstance(a[1], tuple) and isinstance(b[1], tuple)):
                    return UNK, "function"
                return self.all([self.cmp(a[1], b[1], facts), self.args_cmp(a[2], b[2], facts)])
            return self.all([self.args_cmp(a[2], b[2], facts), self.kw_cmp(a[3], b[3], facts)])
        if h == "new":
            if a[1] != b[1]:
                return (DIFF, f"{a[1]} instead of {b[1]}") if b[1] in self.vocab and a[1] in self.vocab else (UNK, "class")
            return self.all([self.args_cmp(a[2], b[2], facts), self.kw_cmp(a[3], b[3], facts)])
        if h == "loop":
            return self.loop_cmp(a, b, facts)
        if h == "lam" and a[1:3] == b[1:3]:
            return self.cmp(a[3], b[3], facts)
        if h == "mut" and a[1] == b[1] and len(a[3]) == len(b[3]):
            return self.all([self.cmp(a[2], b[2], facts), self.args_cmp(a[3], b[3], facts)])
        if h == "mut" and a[1] != b[1]:
            return UNK, "mutation"
        if h == "fstr":
            return UNK, "text"
        if h in ("xexit", "xret") and len(a) == len(b):
            if a[-2] != b[-2] and a[1:-2] != b[1:-2]:
                return UNK, h
            return self.cmp(a[-1], b[-1], facts) if a[-2] == b[-2] else (UNK, h)
        if h == "slice":
            return self.all([self.cmp(x, y, facts) for x, y in zip(a[1:], b[1:])])
        return UNK, h

    @staticmethod
    def all(rs):
        if any(r[0] == UNK for r in rs):
            return next(r for r in rs if r[0] == UNK)
        for r in rs:
            if r[0] == DIFF:
                return r
        return EQ, ""

    def args_cmp(self, a, b, facts, name=None):
        if len(a) != len(b):
            if name and len(a) < len(b) and a == b[:len(a)]:
                gs = [f for f in self.p.funcs.values() if f.name == name and f.cls and len(f.params) > len(b)]
                ds = {ast.dump(f.defaults[f.params[i + 1]]) if f.params[i + 1] in f.defaults else None
                      for f in gs for i in range(len(a), len(b))}
                if len(ds) == 1 and len(b) == len(a) + 1:
                    d = ds.pop()
                    if d is None or b[-1][0] != "c" or d != ast.dump(ast.Constant(b[-1][2])):
                        return DIFF, f"argument {ctext(b[-1])} is not passed"
            return UNK, "argument count"
        return self.all([self.cmp(x, y, facts) for x, y in zip(a, b)])

    def kw_cmp(self, a, b, facts):
        da, db = dict(a), dict(b)
        rs = []
        for k in [*db, *(x for x in da if x not in db)]:
            if k not in da:
                rs.append((DIFF, f"{k}= is not passed"))
            elif k not in db:
                rs.append((UNK, f"{k}= passed"))
            else:
                v, t = self.cmp(da[k], db[k], facts)
                rs.append((v, f"{k}: {t}"))
        return self.all(rs)

    def leaves_cmp(self, a, b, facts):
        if a[1] != b[1]:
            return DIFF, ("raises " + str(a[2][2]) if a[1] == "raise" else "does not raise " + str(b[2][2]))
        if a[1] == "raise":
            return (EQ, "") if a[2] == b[2] else (DIFF, f"raises {a[2][2]} instead of {b[2][2]}")
        v, t = self.cmp(a[2], b[2], facts)
        rs = [(v, f"returned value: {t}")]
        da, db = ({k: x for k, x in l[3] if not (len(k) > 2 and k[2] in self.ignore)} for l in (a, b))
        for k in [*db, *(x for x in da if x not in db)]:
            name = "effects" if k == ("fx",) else show(k) if k[0] == "attr" else str(k[0])
            if k == ("fx",) and (k not in da or k not in db):
                v, t = self.cmp(da.get(k, ("cat", ())), db.get(k, ("cat", ())), facts)
                rs.append((v, f"{name}: {t}"))
            elif k not in da:
                if db[k] == k:
                    continue
                if inner_ite(db[k]) and k[0] == "attr":
                    v, t = self.cmp(k, db[k], facts)
                    rs.append((v, f"{name}: {t}"))
                elif any(x not in db and x[0] == k[0] and (k[0] != "attr" or x[2] == k[2]) for x in da):
                    rs.append((UNK, f"{name} is updated under another name"))
                else:
                    rs.append((DIFF, f"{name} is not updated"))
            elif k not in db:
                if da[k] == k:
                    continue
                if k[0] == "attr" and k[2] in self.vocab and inner_ite(da[k]):
                    v, t = self.cmp(da[k], k, facts)
                    rs.append((v, f"{name}: {t}"))
                elif k[0] == "attr" and k[2] in self.vocab:
                    rs.append((DIFF, f"{name} is changed"))
                elif k[0] == "attr" and k[2].startswith("_"):
                    continue          # a new private field
                else:
                    rs.append((UNK, f"{name} is changed"))
            else:
                v, t = self.cmp(da[k], db[k], facts)
                rs.append((v, f"{name}: {t}"))
        for v, t in rs:
            if v == DIFF and not any("under another name" in u for _, u in rs):
                return v, t
        return self.all(rs)

    def items_cmp(self, a, b, facts, ordered=True):
        if not ordered:
            b2, a2 = [x for x in b if x not in a], [x for x in a if x not in b]
        else:
            a2, b2 = list(a), list(b)
            while a2 and b2 and a2[0] == b2[0]:
                a2, b2 = a2[1:], b2[1:]
            while a2 and b2 and a2[-1] == b2[-1]:
                a2, b2 = a2[:-1], b2[:-1]
        if not a2 and not b2:
            return EQ, ""
        if not a2:
            return DIFF, "an item is missing: " + show(b2[0][1])[:120]
        if not b2:
            if all(i[0] == "elt" and i[1][0] in ("call", "mcall") for i in a2):
                return UNK, "extra items"
            return DIFF, "an extra item: " + show(a2[0][1])[:120]
        if len(a2) != len(b2) or any(x[0] != y[0] for x, y in zip(a2, b2)):
            for x, y in ((a2, b2), (b2, a2)):
                if ordered and all(i[0] == "elt" for i in x) and any(self.unbounded(i) for i in y):
                    return DIFF, f"{ctext(('cat', tuple(a2)))} instead of {ctext(('cat', tuple(b2)))}"
            return UNK, "items"
        rs = [self.cmp(x[1], y[1], facts) for x, y in zip(a2, b2)]
        if ordered and len(a2) > 1 and sorted(a2, key=repr) == sorted(b2, key=repr):
            return UNK, "order"
        return self.all(rs)

    def unbounded(self, item):
        """A spliced sequence of any length."""
        k, x = item
        if k != "seq":
            return False
        if x[0] == "map":
            return len(x[2]) == 1 and x[2][0][1] is not None and not x[2][0][2] and x[1][0] == "cat" and \
                len(x[1][1]) > 0 and self.unbounded(("seq", x[2][0][1]))
        return x[0] in ("attr", "mcall", "p") and self.pure(x)

    def table_cmp(self, a, b, facts):
        """Unordered items, alternatives of one loop spread over several filtered items."""
        a2, b2 = [x for x in a if x not in b], [x for x in b if x not in a]
        if len(a2) == len(b2) <= 1:
            return self.items_cmp(a2, b2, facts, ordered=False)

        def groups(items):
            g = {}
            for k, x in items:
                if k == "elt" or x[0] != "map":
                    g.setdefault(("-", k, x), []).append(((), x))
                else:
                    key = tuple((lv, it) for lv, it, cs in x[2])
                    cs = tuple(c for _, _, cs in x[2] for c in cs)
                    g.setdefault(key, []).append((cs, x[1]))
            return g
        ga, gb = groups(a2), groups(b2)
        keys = [k for k in {*ga, *gb}]
        if len(keys) == 2 and len(ga) == 1 and len(gb) == 1 and "-" not in (keys[0][0], keys[1][0]):
            return UNK, "loops"
        rs = []
        for k in sorted(keys, key=repr):
            pa, pb = ga.get(k, []), gb.get(k, [])
            if k[0] == "-":
                if len(a2) != len(b2):
                    rs.append((DIFF, ("an item is missing: " if pb else "an extra item: ") + ctext(k[2])))
                else:
                    rs.append((UNK, "items"))
                continue
            rs.append(self.case_table(pa, pb, facts))
        return self.all(rs)

    def case_table(self, pa, pb, facts):
        ca, cb = [], []
        for ps, out in ((pa, ca), (pb, cb)):
            for cs, _ in ps:
                for c in cs:
                    for x in conds(("ite", c, TRUE, TRUE)):
                        if x not in out:
                            out.append(x)
        oa, ob = [c for c in ca if c not in cb], [c for c in cb if c not in ca]
        if oa and ob:
            return UNK, "conditions of another form"
        cs = sorted({*ca, *cb}, key=repr)
        if len(cs) > 8:
            return UNK, "too many conditions"
        for n in range(2 ** len(cs)):
            f2 = tuple((c, bool(n >> i & 1)) for i, c in enumerate(cs))
            if infeasible((*facts, *f2)):
                continue

            def emitted(ps):
                out = []
                for conds_, body in ps:
                    if all(truth_of(c, f2) for c in conds_):
                        out.append(body)
                return out
            ea, eb = emitted(pa), emitted(pb)
            da, db = [x for x in ea if x not in eb], [x for x in eb if x not in ea]
            if not da and not db:
                continue
            w = " and ".join((ctext(c) if v else f"not ({ctext(c)})") for c, v in f2) or "always"
            if not da:
                return DIFF, f"when {w}: an item is missing: {ctext(db[0])}"
            if not db:
                return DIFF, f"when {w}: an extra item: {ctext(da[0])}"
            if len(da) == len(db) == 1:
                for c, v in f2:
                    da[0], db[0] = assume(da[0], c, v, f2), assume(db[0], c, v, f2)
                v, t = self.cmp(da[0], db[0], (*facts, *f2))
                if v != EQ:
                    return v, f"when {w}: {t}"
                continue
            return UNK, "items"
        return EQ, ""

    def comp_cmp(self, a, b, facts):
        if len(a[2]) != len(b[2]):
            return UNK, "loops"
        rs = []
        for (l, it, cs), (m, jt, ds) in zip(a[2], b[2]):
            if (it is None) != (jt is None):
                return UNK, "loops"
            if it is not None:
                rs.append(self.cmp(it, jt, facts))
            rs.append(self.bool_cmp(boolop("and", cs), boolop("and", ds), facts))
        rs.append(self.cmp(a[1], b[1], facts))
        return self.all(rs)

    def loop_cmp(self, a, b, facts):
        if len(a[2]) != len(b[2]) or len(a[3]) != len(b[3]):
            return UNK, "loop shape"
        rs = []
        for (l, it, cs), (m, jt, ds) in zip(a[2], b[2]):
            if (it is None) != (jt is None):
                return UNK, "loops"
            if it is not None:
                if it[0] == "while" and jt[0] == "while":
                    rs.append(self.cmp(it[1], jt[1], facts))
                else:
                    rs.append(self.cmp(it, jt, facts))
            rs.append(self.bool_cmp(boolop("and", cs), boolop("and", ds), facts))
        for (i, u), (j, w) in zip(a[3], b[3]):
            rs.append(self.cmp(i, j, facts))
            rs.append(self.cmp(u, w, facts))
        rs.append(self.cmp(a[4], b[4], facts))
        return self.all(rs)

    def bool_cmp(self, a, b, facts):
        if a == b:
            return EQ, ""
        if a in (TRUE, FALSE) or b in (TRUE, FALSE):
            if a in (TRUE, FALSE) and b in (TRUE, FALSE):
                return DIFF, f"{a[2]} instead of {b[2]}"
            x = a if b in (TRUE, FALSE) else b
            if x[0] in ("and", "or", "lt0", "eq0", "isinst", "in", "is", "attr", "not"):
                return DIFF, f"condition {ctext(b)} became {ctext(a)}"
            return UNK, "condition"
        if a[0] == "not" or b[0] == "not":
            if neg(a) == b:
                return DIFF, f"condition {ctext(b)} is negated"
            if a[0] == b[0] == "not":
                return self.bool_cmp(a[1], b[1], facts)
            if {a[0], b[0]} == {"not", "lt0"}:
                x, y = (a[1], b) if a[0] == "not" else (b[1], a)
                # not (p < 0) against q < 0: different half spaces of the same or other quantity
                if x[0] == "lt0" and y[0] == "lt0":
                    return self.poly_diff(dict(x[1]), dict(y[1]), facts, f"condition {ctext(b)} became {ctext(a)}")
            return UNK, "condition"
        if a[0] in ("and", "or") or b[0] in ("and", "or"):
            o = a[0] if a[0] in ("and", "or") else b[0]
            if a[0] in ("and", "or") and b[0] in ("and", "or") and a[0] != b[0]:
                if set(a[1]) == set(b[1]):
                    return DIFF, f"condition {ctext(b)} became {ctext(a)}"
                return UNK, "condition"
            xa = set(a[1]) if a[0] == o else {a}
            xb = set(b[1]) if b[0] == o else {b}
            oa, ob = xa - xb, xb - xa
            if not oa or not ob:
                return DIFF, f"condition {ctext(b)} became {ctext(a)}"
            if len(oa) == len(ob) == 1:
                return self.bool_cmp(oa.pop(), ob.pop(), facts)
            return UNK, "condition"
        if a[0] in ("lt0", "eq0") and b[0] in ("lt0", "eq0"):
            txt = f"condition {ctext(b)} became {ctext(a)}"
            return self.poly_diff(dict(a[1]), dict(b[1]), facts, txt, a[0] != b[0])
        if a[0] == b[0]:
            if a[0] in ("isinst", "in", "is", "eq", "lt"):
                v, t = self.all([self.cmp(x, y, facts) for x, y in zip(a[1:], b[1:])])
                return v, f"condition: {t}"
            if a[0] == "any":
                return self.cmp(a[1], b[1], facts)
        if not is_bool(a) and not is_bool(b):
            return self.cmp(a, b, facts)
        return UNK, "condition"

    def poly_diff(self, p, q, facts, txt, other=False):
        """Are two polynomials (of conditions) understood to differ?"""
        if p == q:
            return (DIFF, txt) if other else (EQ, "")
        if padd(p, q) == {} and other:
            return DIFF, txt
        v, t = self.poly_cmp(from_poly(p), from_poly(q), facts)
        return (v, txt) if v == DIFF else (v, t)

    def poly_cmp(self, a, b, facts):
        p, q = to_poly(a), to_poly(b)
        if p == q:
            return EQ, ""
        # alternatives inside an arithmetic expression
        for x in atoms(p) | atoms(q):
            if x[0] == "ite":
                return self.split(("ite", x[1], psub(p, x, x[2]), psub(p, x, x[3])),
                                  ("ite", x[1], psub(q, x, x[2]), psub(q, x, x[3])), facts)
        only_a = {m: c for m, c in p.items() if q.get(m) != c}
        only_b = {m: c for m, c in q.items() if p.get(m) != c}
        txt = f"{show_t(a)} instead of {show_t(b)}"
        at = atoms(p) | atoms(q)
        if any(not isinstance(x, tuple) or x[0] in ("c", "opq", "cat", "map", "dictc", "fstr") for x in at):
            return UNK, "value"
        if any(x[0] == "fdiv" for x in at) and any(x[0] == "mod" for x in at):
            return UNK, "division"
        if any(x[0] == "min" for x in at) and any(x[0] == "max" for x in at) and atoms(p) != atoms(q):
            return UNK, "min/max"
        ap, aq = atoms(p), atoms(q)
        if ap <= aq or aq <= ap:
            return DIFF, txt
        xa, xb = ap - aq, aq - ap
        if len(xa) == len(xb):
            # pair the atoms that differ
            rs = []
            left = sorted(xb, key=repr)
            for x in sorted(xa, key=repr):
                best = None
                for y in left:
                    if psub(p, x, y) is not None:
                        r = self.cmp(x, y, facts)
                        if r[0] == DIFF:
                            best = (y, r)
                            break
                        if r[0] == EQ:
                            best = (y, r)
                            break
                if best is None:
                    return UNK, "atoms"
                left.remove(best[0])
                rs.append(best)
            return DIFF, rs[0][1][1] or txt
        return UNK, "atoms"

    # ------------------------------------------------------------ cases
    def split(self, a, b, facts):
        ca, cb = conds(a), conds(b)
        da, db = deep_conds(a), deep_conds(b)
        oa, ob = [c for c in da if c not in db], [c for c in db if c not in da]
        clash = False
        if oa and ob:
            for c in oa:
                if any(self.related(c, d) for d in ob) and not any(self.bool_cmp(c, d, ())[0] == DIFF for d in ob):
                    clash = True
        c = (ca + cb)[0]
        res = []
        for val in (True, False):
            f2 = (*facts, (c, val))
            if infeasible(f2):
                continue
            x, y = assume(a, c, val, f2), assume(b, c, val, f2)
            v, t = self.cmp(x, y, f2)
            if v == DIFF:
                w = ctext(c) if val else "not " + ctext(c)
                t = f"when {w}: {t}" if not t.startswith("when") else f"when {w} and{t[4:]}"
                if not clash:
                    return v, t
            res.append((v, t))
        for v, t in res:
            if v == DIFF:
                return (UNK, "conditions of another form") if clash else (v, t)
        for v, t in res:
            if v == UNK:
                return v, t
        return EQ, ""


def lift(t):
    """A sequence with one alternative part, as alternative sequences."""
    if t[0] == "cat":
        for i, (k, x) in enumerate(t[1]):
            if k == "seq" and x[0] == "ite":
                a, b = (cat((*t[1][:i], ("seq", y), *t[1][i + 1:])) for y in x[2:])
                return ("ite", x[1], a, b)
    return None


def h_cat(a, b):
    x, y = lift(a), lift(b)
    return (x or a, y or b) if x or y else None


def binders(t):
    """Levels of the variables bound by t."""
    if t[0] == "lam":
        return {t[1]}
    if t[0] in ("map", "loop", "xexit", "xret"):
        gens = t[2] if t[0] in ("map", "loop") else t[-2]
        out = {g[0] for g in gens if g[0] is not None}
        if t[0] == "loop":
            out.add(t[1])
        elif t[0] != "map":
            out.add(t[-3])
        return out
    return set()


def mentions(t, levels):
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == "bnd" and len(t) == 3:
        return t[1] in levels
    return any(mentions(x, levels) for x in t)


def inner_ite(t, env=frozenset()):
    """A choice inside a term that does not depend on a variable bound inside the term."""
    if not isinstance(t, tuple) or not t or t[0] in ("c", "ref", "p"):
        return None
    if t[0] == "ite" and len(t) == 4 and not (env and mentions(t[1], env)):
        return t
    b = binders(t) if isinstance(t[0], str) else ()
    if b:
        env = env | b
    for x in t:
        if isinstance(x, tuple):
            r = inner_ite(x, env)
            if r is not None:
                return r
    return None


def free_bnd(t):
    """Loop variables of loops outside t."""
    def walk(t, env):
        if not isinstance(t, tuple) or not t:
            return False
        if t[0] == "bnd" and len(t) == 3:
            return t[1] not in env
        if t[0] in ("map", "loop", "xexit", "xret", "lam"):
            e = set(env)
            if t[0] == "lam":
                e.add(t[1])
            else:
                gens = t[2] if t[0] in ("map", "loop") else t[-2]
                e |= {g[0] for g in gens if g[0] is not None}
                if t[0] == "loop":
                    e.add(t[1])
                elif t[0] != "map":
                    e.add(t[-3])
            return any(walk(x, e) for x in t)
        return any(walk(x, env) for x in t)
    return walk(t, set())


def truth_of(c, facts):
    if c in (TRUE, FALSE):
        return c[2]
    if c[0] == "not":
        return not truth_of(c[1], facts)
    if c[0] == "and":
        return all(truth_of(x, facts) for x in c[1])
    if c[0] == "or":
        return any(truth_of(x, facts) for x in c[1])
    if c[0] == "ite":
        return truth_of(c[2] if truth_of(c[1], facts) else c[3], facts)
    return dict(facts).get(c, False)


def subterms(t, out):
    if isinstance(t, tuple) and t:
        if isinstance(t[0], str):
            if t in out:
                return out
            out.add(t)
        for x in t:
            subterms(x, out)
    return out


def show_t(t):
    return ctext(t)


def ctext(c):
    """Readable canonical term."""
    if not isinstance(c, tuple) or not c:
        return str(c)
    k = c[0]
    if k == "c":
        return repr(c[2])
    if k in ("p", "ref"):
        return c[1].rpartition(".")[2] if k == "ref" else c[1]
    if k == "bnd":
        return "item" if c[2] == "item" else str(c[2])
    if k == "each":
        return f"each of {ctext(c[1])}"
    if k == "attr":
        return f"{ctext(c[1])}.{c[2]}" if isinstance(c[1], tuple) else str(c)
    if k == "idx":
        return f"{ctext(c[1])}[{ctext(c[2])}]"
    if k == "num":
        return ptext(dict(c[1]))
    if k == "lt0":
        return ptext(dict(c[1])) + " < 0"
    if k == "eq0":
        return ptext(dict(c[1])) + " == 0"
    if k == "mod":
        return f"({ctext(c[1])}) % {ctext(c[2])}"
    if k == "fdiv":
        return f"({ctext(c[1])}) // {ctext(c[2])}"
    if k == "not":
        return "not " + ctext(c[1])
    if k in ("and", "or"):
        return "(" + f" {k} ".join(ctext(x) for x in c[1]) + ")"
    if k == "isinst":
        return f"isinstance({ctext(c[1])}, {ctext(c[2])})"
    if k in ("in", "is", "eq"):
        return f"{ctext(c[1])} {k} {ctext(c[2])}"
    if k == "mcall":
        return f"{ctext(c[1])}.{c[2]}(" + ", ".join(ctext(x) for x in c[3]) + ")"
    if k in ("call", "new"):
        n = c[1] if isinstance(c[1], str) else ctext(c[1])
        return f"{n.rpartition('.')[2]}(" + ", ".join([ctext(x) for x in c[2]] + [f"{a}={ctext(b)}" for a, b in c[3]]) + ")"
    if k == "cat":
        return "[" + ", ".join(("*" if a == "seq" else "") + ctext(x) for a, x in c[1]) + "]"
    if k in ("min", "max"):
        return f"{k}(" + ", ".join(("*" if a == "seq" else "") + ctext(x) for a, x in c[1]) + ")"
    if k == "map":
        gs = " ".join((f"for item{g[0]} in {ctext(g[1])}" if g[1] is not None else "") + "".join(
            f" if {ctext(x)}" for x in g[2]) for g in c[2])
        return f"({ctext(c[1])} {gs})"
    if k == "pair":
        return f"{ctext(c[1])}: {ctext(c[2])}"
    if k in ("sum", "any", "dictc", "setc", "ditems"):
        return f"{k}{ctext(c[1])}"
    if k == "ite":
        return f"({ctext(c[2])} if {ctext(c[1])} else {ctext(c[3])})"
    if k == "leaf":
        return f"<{c[1]} {ctext(c[2])} " + "; ".join(f"{ctext(a)} = {ctext(b)}" for a, b in c[3]) + ">"
    if k == "loop":
        return "loop[" + " ".join(f"for {ctext(g[1])}" if g[1] is not None else "if " + " and ".join(
            map(ctext, g[2])) for g in c[2]) + "](" + ", ".join(f"{ctext(i)} -> {ctext(u)}" for i, u in c[3]) + \
            f" exit {ctext(c[4])})"
    if not isinstance(k, str):
        return "(" + ", ".join(ctext(x) for x in c) + ")"
    if all(isinstance(x, tuple) for x in c[1:]):
        return k + "(" + ", ".join(ctext(x) for x in c[1:]) + ")"
    return str(c)[:200]


def ptext(p):
    out = []
    for m, c in sorted(p.items(), key=repr):
        v = "*".join(ctext(a) + (f"**{e}" if e != 1 else "") for a, e in m)
        out.append(f"{c}*{v}" if v and c not in (1, -1) else ("-" + v if v and c == -1 else v or str(c)))
    return " + ".join(out)


def atoms(p):
    return {a for m in p for a, _ in m}


def psub(p, x, y):
    """Polynomial with atom x replaced by the term y, as a term."""
    out = {}
    for m, c in p.items():
        f = {(): c}
        for a, e in m:
            if a == x:
                if e < 0 or e > 4:
                    return None
                for _ in range(e):
                    from .canon import pmul
                    f = pmul(f, to_poly(y))
            else:
                from .canon import pmul
                f = pmul(f, {((a, e),): 1})
        out = padd(out, f)
    return from_poly(out)


def conds(t):
    """Atomic conditions of the top decision tree, outermost first."""
    out = []

    def at(c):
        if c[0] == "not":
            at(c[1])
        elif c[0] in ("and", "or"):
            for x in c[1]:
                at(x)
        elif c[0] == "ite":
            at(c[1])
            at(c[2])
            at(c[3])
        elif c not in out and c not in (TRUE, FALSE):
            out.append(c)

    def walk(t):
        if t[0] == "ite":
            at(t[1])
            walk(t[2])
            walk(t[3])
    walk(t)
    return out


def deep_conds(t):
    """Atomic conditions of every choice in t that does not depend on a loop variable."""
    out = []

    def walk(t):
        if not isinstance(t, tuple) or not t or t[0] in ("c", "ref", "p", "bnd"):
            return
        if t[0] == "ite" and len(t) == 4 and not free_bnd(t[1]):
            for c in conds(("ite", t[1], TRUE, TRUE)):
                if c not in out:
                    out.append(c)
        for x in t:
            walk(x)
    walk(t)
    return out


def linear(facts):
    """Polynomials known to be <= 0."""
    out = []
    for c, v in facts:
        if c[0] == "lt0":
            p = dict(c[1])
            out.append(padd(p, {(): 1}) if v else {m: -k for m, k in p.items()})
        elif c[0] == "eq0" and v:
            p = dict(c[1])
            out += [p, {m: -k for m, k in p.items()}]
    return out


def infeasible(facts):
    d = {}
    for c, v in facts:
        if d.get(c, v) != v:
            return True
        d[c] = v
    if contradictory(d):
        return True
    ls = linear(facts)
    for n in (1, 2, 3):
        if n == 3 and len(ls) > 12:
            break
        for cs in combinations(ls, n):
            s = {}
            for p in cs:
                s = padd(s, p)
            if set(s) <= {()} and s.get((), 0) > 0:
                return True
    # p == 0 excluded, p <= 0 and -p <= 0
    for c, v in facts:
        if c[0] == "eq0" and not v:
            p = dict(c[1])
            q = {m: -k for m, k in p.items()}
            if p in ls and q in ls:
                return True
    return False


def contradictory(d):
    """Facts about one value that exclude each other: its classes, None, constants."""
    subject = {}
    for c, v in d.items():
        if not v:
            if c[0] == "isinst" and any(k[0] == "isinst" and k[1] == c[1] and w and c[2][1] in CLASSES.get(k[2][1], ())
                                        for k, w in d.items() if k[0] == "isinst" and k[2][0] == c[2][0] == "ref"):
                return True
            continue
        if c[0] == "isinst" and c[2][0] == "ref":
            subject.setdefault(c[1], []).append(("class", c[2][1]))
        elif c[0] == "is" and c[2] == NONE:
            subject.setdefault(c[1], []).append(("none", None))
        elif c[0] == "eq":
            for x, y in ((c[1], c[2]), (c[2], c[1])):
                if y[0] == "c" and y[1] == "str":
                    subject.setdefault(x, []).append(("const", y[2]))
    for x, fs in subject.items():
        if len(fs) < 2 and not (d.get(x) and ("none", None) in fs):
            continue
        if ("none", None) in fs and any(f[0] != "none" for f in fs) or ("none", None) in fs and d.get(x):
            return True
        consts = {f[1] for f in fs if f[0] == "const"}
        if len(consts) > 1:
            return True
        cls = [f[1] for f in fs if f[0] == "class"]
        if len(cls) > 1 and all(c in CLASSES for c in cls) and not common_subclass(tuple(sorted(cls))):
            return True
    return False


def common_subclass(cls):
    if cls not in LEAVES_OF:
        LEAVES_OF[cls] = any(all(c in m or c == q for c in cls) for q, m in CLASSES.items())
    return LEAVES_OF[cls]


def equates(f, y):
    """Could the fact f fix the value of y?"""
    return f == y or f[0] in ("eq", "is", "eq0", "in") and has(f, y)


def decide(c, facts):
    if c in (TRUE, FALSE):
        return c[2]
    d = dict(facts)
    if c in d:
        return d[c]
    if c[0] in ("lt0", "eq0"):
        if infeasible((*facts, (c, True))):
            return False
        if infeasible((*facts, (c, False))):
            return True
    if c[0] == "is" and c[2] == NONE and d.get(c[1]):
        return False         # a true value is not None
    if d.get(("is", c, NONE)):
        return False
    return None


def assume(t, c, val, facts):
    m = None
    if c[0] == "eq0" and val:
        # substitute an atom
        p = dict(c[1])
        for mono, k in sorted(p.items(), key=repr):
            if len(mono) == 1 and mono[0][1] == 1 and k in (1, -1) and mono[0][0][0] in (
                    "p", "attr", "idx", "mod", "fdiv", "call", "mcall", "bnd"):
                a = mono[0][0]
                rest = {x: (-y if k == 1 else y) for x, y in p.items() if x != mono}
                if not any(has(b, a) for b in atoms(rest)):
                    m = (a, from_poly(rest))
                    break

    if c[0] == "is" and val:
        x, y = (c[1], c[2]) if len(repr(c[1])) >= len(repr(c[2])) else (c[2], c[1])
        if c[2] == NONE:
            x, y = c[1], NONE
        if not has(y, x):
            m = (x, y)

    def go(t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] in ("lt0", "eq0") or t[0] == "is" and t[1] == c or t[0] not in ("ite", "not", "and", "or", "leaf") and t == c:
            r = decide(t, facts)
            if r is not None:
                return TRUE if r else FALSE
            if m and has(t, m[0]):
                p = psub_deep(dict(t[1]), m)
                r = lt0(p) if t[0] == "lt0" else eq0(p)
                return r
            return t
        if t == c:
            return TRUE if val else FALSE
        if t[0] == "not":
            return neg(go(t[1]))
        if t[0] in ("and", "or"):
            return boolop(t[0], [go(x) for x in t[1]])
        if t[0] == "ite":
            g = go(t[1])
            if g == TRUE:
                return go(t[2])
            if g == FALSE:
                return go(t[3])
            return mk_ite(g, go(t[2]), go(t[3]))
        if m and t == m[0]:
            return m[1]
        if t[0] == "num":
            d = {}
            for mo, k in t[1]:
                f = {(): k}
                for a, e in mo:
                    from .canon import pmul
                    a2 = go(a)
                    if e > 0 and a2 != a and e <= 4:
                        for _ in range(e):
                            f = pmul(f, to_poly(a2))
                    else:
                        f = pmul(f, {((a, e),): 1})
                d = padd(d, f)
            return from_poly(d)
        if t[0] in ("c", "ref", "bnd"):
            return t
        if t[0] == "cat" and len(t) == 2:
            return cat(tuple((k, go(x)) for k, x in t[1]))
        return tuple(go(x) if isinstance(x, tuple) else x for x in t)
    return go(t)


def psub_deep(p, m):
    t = psub(p, m[0], m[1])
    return to_poly(t) if t is not None else p


def has(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(has(y, x) for y in t)


# ---------------------------------------------------------------- driver
def refs_of(p, module):
    """[(target, Func)] of a reference module: functions decorated @ref("target")."""
    out = []
    for f in p.funcs.values():
        if f.module != module or f.nested:
            continue
        for d in f.node.decorator_list:
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "ref":
                kw = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
                out.append((ast.literal_eval(d.args[0]), f, kw))
    return out


def vocabulary(t, out):
    if isinstance(t, tuple):
        if t and t[0] in ("attr", "mcall") and len(t) > 2 and isinstance(t[2], str):
            out.add(t[2])
        if t and t[0] in ("ref", "call", "new") and isinstance(t[1], str):
            out.add(t[1])
        for x in t:
            vocabulary(x, out)
    return out


BASE_VOCAB = {"min", "max", "sorted", "sum", "len", "any", "all", "abs"}
