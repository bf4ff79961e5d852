"""Gated value numbering: the value of an expression as a canonical term over its inputs.

A function body is walked once, structure-directed; at a join of two branches the value
of a variable becomes ('ite', cond, a, b) unless both branches agree.  Calls to small
functions of the program are expanded in place, so moving code into a helper does not
change the term.  Loops become ('fold', ...) terms over their body.  No solver and no
concrete execution are involved; terms are compared structurally after normalisation
(sa/poly.py for arithmetic).

Terms (nested tuples):
  ('c', type, value)          ('p', name)            ('attr', t, field)
  ('idx', t, k)               ('slice', t, a, b, c)  ('call', name, args, kwargs)
  ('mcall', recv, name, args, kwargs)                ('new', cls, args, kwargs)
  ('op', o, a, b)  ('un', o, a)  ('cmp', o, a, b)  ('and'|'or', items)  ('not', x)
  ('ite', c, a, b) ('tuple'|'list'|'set', items)  ('dict', pairs)  ('fstr', parts)
  ('comp', kind, elt, gens)   ('lam', n, body)       ('bnd', level, i)
  ('fold', iter, inits, tree) ('sel', fold, i)       ('star', t)  ('opq', text)
"""

from __future__ import annotations

import ast

from .model import Func, Program
from .typed import members

NONE = ("c", "NoneType", None)
TRUE = ("c", "bool", True)
FALSE = ("c", "bool", False)


class Blowup(Exception):
    pass


def const(v):
    return ("c", type(v).__name__, v)


def is_const(t):
    return t[0] == "c"


def mentions(t, lv):
    if not isinstance(t, tuple):
        return False
    if t[:1] == ("bnd",) and len(t) == 3 and isinstance(t[1], int) and t[1] >= lv:
        return True
    return any(mentions(x, lv) for x in t)


def each(t, lv, it):
    """A field of the loop's item, as the field of every item of the iterable."""
    if not isinstance(t, tuple):
        return t
    if len(t) == 3 and t[0] == "bnd" and t[1] == lv:
        return ("each", it, t[2])
    return tuple(each(x, lv, it) for x in t)


class State:
    __slots__ = ("env", "heap", "facts")

    def __init__(self, env, heap, facts):
        self.env, self.heap, self.facts = env, heap, facts

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.facts))


class SV:
    def __init__(self, prog: Program, self_cls=None, assume=None, inline=None, depth=7, cap=200):
        self.p = prog
        self.self_cls = self_cls          # concrete class of ('p','self')
        self.assume = assume or (lambda c: None)     # decide a condition term
        self.inline = inline or (lambda f: True)
        self.depth = depth
        self.cap = cap
        self.cls_of: dict = {}            # term -> concrete class
        if self_cls:
            self.cls_of[("p", "self")] = self_cls
        self.stack: list[str] = []
        self.level = 0
        self.positions = {}
        self.made = set()
        self.uid = 0
        self.calls: list = []             # observed ('call'...) terms with (func, node)
        self.on_call = None
        self.on_raise = None
        self.fresh = False                # give every constructed object an identity '#'
        self.ref = False                  # reference comparison: levels, call effects, raising loops

    # ------------------------------------------------------------ entry
    def run(self, f: Func, args: dict | None = None, heap=None, facts=None):
        """Outcomes of f with parameters as ('p', name) terms (or args[name])."""
        env = {}
        for a in f.all_params():
            env[a] = (args or {}).get(a, ("p", a))
        if f.cls and f.params and f.kind in ("method", "property", "setter") and f.params[0] not in (args or {}):
            env[f.params[0]] = ("p", "self")
        st = State(env, dict(heap or {}), dict(facts or {}))
        self.stack.append(f.qual)
        self.fstack = getattr(self, "fstack", [])
        self.fstack.append(f)
        try:
            outs = self.block(f.node.body, st)
        finally:
            self.stack.pop()
            self.fstack.pop()
        return outs

    def value(self, f: Func, args=None, heap=None, facts=None):
        """The returned value as one term (raising paths dropped)."""
        outs = self.run(f, args, heap, facts)
        return self.tree([(c, self.outval(o)) for c, o, *_ in [(x[0], x) for x in outs] if o[1] != "raise"])

    @staticmethod
    def outval(o):
        return o[2] if o[1] == "ret" else NONE

    def tree(self, outs):
        """Decision tree of (conds, term) leaves."""
        if not outs:
            return ("opq", "never returns")
        if len(outs) == 1 or all(t == outs[0][1] for _, t in outs):
            return outs[0][1]
        c0 = None
        for conds, _ in outs:
            if conds:
                c0 = conds[0][0]
                break
        if c0 is None:
            return outs[-1][1]
        yes, no = [], []
        for conds, t in outs:
            if conds and conds[0][0] == c0:
                (yes if conds[0][1] else no).append((conds[1:], t))
            else:
                yes.append((conds, t))
                no.append((conds, t))
        if not yes:
            return self.tree(no)
        if not no:
            return self.tree(yes)
        return self.ite(c0, self.tree(yes), self.tree(no))

    # ------------------------------------------------------------ helpers
    @property
    def f(self) -> Func:
        return self.fstack[-1]

    @property
    def mod(self):
        return self.f.module

    def ite(self, c, a, b):
        if a == b:
            return a
        if c == TRUE:
            return a
        if c == FALSE:
            return b
        if a == TRUE and b == FALSE:
            return c
        if a == FALSE and b == TRUE:
            return self.neg(c)
        if c[0] == "not":
            return ("ite", c[1], b, a)
        return ("ite", c, a, b)

    def neg(self, c):
        if c[0] == "c":
            return const(not c[2])
        if c[0] == "not":
            return c[1]
        if c[0] == "cmp":
            inv = {"==": "!=", "!=": "==", "is": "isnot", "isnot": "is", "in": "notin", "notin": "in"}
            if c[1] in inv:
                return self.cmp(inv[c[1]], c[2], c[3])
        return ("not", c)

    def cmp(self, o, a, b):
        """Comparison with a canonical orientation: only ==, <, <=, is, in (others negated)."""
        if o == "!=":
            return ("not", self.cmp("==", a, b)) if self.cmp("==", a, b)[0] != "c" else const(
                not self.cmp("==", a, b)[2])
        if o == "isnot":
            x = self.cmp("is", a, b)
            return const(not x[2]) if x[0] == "c" else ("not", x)
        if o == "notin":
            x = self.cmp("in", a, b)
            return const(not x[2]) if x[0] == "c" else ("not", x)
        if o == ">":
            return self.cmp("<", b, a)
        if o == ">=":
            return self.cmp("<=", b, a)
        if a[0] == "c" and b[0] == "c":
            try:
                return const({"==": lambda: a[2] == b[2], "<": lambda: a[2] < b[2],
                              "<=": lambda: a[2] <= b[2], "is": lambda: a == b,
                              "in": lambda: a[2] in b[2]}[o]())
            except Exception:
                pass
        if o == "is" and NONE in (a, b):
            x = b if a == NONE else a
            if x[0] in ("tuple", "list", "dict", "set", "new", "fstr", "comp", "lam", "op"):
                return FALSE
            a, b = x, NONE
        if o in ("==", "is"):
            if a == b and a[0] != "opq":
                return TRUE
            if self.enum_member(a) and self.enum_member(b):
                return FALSE
            if o == "==" and a[0] == b[0] and a[0] in ("tuple", "list") and not any(
                    x[0] == "star" for x in (*a[1], *b[1])):
                if len(a[1]) != len(b[1]):
                    return FALSE
                return self.boolop("and", [self.cmp("==", x, y) for x, y in zip(a[1], b[1])])
            for x, y in ((a, b), (b, a)):
                if y in (TRUE, FALSE) and x[0] in ("cmp", "not", "and", "or"):
                    return x if y == TRUE else ("not", x) if x[0] != "not" else x[1]
            if a[0] == "c" or repr(b) < repr(a) and b[0] != "c":
                a, b = b, a
        if o == "in" and b[0] in ("tuple", "list", "set"):
            r = FALSE
            items = [self.cmp("==", a, x) for x in b[1]]
            if all(i[0] == "c" for i in items):
                return const(any(i[2] for i in items))
            return self.boolop("or", items)
        if o == "in" and b[0] == "dict" and b[1] and all(
                k[0] == "c" or self.enum_member(k) for k, _ in b[1]):
            return self.boolop("or", [self.cmp("==", a, k) for k, _ in b[1]])
        if o == "<=":
            # a <= b  is  not (b < a)
            return ("not", ("cmp", "<", b, a))
        return ("cmp", o, a, b)

    def enum_member(self, t):
        """Is the term a member of an Enum class of the program?"""
        if t[0] != "ref" or "." not in t[1]:
            return False
        cls, _, m = t[1].rpartition(".")
        c = self.p.classes.get(cls)
        return c is not None and m in c.attrs and any("Enum" in b for b in c.bases)

    def key_eq(self, a, b):
        """True/False/None: are two mapping keys equal?"""
        if a == b:
            return True
        if a[0] == "c" and b[0] == "c" or self.enum_member(a) and self.enum_member(b):
            return False
        return None

    def boolop(self, o, items):
        out = []
        for t in items:
            if t[0] == o:
                out += [x for x in t[1] if x not in out]
            elif t == (TRUE if o == "or" else FALSE):
                if not out:
                    return t
                out.append(t)
                break
            elif t[0] == "c" and t[1] == "bool":
                continue
            elif t not in out:
                out.append(t)
        if not out:
            return FALSE if o == "or" else TRUE
        if len(out) == 1:
            return out[0]
        return (o, tuple(out))

    def truth(self, t, st):
        """Boolean term of a condition, decided where facts allow."""
        if t[0] == "c":
            return const(bool(t[2]))
        if t[0] == "not":
            x = self.truth(t[1], st)
            return const(not x[2]) if x[0] == "c" else self.neg(x)
        if t[0] in ("and", "or"):
            items = [self.truth(x, st) for x in t[1]]
            return self.boolop(t[0], items)
        if t[0] in ("tuple", "list", "set", "dict") and not any(x[0] == "star" for x in t[1]):
            return const(bool(t[1]))
        if t[0] == "new":
            return TRUE
        if t[0] == "ite":
            return self.ite(self.truth(t[1], st), self.truth(t[2], st), self.truth(t[3], st))
        if t in st.facts:
            return const(st.facts[t])
        d = self.assume(t)
        if d is not None:
            return const(bool(d))
        # x == c1 known, asked x == c2
        if t[0] == "cmp" and t[1] in ("==", "is") and t[3][0] == "c":
            for k, v in st.facts.items():
                if v and k[0] == "cmp" and k[1] in ("==", "is") and k[2] == t[2] and k[3][0] == "c" \
                        and k[3] != t[3]:
                    return FALSE
        return t

    def learn(self, st, c, val):
        if c[0] == "not":
            self.learn(st, c[1], not val)
            return
        st.facts[c] = val
        if c[0] == "and" and val or c[0] == "or" and not val:
            for x in c[1]:
                self.learn(st, x, val)

    # ------------------------------------------------------------ statements
    def block(self, body, st):
        """[(conds, kind, value, state)] with kind next/ret/raise/break/continue."""
        live = [((), st)]
        done = []
        for s in body:
            nxt = []
            for conds, x in live:
                for c2, kind, v, y in self.stmt(s, x):
                    if kind == "next":
                        nxt.append((conds + c2, y))
                    else:
                        done.append((conds + c2, kind, v, y))
            live = nxt
            if len(live) + len(done) > self.cap:
                raise Blowup(self.f.qual)
            if not live:
                break
        return done + [(c, "next", None, x) for c, x in live]

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return [((), "next", None, st)]
        if not self.ref:
            return m(s, st)
        out = []
        for conds, k, v, y in m(s, st):
            pend = y.heap.pop(("rz",), ())
            for c, exc in pend:            # raised inside a call expanded in this statement
                out.append(((*conds, (c, True)), "raise", exc, y))
                conds = (*conds, (c, False))
                if c == TRUE:
                    break
            else:
                if pend:
                    y = y.copy()
                    for c, _ in pend:
                        self.learn(y, c, False)
                out.append((conds, k, v, y))
        return out

    def s_Expr(self, s, st):
        v = self.ev(s.value, st)
        if self.ref and isinstance(s.value, ast.Call) and v[0] in ("call", "mcall", "new"):
            st.heap[("fx",)] = ("mut", "fx", st.heap.get(("fx",), ("list", ())), (v,))
        return [((), "next", None, st)]

    def s_Return(self, s, st):
        v = NONE if s.value is None else self.ev(s.value, st)
        return [((), "ret", v, st)]

    def s_Raise(self, s, st):
        v = NONE if s.exc is None else self.ev(s.exc, st)
        if self.on_raise:
            self.on_raise(self.f, s, v, st)
        return [((), "raise", v, st)]

    def s_Assert(self, s, st):
        c = self.truth(self.ev(s.test, st), st)
        self.learn(st, c, True)
        return [((), "next", None, st)]

    def s_Pass(self, s, st):
        return [((), "next", None, st)]

    def s_Break(self, s, st):
        return [((), "break", None, st)]

    def s_Continue(self, s, st):
        return [((), "continue", None, st)]

    def s_Import(self, s, st):
        return [((), "next", None, st)]

    def s_ImportFrom(self, s, st):
        for a in s.names:
            st.env[a.asname or a.name] = ("ref", self.p.canonical(f"{s.module}.{a.name}"))
        return [((), "next", None, st)]

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return [((), "next", None, st)]

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)
        return [((), "next", None, st)]

    def s_AugAssign(self, s, st):
        cur = self.ev(s.target, st)
        v = self.ev(s.value, st)
        if cur[0] == "list" and isinstance(s.op, ast.Add):
            v = self.mutated(cur, "extend", [v], {})[0]
            self.assign(s.target, v, st)
        else:
            self.assign(s.target, self.binop(type(s.op).__name__, cur, v), st)
        return [((), "next", None, st)]

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                k = ("opq", "slice") if isinstance(t.slice, ast.Slice) else self.ev(t.slice, st)
                if not self.rebind(t.value, b, ("mut", "del", b, (k,)), st):
                    st.heap[("del", b, k)] = TRUE
        return [((), "next", None, st)]

    def s_FunctionDef(self, s, st):
        st.env[s.name] = ("fn", s, tuple(sorted((k, v) for k, v in st.env.items() if False)))
        return [((), "next", None, st)]

    def s_If(self, s, st):
        c = self.truth(self.ev(s.test, st), st)
        return self.branch(c, s.body, s.orelse, st)

    def branch(self, c, body, orelse, st):
        if c[0] == "c":
            return self.block(body if c[2] else orelse, st)
        flip = c[0] == "not"
        if flip:
            c = c[1]
            body, orelse = orelse, body
        a, b = st.copy(), st.copy()
        self.learn(a, c, True)
        self.learn(b, c, False)
        oa, ob = self.block(body, a), self.block(orelse, b)
        if len(oa) == 1 and len(ob) == 1 and oa[0][1] == ob[0][1] == "next" and not oa[0][0] and not ob[0][0]:
            return [((), "next", None, self.merge(c, oa[0][3], ob[0][3], st))]
        return [(((c, True), *x), k, v, y) for x, k, v, y in oa] + [
            (((c, False), *x), k, v, y) for x, k, v, y in ob]

    def merge(self, c, a, b, st):
        env = {}
        for k in {**a.env, **b.env}:
            env[k] = self.ite(c, a.env.get(k, ("unset", k)), b.env.get(k, ("unset", k)))
        heap = {}
        for k in {**a.heap, **b.heap}:
            d = self.heap_default(k)
            heap[k] = self.ite(c, a.heap.get(k, d), b.heap.get(k, d))
        facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
        return State(env, heap, facts)

    @staticmethod
    def heap_default(k):
        if k[0] == "attr":
            return k
        if k[0] == "idx":
            return k
        if k[0] == "fx":
            return ("list", ())
        return FALSE

    def s_Match(self, s, st):
        subj = self.ev(s.subject, st)

        def pat(p, t):
            if isinstance(p, ast.MatchValue):
                return self.cmp("==", t, self.ev(p.value, st))
            if isinstance(p, ast.MatchSingleton):
                return self.cmp("is", t, const(p.value))
            if isinstance(p, ast.MatchOr):
                return self.boolop("or", [pat(x, t) for x in p.patterns])
            if isinstance(p, ast.MatchAs):
                c = TRUE if p.pattern is None else pat(p.pattern, t)
                if p.name:
                    st.env[p.name] = t
                return c
            if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
                return ("call", "isinstance", (t, self.ev(p.cls, st)), ())
            if isinstance(p, ast.MatchSequence) and t[0] == "tuple" and len(t[1]) == len(p.patterns):
                return self.boolop("and", [pat(x, y) for x, y in zip(p.patterns, t[1])])
            return ("opq", ast.unparse(p))

        def go(cases, st):
            if not cases:
                return [((), "next", None, st)]
            k = cases[0]
            c = pat(k.pattern, subj)
            if k.guard is not None:
                c = self.boolop("and", [c, self.ev(k.guard, st)])
            c = self.truth(c, st)
            if c[0] == "c":
                return self.block(k.body, st) if c[2] else go(cases[1:], st)
            a, b = st.copy(), st.copy()
            self.learn(a, c, True)
            self.learn(b, c, False)
            oa, ob = self.block(k.body, a), go(cases[1:], b)
            if len(oa) == 1 and len(ob) == 1 and oa[0][1] == ob[0][1] == "next" \
                    and not oa[0][0] and not ob[0][0]:
                return [((), "next", None, self.merge(c, oa[0][3], ob[0][3], st))]
            if c[0] == "not":
                c, oa, ob = c[1], ob, oa
            return [(((c, True), *x), kk, v, y) for x, kk, v, y in oa] + [
                (((c, False), *x), kk, v, y) for x, kk, v, y in ob]
        return go(list(s.cases), st)

    def s_With(self, s, st):
        for i in s.items:
            v = self.ev(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        pre = st.copy()
        outs = self.block(s.body, st)
        if s.handlers:
            hs = []
            for i, h in enumerate(s.handlers):
                x = pre.copy()
                if h.name:
                    x.env[h.name] = ("opq", "exception")
                c = ("exc", ast.unparse(h.type) if h.type else "", i, ast.unparse(s.body[0])[:60])
                for conds, k, v, y in self.block(h.body, x):
                    hs.append((((c, True), *conds), k, v, y))
                outs = [(((c, False), *conds), k, v, y) for conds, k, v, y in outs]
            res = []
            for o in outs:
                if o[1] == "next" and s.orelse:
                    res += [((*o[0], *c2), k, v, y) for c2, k, v, y in self.block(s.orelse, o[3])]
                else:
                    res.append(o)
            outs = hs + res
        if s.finalbody:
            res = []
            for o in outs:
                for c2, k, v, y in self.block(s.finalbody, o[3]):
                    res.append(((*o[0], *c2), o[1] if k == "next" else k, o[2] if k == "next" else v, y))
            outs = res
        return outs

    def assigned(self, body):
        out = []
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                    out.append(n.id)
                r = None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in self.MUT:
                    r = n.func.value
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    r = n.value
                if isinstance(r, ast.Name) and r.id not in out:
                    out.append(r.id)
        return out

    def unrollable(self, it):
        if it[0] in ("tuple", "list") and not any(x[0] == "star" for x in it[1]) and len(it[1]) <= 16:
            return list(it[1])
        if it[0] == "call" and it[1] == "range" and all(a[0] == "c" for a in it[2]):
            r = range(*[a[2] for a in it[2]])
            if len(r) <= 16:
                return [const(i) for i in r]
        if it[0] == "call" and it[1] == "enumerate" and len(it[2]) == 1:
            u = self.unrollable(it[2][0])
            if u is not None:
                return [("tuple", (const(i), x)) for i, x in enumerate(u)]
        if it[0] == "call" and it[1] == "zip":
            us = [self.unrollable(x) for x in it[2]]
            if us and all(u is not None for u in us):
                return [("tuple", t) for t in zip(*us)]
        return None

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        u = self.unrollable(it)
        if u is not None:
            live = [((), st)]
            done, broke = [], []
            for x in u:
                nxt = []
                for conds, y in live:
                    y = y.copy()
                    self.assign(s.target, x, y)
                    for c2, k, v, z in self.block(s.body, y):
                        if k in ("next", "continue"):
                            nxt.append((conds + c2, z))
                        elif k == "break":
                            broke.append((conds + c2, "next", None, z))
                        else:
                            done.append((conds + c2, k, v, z))
                live = nxt
                if len(live) + len(done) + len(broke) > self.cap:
                    raise Blowup(self.f.qual)
            out = []
            for c, y in live:
                for c2, k, v, z in self.block(s.orelse, y):
                    out.append((c + c2, k, v, z))
            return done + broke + out
        return self.loop(s, it, st)

    def s_While(self, s, st):
        return self.loop(s, None, st)

    def iteration(self, it, lv):
        """What is iterated over, and the value of the loop variable."""
        item, pos = ("bnd", lv, "item"), ("bnd", lv, "pos")
        if self.ref and it[0] == "call" and len(it[2]) == 1 and not it[3]:
            if it[1] == "enumerate":
                return it[2][0], ("tuple", (pos, item))
            if it[1] == "range" and it[2][0][0] == "call" and it[2][0][1] == "len" and len(it[2][0][2]) == 1:
                x = it[2][0][2][0]
                self.positions[lv] = x
                return x, pos
        return it, item

    def loop(self, s, it, st):
        names = self.assigned([*s.body, *([s.target] if it is not None else [])])
        lv = self.level
        self.level += 1
        if it is not None:
            it, element = self.iteration(it, lv)
        try:
            heap0 = dict(st.heap)
            changed_heap = []
            for _ in range(3):
                x = st.copy()
                for i, n in enumerate(names):
                    if n in x.env:
                        b = ("bnd", lv, f"v{i}")
                        (self.made.add if self.containerish(x.env[n]) else self.made.discard)(b)
                        x.env[n] = b
                for k in changed_heap:
                    x.heap[k] = ("bnd", lv, k)
                cond = None
                if it is not None:
                    self.assign(s.target, element, x)
                else:
                    cond = self.truth(self.ev(s.test, x), x)
                inits = tuple((f"v{i}", st.env[n]) for i, n in enumerate(names) if n in st.env)
                inits += tuple((k, heap0.get(k, self.heap_default(k))) for k in changed_heap)
                base = dict(x.heap)
                outs = self.block(s.body, x)
                more = []
                for _, _, _, y in outs:
                    for k, v in y.heap.items():
                        if base.get(k) != v and k not in changed_heap and k not in more and not (
                                mentions(k, lv)):
                            more.append(k)
                if not more:
                    break
                changed_heap += more
            for _, _, _, y in outs:
                for k, v in y.heap.items():
                    if base.get(k) != v and k not in changed_heap:
                        changed_heap.append(k)
            leaves = []
            for conds, k, v, y in outs:
                vals = tuple((f"v{i}", y.env.get(n, ("unset", n))) for i, n in enumerate(names))
                hp = tuple((k2, y.heap.get(k2, self.heap_default(k2))) for k2 in sorted(changed_heap, key=repr))
                leaves.append((conds, (k if k != "continue" else "next", v, vals, hp)))
            tr = self.tree([(c, ("leaf", t)) for c, t in leaves])
            fold = ("fold", it if it is not None else ("while", cond), inits, tr)
            if self.ref:
                fold = (*fold, lv)
        finally:
            self.level -= 1
            self.positions.pop(lv, None)
        y = st.copy()
        for i, n in enumerate(names):
            y.env[n] = ("sel", fold, f"v{i}")
        for k in changed_heap:
            if self.ref and mentions(k, lv) and it is not None:
                y.heap.pop(k, None)
                y.heap[each(k, lv, it)] = ("sel", fold, k)      # a field of every item
            else:
                y.heap[k] = ("sel", fold, k)
        res = []
        kinds = {l[1][0] for l in leaves}
        if self.ref and kinds & {"ret", "raise"}:
            pre = ()
            for k in sorted(kinds & {"ret", "raise"}):
                c = ("fexit", fold, (k,))
                res.append(((*pre, (c, True)), k, ("fret", fold, k), y.copy()))
                pre = (*pre, (c, False))
            for c2, k, v, z in self.block(s.orelse, y):
                res.append(((*pre, *c2), k, v, z))
            return res
        if "ret" in kinds:
            c = ("fexit", fold)
            res.append((((c, True),), "ret", ("fret", fold), y.copy()))
            for c2, k, v, z in self.block(s.orelse, y):
                res.append((((c, False), *c2), k, v, z))
            return res
        return self.block(s.orelse, y) if s.orelse else [((), "next", None, y)]

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, ("slice", v, const(i), const(i - n + 1), NONE), st)
                else:
                    self.assign(x, self.index(v, const(i), st), st)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            cls = self.class_of(b, t.value)
            f = self.p.lookup_setter(cls, t.attr) if cls else None
            if f is not None and self.can_inline(f):
                self.call_func(f, [b, v], {}, st, t)
                return
            st.heap[("attr", b, t.attr)] = v
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            k = ("slice",) + tuple(NONE if x is None else self.ev(x, st) for x in (
                t.slice.lower, t.slice.upper, t.slice.step)) if isinstance(t.slice, ast.Slice) \
                else self.ev(t.slice, st)
            if self.rebind(t.value, b, self.setitem(b, k, v), st):
                return
            st.heap[("idx", b, k)] = v
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    VALUES = ("dict", "list", "set", "mut", "comp")

    def setitem(self, b, k, v):
        if b[0] == "dict" and k[0] == "c" and all(x[0][0] == "c" for x in b[1]):
            if any(x == k for x, _ in b[1]):
                return ("dict", tuple((x, v if x == k else y) for x, y in b[1]))
            return ("dict", (*b[1], (k, v)))
        if b[0] == "list" and k[0] == "c" and isinstance(k[2], int) and -len(b[1]) <= k[2] < len(b[1]) \
                and not any(x[0] == "star" for x in b[1]):
            items = list(b[1])
            items[k[2]] = v
            return ("list", tuple(items))
        return ("mut", "[]", b, (k, v))

    def rebind(self, lv, old, new, st):
        """A change of a container value held in a variable or attribute: bind it to the new value."""
        if isinstance(lv, ast.Name) and lv.id in st.env and (
                self.containerish(old) or old[0] == "bnd" or self.container_type(lv)):
            if not self.containerish(old) and old[0] not in self.VALUES and old[0] not in ("bnd", "ite", "sel"):
                st.heap[("mutated", old)] = new      # an object from outside
            st.env[lv.id] = new
            return True
        if isinstance(lv, ast.Attribute) and (old[0] in self.VALUES or self.container_type(lv)):
            st.heap[("attr", self.ev(lv.value, st), lv.attr)] = new
            return True
        return False

    def containerish(self, v):
        """Is the value a container made here?"""
        if v[0] in self.VALUES:
            return True
        if not self.ref:
            return False
        if v in self.made:
            return True
        if v[0] == "ite":
            return self.containerish(v[2]) and self.containerish(v[3])
        if v[0] == "sel":
            return any(n == v[2] and self.containerish(x) for n, x in v[1][2])
        return False

    def copy_out(self, f, before, outs, st, e):
        """Containers of the caller that the callee changed in place."""
        if not self.ref or not isinstance(e, ast.Call) or any(isinstance(a, ast.Starred) for a in e.args) or not outs:
            return
        aug = {n.target for n in ast.walk(f.node) if isinstance(n, ast.AugAssign)}
        stored = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))
                  and n not in aug}
        ps = list(f.params)
        off = 1 if f.kind not in ("static", "function") and f.cls and isinstance(e.func, ast.Attribute) else 0
        lvs = {ps[i + off]: a for i, a in enumerate(e.args) if i + off < len(ps)}
        lvs.update({k.arg: k.value for k in e.keywords if k.arg})
        for q, a in lvs.items():
            if q not in before or q in stored:
                continue
            old = before[q]
            if q in {n.id for n in aug if isinstance(n, ast.Name)} and not self.containerish(old):
                continue
            vals = [o[3].env.get(q, old) for o in outs]
            if all(v == old for v in vals):
                continue
            new = self.tree([(o[0], v) for o, v in zip(outs, vals)])
            if isinstance(a, ast.Name) and a.id in st.env:
                st.env[a.id] = new
            elif isinstance(a, ast.Attribute):
                st.heap[("attr", self.ev(a.value, st), a.attr)] = new

    def container_type(self, e):
        ms = [m for m in members(self.p.type_of(self.mod, e)) if m[0] != "none"]
        return bool(ms) and all(m[0] == "inst" and (
            m[1] in ("builtins.list", "builtins.dict", "builtins.set", "collections.deque",
                     "collections.defaultdict", "collections.OrderedDict", "collections.Counter", "typing.MutableMapping",
                     "typing.MutableSequence")) for m in ms)

    MUT = {"append", "extend", "insert", "add", "update", "remove", "discard", "reverse", "sort", "clear",
           "appendleft", "setdefault", "pop", "popleft", "popitem"}

    def mutated(self, b, name, pos, kw):
        """(new container value, result of the call)"""
        if b[0] == "list":
            if name == "append" and len(pos) == 1:
                return ("list", (*b[1], pos[0])), NONE
            if name == "extend" and len(pos) == 1:
                if pos[0][0] in ("list", "tuple"):
                    return ("list", b[1] + pos[0][1]), NONE
                return ("list", (*b[1], ("star", pos[0]))), NONE
            if name == "reverse" and not any(x[0] == "star" for x in b[1]):
                return ("list", b[1][::-1]), NONE
            if name == "pop" and b[1] and not any(x[0] == "star" for x in b[1]):
                if not pos:
                    return ("list", b[1][:-1]), b[1][-1]
                if pos[0] == const(0):
                    return ("list", b[1][1:]), b[1][0]
            if name == "insert" and pos[0] == const(0):
                return ("list", (pos[1], *b[1])), NONE
        if b[0] == "dict" and all(x[0][0] == "c" for x in b[1]):
            if name == "update" and len(pos) <= 1:
                items = list(pos[0][1]) if pos and pos[0][0] == "dict" else ([] if not pos else None)
                if items is not None:
                    r = b
                    for k, v in [*items, *((const(k), v) for k, v in kw.items())]:
                        r = self.setitem(r, k, v)
                    return r, NONE
            if name == "setdefault" and pos and pos[0][0] == "c":
                for k, v in b[1]:
                    if k == pos[0]:
                        return b, v
                v = pos[1] if len(pos) > 1 else NONE
                return self.setitem(b, pos[0], v), v
        if b[0] == "set" and name == "add":
            return ("set", tuple(sorted({*b[1], pos[0]}, key=repr))), NONE
        new = ("mut", name, b, tuple(pos))
        res = NONE if name in ("append", "extend", "insert", "add", "update", "remove", "discard", "reverse",
                               "sort", "clear", "appendleft") else ("mres", name, b, tuple(pos))
        return new, res

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return ("opq", ast.unparse(e))
        return m(e, st)

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        if e.id in st.env:
            return st.env[e.id]
        m = self.p.modules[self.mod]
        if e.id in m.names:
            q = self.p.canonical(m.names[e.id])
            r = self.global_const(q)
            return r if r is not None else ("ref", q)
        if e.id in m.globals:
            q = f"{self.mod}.{e.id}"
            r = self.global_const(q)
            return r if r is not None else ("ref", q)
        return ("ref", e.id)

    def global_const(self, q):
        """Module-level names bound once to a literal."""
        mod, _, n = q.rpartition(".")
        m = self.p.modules.get(mod)
        if m is None or n not in m.globals:
            return None
        v = m.globals[n]
        if isinstance(v, ast.Constant):
            return const(v.value)
        if isinstance(v, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Constant) for x in v.elts):
            return ("tuple", tuple(const(x.value) for x in v.elts))
        return None

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value, st)
                spec = ast.unparse(v.format_spec) if v.format_spec else ""
                if x[0] == "c" and not spec and v.conversion == -1:
                    parts.append(const(str(x[2])))
                elif x[0] == "fstr" and not spec and v.conversion == -1:
                    parts += list(x[1])
                else:
                    parts.append(("fmt", x, v.conversion, spec))
        return self.fstr(parts)

    @staticmethod
    def fstr(parts):
        out = []
        for p in parts:
            if p[0] == "c" and out and out[-1][0] == "c":
                out[-1] = const(str(out[-1][2]) + str(p[2]))
            elif p == const(""):
                continue
            else:
                out.append(p)
        if not out:
            return const("")
        if len(out) == 1 and out[0][0] == "c":
            return out[0]
        return ("fstr", tuple(out))

    def e_Attribute(self, e, st):
        d = self.p.dotted(self.mod, e)
        root = e
        while isinstance(root, ast.Attribute):
            root = root.value
        if d and not (isinstance(root, ast.Name) and root.id in st.env):
            r = self.global_const(d)
            if r is not None:
                return r
            if d.rpartition(".")[0] in self.p.classes or d in self.p.funcs or d in self.p.classes \
                    or not d.startswith("b_asic"):
                return ("ref", d)
        b = self.ev(e.value, st)
        return self.attr(b, e.attr, st, e.value)

    def attr(self, b, name, st, expr=None):
        if b[0] == "ite":
            return self.ite(b[1], self.attr(b[2], name, st, expr), self.attr(b[3], name, st, expr))
        if b[0] == "ref":
            return ("ref", b[1] + "." + name)
        k = ("attr", b, name)
        if k in st.heap:
            return st.heap[k]
        cls = self.class_of(b, expr)
        if cls and (b in self.cls_of or b[0] == "new"):
            c = self.p.classes.get(cls)
            for q in c.mro if c else ():
                kc = self.p.classes.get(q)
                if kc is None or name in kc.methods:
                    break
                if isinstance(kc.attrs.get(name), ast.Constant):
                    return const(kc.attrs[name].value)
                if kc.attrs.get(name) is not None:
                    break
        if cls:
            f = self.p.lookup(cls, name)
            if f is not None:
                if f.kind == "property":
                    fs = self.p.dispatch(cls, name) if b not in self.cls_of else [f]
                    fs = [x for x in fs if not x.abstract]
                    if len(fs) == 1 and self.can_inline(fs[0]):
                        return self.call_func(fs[0], [b], {}, st, None)
                    return k
                return ("bm", b, name)
        return k

    def class_of(self, t, expr=None):
        if t in self.cls_of:
            return self.cls_of[t]
        if t[0] == "new":
            return t[1]
        if expr is not None:
            ms = [m for m in members(self.p.type_of(self.mod, expr)) if m[0] != "none"]
            if len(ms) == 1 and ms[0][0] == "inst" and ms[0][1] in self.p.classes:
                return ms[0][1]
        return None

    def e_Subscript(self, e, st):
        b = self.ev(e.value, st)
        if isinstance(e.slice, ast.Slice):
            s = e.slice
            lo, hi, step = (NONE if x is None else self.ev(x, st) for x in (s.lower, s.upper, s.step))
            if b[0] in ("tuple", "list") and all(x[0] == "c" for x in (lo, hi, step)) and not any(
                    x[0] == "star" for x in b[1]):
                return (b[0], b[1][slice(lo[2], hi[2], step[2])])
            return ("slice", b, lo, hi, step)
        return self.index(b, self.ev(e.slice, st), st)

    def index(self, b, k, st):
        if b[0] in ("tuple", "list") and k[0] == "c" and isinstance(k[2], int):
            if not any(x[0] == "star" for x in b[1]) and -len(b[1]) <= k[2] < len(b[1]):
                return b[1][k[2]]
        if b[0] == "dict" and all(self.key_eq(k, kk) is not None for kk, _ in b[1]):
            for kk, v in reversed(b[1]):
                if kk == k:
                    return v
        if b[0] == "ite":
            return self.ite(b[1], self.index(b[2], k, st), self.index(b[3], k, st))
        if k[0] == "bnd" and k[2] == "pos" and self.positions.get(k[1]) == b:
            return ("bnd", k[1], "item")
        t = ("idx", b, k)
        return st.heap.get(t, t)

    def seq(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                if v[0] in ("tuple", "list"):
                    out += list(v[1])
                else:
                    out.append(("star", v))
            else:
                out.append(self.ev(x, st))
        return tuple(out)

    def e_Tuple(self, e, st):
        return ("tuple", self.seq(e.elts, st))

    def e_List(self, e, st):
        return ("list", self.seq(e.elts, st))

    def e_Set(self, e, st):
        return ("set", tuple(sorted(self.seq(e.elts, st), key=repr)))

    def e_Dict(self, e, st):
        out = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, st)
                if x[0] == "dict":
                    out += list(x[1])
                else:
                    out.append((("star", x), NONE))
            else:
                out.append((self.ev(k, st), self.ev(v, st)))
        return ("dict", tuple(out))

    def gens(self, e, st):
        """Bind comprehension generators, returning (gens, state)."""
        gens = []
        x = st.copy()
        for g in e.generators:
            it, element = self.iteration(self.ev(g.iter, x), self.level)
            self.assign(g.target, element, x)
            self.level += 1
            conds = []
            for c in g.ifs:
                t = self.truth(self.ev(c, x), x)
                if t != TRUE:
                    conds.append(t)
            gens.append((it, tuple(conds)))
        return tuple(gens), x

    def comp(self, kind, e, st):
        if len(e.generators) == 1:
            g = e.generators[0]
            it = self.ev(g.iter, st)
            u = self.unrollable(it)
            if u is not None and kind in ("list", "gen", "set"):
                out = []
                for item in u:
                    x = st.copy()
                    self.assign(g.target, item, x)
                    cs = [self.truth(self.ev(c, x), x) for c in g.ifs]
                    if any(c == FALSE for c in cs):
                        continue
                    if any(c != TRUE for c in cs):
                        break
                    out.append(self.ev(e.elt, x))
                else:
                    return ("list" if kind == "gen" else kind, tuple(out))
        lv = self.level
        try:
            gens, x = self.gens(e, st)
            elt = ("tuple", (self.ev(e.key, x), self.ev(e.value, x))) if kind == "dict" else self.ev(e.elt, x)
        finally:
            self.level = lv
            for k in [k for k in self.positions if k >= lv]:
                del self.positions[k]
        return ("comp", kind, elt, gens, lv) if self.ref else ("comp", kind, elt, gens)

    def e_ListComp(self, e, st):
        return self.comp("list", e, st)

    def e_SetComp(self, e, st):
        return self.comp("set", e, st)

    def e_GeneratorExp(self, e, st):
        return self.comp("gen", e, st)

    def e_DictComp(self, e, st):
        return self.comp("dict", e, st)

    def e_Lambda(self, e, st):
        x = st.copy()
        lv = self.level
        self.level += 1
        for i, a in enumerate(e.args.args):
            x.env[a.arg] = ("bnd", lv, f"a{i}")
        try:
            b = self.ev(e.body, x)
        finally:
            self.level = lv
        return ("lam", lv, len(e.args.args), b)

    def e_IfExp(self, e, st):
        c = self.truth(self.ev(e.test, st), st)
        if c[0] == "c":
            return self.ev(e.body if c[2] else e.orelse, st)
        a, b = st.copy(), st.copy()
        self.learn(a, c, True)
        self.learn(b, c, False)
        return self.ite(c, self.ev(e.body, a), self.ev(e.orelse, b))

    def e_BoolOp(self, e, st):
        o = "and" if isinstance(e.op, ast.And) else "or"
        items = []
        x = st.copy()
        for v in e.values:
            t = self.ev(v, x)
            b = self.truth(t, x)
            if b[0] == "c":
                if b[2] == (o == "or"):
                    items.append(t)
                    break
                if v is e.values[-1]:
                    items.append(t)
                continue
            items.append(t)
            self.learn(x, b, o == "and")
        if not items:
            return TRUE if o == "and" else FALSE
        if len(items) == 1:
            return items[0]
        return self.boolop(o, items)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_Starred(self, e, st):
        return ("star", self.ev(e.value, st))

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            return self.neg(self.truth(v, st))
        o = {"USub": "-", "UAdd": "+", "Invert": "~"}[type(e.op).__name__]
        if v[0] == "c" and isinstance(v[2], (int, float, complex)):
            return const(-v[2] if o == "-" else v[2]) if o != "~" else const(~v[2])
        if o == "+":
            return v
        return ("un", o, v)

    OPS = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "Pow": "**",
           "LShift": "<<", "RShift": ">>", "BitOr": "|", "BitAnd": "&", "BitXor": "^", "MatMult": "@"}

    def binop(self, o, a, b):
        o = self.OPS[o]
        if a[0] == "c" and b[0] == "c" and isinstance(a[2], (int, float, complex)) and isinstance(
                b[2], (int, float, complex)):
            try:
                return const({"+": lambda: a[2] + b[2], "-": lambda: a[2] - b[2], "*": lambda: a[2] * b[2],
                              "/": lambda: a[2] / b[2], "//": lambda: a[2] // b[2], "%": lambda: a[2] % b[2],
                              "**": lambda: a[2] ** b[2] if abs(b[2]) < 100 else None,
                              "<<": lambda: a[2] << b[2] if b[2] < 100 else None,
                              ">>": lambda: a[2] >> b[2]}[o]())
            except Exception:
                pass
        if o == "+" and a[0] in ("c", "fstr") and b[0] in ("c", "fstr") and (
                a[0] == "fstr" or isinstance(a[2], str)) and (b[0] == "fstr" or isinstance(b[2], str)):
            return self.fstr([*(a[1] if a[0] == "fstr" else [a]), *(b[1] if b[0] == "fstr" else [b])])
        if o == "+" and a[0] == b[0] and a[0] in ("tuple", "list"):
            return (a[0], a[1] + b[1])
        return ("op", o, a, b)

    def e_BinOp(self, e, st):
        return self.binop(type(e.op).__name__, self.ev(e.left, st), self.ev(e.right, st))

    CMP = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Is": "is",
           "IsNot": "isnot", "In": "in", "NotIn": "notin"}

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        items = []
        for o, c in zip(e.ops, e.comparators):
            r = self.ev(c, st)
            items.append(self.cmp(self.CMP[type(o).__name__], left, r))
            left = r
        if len(items) == 1:
            return items[0]
        return self.boolop("and", items)

    # ------------------------------------------------------------ calls
    def can_inline(self, f: Func):
        return (f.qual not in self.stack and len(self.stack) <= self.depth and not f.abstract
                and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node))
                and self.inline(f))

    def args(self, e: ast.Call, st):
        pos = self.seq(e.args, st)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value, st)
                if v[0] == "dict" and all(x[0][0] == "c" for x in v[1]):
                    for a, b in v[1]:
                        kw[a[2]] = b
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = self.ev(k.value, st)
        return list(pos), kw

    def e_Call(self, e, st):
        fn = e.func
        # super().m(...)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(
                fn.value.func, ast.Name) and fn.value.func.id == "super" and self.f.cls:
            pos, kw = self.args(e, st)
            me = st.env.get(self.f.params[0], ("p", "self")) if self.f.params else ("p", "self")
            cls = self.cls_of.get(me, self.f.cls)
            mro = self.p.classes[cls].mro if cls in self.p.classes else []
            if self.f.cls in mro:
                for k in mro[mro.index(self.f.cls) + 1:]:
                    kc = self.p.classes.get(k)
                    if kc and fn.attr in kc.methods:
                        f = kc.methods[fn.attr]
                        if self.can_inline(f) or self.ref and f.qual not in self.stack and not f.abstract:
                            return self.call_func(f, [me, *pos], kw, st, e)
                        break
            return ("mcall", ("super", self.f.cls), fn.attr, tuple(pos), self.kw(kw))
        if isinstance(fn, ast.Attribute):
            d = self.p.dotted(self.mod, fn)
            root = fn
            while isinstance(root, ast.Attribute):
                root = root.value
            if d is None or isinstance(root, ast.Name) and root.id in st.env and st.env[root.id][0] != "ref":
                b = self.ev(fn.value, st)
                pos, kw = self.args(e, st)
                return self.method(b, fn.attr, pos, kw, st, e)
        v = self.ev(fn, st)
        pos, kw = self.args(e, st)
        return self.apply(v, pos, kw, st, e)

    @staticmethod
    def kw(kw):
        return tuple(sorted(kw.items(), key=lambda x: x[0]))

    def apply(self, v, pos, kw, st, e):
        if v[0] == "ref":
            q = v[1]
            if q in self.p.funcs:
                f = self.p.funcs[q]
                if self.can_inline(f) or f.name == "__init__" and self.ref and f.qual not in self.stack:
                    return self.call_func(f, pos, kw, st, e)
                return self.note(("call", q, tuple(pos), self.kw(kw)), e)
            if q in self.p.classes:
                if self.fresh:
                    self.uid += 1
                    kw = {**kw, "#": const(self.uid)}
                return self.note(("new", q, *self.norm_args(q, pos, kw)), e)
            if "." in q and q.rpartition(".")[0] in self.p.classes:
                cls, _, m = q.rpartition(".")
                f = self.p.lookup(cls, m)
                if f is not None and self.can_inline(f):
                    if f.kind == "class":
                        return self.call_func(f, [("ref", cls), *pos], kw, st, e)
                    return self.call_func(f, pos, kw, st, e)
            return self.builtin(q, pos, kw, st, e)
        if v[0] == "bm":
            return self.method(v[1], v[2], pos, kw, st, e)
        if v[0] == "fn":
            return self.local(v[1], pos, kw, st, e)
        if v[0] == "lam" and len(pos) == v[2]:
            return self.subst(v[3], {("bnd", v[1], f"a{i}"): x for i, x in enumerate(pos)})
        return self.note(("call", v, tuple(pos), self.kw(kw)), e)

    def note(self, t, e):
        if self.on_call:
            self.on_call(self.f, e, t)
        return t

    def norm_args(self, cls, pos, kw):
        """Constructor arguments keyed by parameter name."""
        f = self.p.lookup(cls, "__init__")
        if f is None or any(x[0] == "star" for x in pos) or "**" in kw:
            return tuple(pos), self.kw(kw)
        ps = f.params[1:]
        d = dict(kw)
        rest = []
        for i, x in enumerate(pos):
            if i < len(ps):
                d[ps[i]] = x
            else:
                rest.append(x)
        return tuple(rest), self.kw(d)

    def subst(self, t, m):
        if not isinstance(t, tuple):
            return t
        if t in m:
            return m[t]
        return tuple(self.subst(x, m) for x in t)

    def builtin(self, q, pos, kw, st, e):
        if q in ("tuple", "list") and len(pos) == 1 and pos[0][0] in ("tuple", "list"):
            return (q, pos[0][1])
        if q in ("typing.cast", "cast") and len(pos) == 2:
            return pos[1]
        if q == "bool" and len(pos) == 1:
            return self.truth(pos[0], st)
        if q == "len" and len(pos) == 1 and pos[0][0] in ("tuple", "list") and not any(
                x[0] == "star" for x in pos[0][1]):
            return const(len(pos[0][1]))
        if q in ("any", "all") and len(pos) == 1 and pos[0][0] in ("tuple", "list", "set") and not any(
                x[0] == "star" for x in pos[0][1]):
            return self.boolop("or" if q == "any" else "and", [self.truth(x, st) for x in pos[0][1]])
        if q == "int" and len(pos) == 1 and pos[0][0] == "c" and isinstance(pos[0][2], int):
            return const(int(pos[0][2]))
        if q == "dict" and not pos:
            return ("dict", tuple((const(k), v) for k, v in kw.items()))
        if q == "getattr" and len(pos) >= 2 and pos[1][0] == "c":
            return self.attr(pos[0], pos[1][2], st)
        if q == "isinstance":
            t = ("call", "isinstance", tuple(pos), ())
            if pos[0] in self.cls_of or pos[0][0] == "new":
                cls = self.class_of(pos[0])
                cs = pos[1][1] if pos[1][0] == "tuple" else (pos[1],)
                if all(c[0] == "ref" for c in cs):
                    return const(any(self.p.is_sub(cls, c[1]) for c in cs))
            return t
        return self.note(("call", q, tuple(pos), self.kw(kw)), e)

    def method(self, b, name, pos, kw, st, e):
        if self.enum_member(b):
            f = self.p.lookup(b[1].rpartition(".")[0], name)
            if f is not None and self.can_inline(f):
                return self.call_func(f, pos if f.kind == "static" else [b, *pos], kw, st, e)
        if b[0] == "ref":
            return self.apply(("ref", b[1] + "." + name), pos, kw, st, e)
        if b[0] == "ite" and False:
            pass
        expr = e.func.value if e is not None and isinstance(e.func, ast.Attribute) else None
        cls = self.class_of(b, expr)
        if cls:
            f = self.p.lookup(cls, name)
            if f is not None:
                if b in self.cls_of or b[0] == "new":
                    fs = [f]
                else:
                    fs = [x for x in self.p.dispatch(cls, name) if not x.abstract]
                if len(fs) == 1 and self.can_inline(fs[0]):
                    if fs[0].kind == "static":
                        return self.call_func(fs[0], pos, kw, st, e)
                    if fs[0].kind == "class":
                        return self.call_func(fs[0], [("ref", cls), *pos], kw, st, e)
                    return self.call_func(fs[0], [b, *pos], kw, st, e)
        if name in self.MUT and expr is not None and (
                self.containerish(b) or self.container_type(expr)):
            new, res = self.mutated(b, name, pos, kw)
            if new == b or self.rebind(expr, b, new, st):
                return res
        if name == "copy" and b[0] in self.VALUES and not pos:
            return b
        if name in ("items", "keys", "values") and b[0] == "dict" and all(k[0] == "c" for k, _ in b[1]):
            if name == "items":
                return ("list", tuple(("tuple", kv) for kv in b[1]))
            return ("list", tuple(kv[0 if name == "keys" else 1] for kv in b[1]))
        if name == "get" and b[0] == "dict" and pos and all(self.key_eq(pos[0], k) is not None for k, _ in b[1]):
            for k, v in reversed(b[1]):
                if k == pos[0]:
                    return v
            return pos[1] if len(pos) > 1 else NONE
        return self.note(("mcall", b, name, tuple(pos), self.kw(kw)), e)

    def bind(self, f: Func, pos, kw, st):
        """Parameter environment, or None if the call shape is not understood."""
        env = {}
        ps = list(f.params)
        if any(x[0] == "star" for x in pos) and not f.vararg:
            return None
        kw = dict(kw)
        star = kw.pop("**", None)
        rest = []
        for i, x in enumerate(pos):
            if i < len(ps) and x[0] != "star" and not rest:
                env[ps[i]] = x
            else:
                rest.append(x)
        if rest and not f.vararg:
            return None
        if f.vararg:
            env[f.vararg] = ("tuple", tuple(rest))
        extra = []
        for k, v in kw.items():
            if k in ps or k in f.kwonly:
                env[k] = v
            else:
                extra.append((const(k), v))
        if f.kwarg:
            if star is not None:
                extra.append((("star", star), NONE))
            env[f.kwarg] = star if star is not None and len(extra) == 1 else ("dict", tuple(extra))
        elif extra:
            return None
        for k in [*ps, *f.kwonly]:
            if k not in env:
                if star is not None:
                    env[k] = ("idxd", star, const(k))
                elif k in f.defaults:
                    env[k] = self.default(f, k)
                else:
                    return None
        return env

    def default(self, f, k):
        self.fstack.append(f)
        try:
            return self.ev(f.defaults[k], State({}, {}, {}))
        finally:
            self.fstack.pop()

    def call_func(self, f: Func, pos, kw, st, e):
        env = self.bind(f, pos, kw, st)
        if env is None:
            return self.note(("call", f.qual, tuple(pos), self.kw(kw)), e)
        env0 = dict(env)
        x = State(env, dict(st.heap), dict(st.facts))
        self.stack.append(f.qual)
        self.fstack.append(f)
        try:
            outs = self.block(f.node.body, x)
        except Blowup:
            return ("call", f.qual, tuple(pos), self.kw(kw))
        finally:
            self.stack.pop()
            self.fstack.pop()
        ok = [o for o in outs if o[1] != "raise"]
        if self.ref:
            self.pend(outs, st)
        if not ok:
            return ("opq", "raises")
        v = self.tree([(o[0], self.outval(o)) for o in ok])
        # merge heaps
        keys = []
        for o in ok:
            for k in o[3].heap:
                if k not in keys:
                    keys.append(k)
        for k in keys:
            st.heap[k] = self.tree([(o[0], o[3].heap.get(k, self.heap_default(k))) for o in ok])
        self.copy_out(f, env0, ok, st, e)
        return v

    def pend(self, outs, st):
        """Remember the conditions under which an expanded call raises."""
        rz = st.heap.get(("rz",), ())
        for o in outs:
            if o[1] == "raise":
                c = self.boolop("and", [c if v else self.neg(c) for c, v in o[0]])
                rz = (*rz, (c, o[2]))
        if rz:
            st.heap[("rz",)] = rz

    def local(self, node, pos, kw, st, e):
        f = None
        for g in self.p.funcs.values():
            if g.node is node:
                f = g
                break
        if f is None or node in [getattr(x, "node", None) for x in self.fstack] or len(self.stack) > self.depth:
            return ("call", "local." + node.name, tuple(pos), self.kw(kw))
        env = self.bind(f, pos, kw, st)
        if env is None:
            return ("call", "local." + node.name, tuple(pos), self.kw(kw))
        env = dict(env)
        x = State({**st.env, **env}, dict(st.heap), dict(st.facts))
        self.stack.append(f.qual)
        self.fstack.append(f)
        try:
            outs = self.block(node.body, x)
        finally:
            self.stack.pop()
            self.fstack.pop()
        ok = [o for o in outs if o[1] != "raise"]
        if self.ref:
            self.pend(outs, st)
            keys = []
            for o in ok:
                keys += [k for k in o[3].heap if k not in keys]
            for k in keys:
                st.heap[k] = self.tree([(o[0], o[3].heap.get(k, self.heap_default(k))) for o in ok])
            if ok:
                self.copy_out(f, env, ok, st, e)
                free = {n for n in st.env if n not in env}
                nl = {n for d in ast.walk(node) if isinstance(d, ast.Nonlocal) for n in d.names}
                stored = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                for n in free - (stored - nl):
                    vals = [o[3].env.get(n) for o in ok]
                    if any(v != st.env[n] for v in vals) and None not in vals:
                        st.env[n] = self.tree([(o[0], v) for o, v in zip(ok, vals)])
        return self.tree([(o[0], self.outval(o)) for o in ok]) if ok else ("opq", "raises")


def show(t, depth=0):
    """Readable text of a term."""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    s = show
    if depth > 9:
        return "…"
    d = depth + 1
    if k == "c":
        return repr(t[2])
    if k == "p":
        return t[1]
    if k == "ref":
        return t[1].removeprefix("b_asic.")
    if k == "attr":
        return f"{s(t[1], d)}.{t[2]}"
    if k == "idx":
        return f"{s(t[1], d)}[{s(t[2], d)}]"
    if k in ("call", "new"):
        n = t[1] if isinstance(t[1], str) else s(t[1], d)
        return f"{n.removeprefix('b_asic.')}({', '.join([s(x, d) for x in t[2]] + [f'{a}={s(b, d)}' for a, b in t[3]])})"
    if k == "mcall":
        return f"{s(t[1], d)}.{t[2]}({', '.join([s(x, d) for x in t[3]] + [f'{a}={s(b, d)}' for a, b in t[4]])})"
    if k == "op":
        return f"({s(t[2], d)} {t[1]} {s(t[3], d)})"
    if k == "un":
        return f"{t[1]}{s(t[2], d)}"
    if k == "cmp":
        return f"({s(t[2], d)} {t[1]} {s(t[3], d)})"
    if k in ("and", "or"):
        return "(" + f" {k} ".join(s(x, d) for x in t[1]) + ")"
    if k == "not":
        return f"not {s(t[1], d)}"
    if k == "ite":
        return f"({s(t[2], d)} if {s(t[1], d)} else {s(t[3], d)})"
    if k in ("tuple", "list", "set"):
        return k + "(" + ", ".join(s(x, d) for x in t[1]) + ")"
    if k == "dict":
        return "{" + ", ".join(f"{s(a, d)}: {s(b, d)}" for a, b in t[1]) + "}"
    if k == "fstr":
        return "f'" + "".join(x[2] if x[0] == "c" else "{" + s(x[1], d) + "}" for x in t[1]) + "'"
    return "<" + " ".join(s(x, d) if isinstance(x, tuple) else str(x) for x in t) + ">"
