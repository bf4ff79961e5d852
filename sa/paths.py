"""Path-sensitive definite assignment: local variables (and attributes of self) that a path leaves unset.

A state is (unset names, known conditions). Conditions that are written the same way, compare one
expression with constants, or test a flag that was assigned a constant are correlated; loops are taken to
run at least once. A path is only reported when its conditions are consistent in this sense.
"""

from __future__ import annotations

import ast

CAP = 400


class TooMany(Exception):
    pass


def key(e):
    return ast.dump(e)


def names_in(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


class Paths:
    """report(name, node, conditions) is called for each use of an unset local name."""

    def __init__(self, fn: ast.FunctionDef, track, report, self_name=None, deep=None, merge=False, strict=False):
        self.strict = strict            # loops may run zero times
        self.fn = fn
        self.track = set(track)
        self.report = report
        self.self_name = self_name      # tracks self.X stores when given
        self.deep = deep                # call node -> names it assigns
        self.merge = merge              # one state: what may be unset on some path, conditions ignored
        self.names = {}                 # condition key -> names it mentions
        self.returns = []
        self.loops = []
        self.texts = {}
        self.count = {}
        for n in ast.walk(fn):
            for t in self.tests(n):
                if merge:
                    break
                k = key(self.lit(t)[0])
                self.count[k] = self.count.get(k, 0) + 1

    def tests(self, n):
        """Atomic conditions tested by a statement."""
        if isinstance(n, (ast.If, ast.While, ast.Assert)):
            todo = [n.test]
        elif isinstance(n, ast.match_case) and n.guard is not None:
            todo = [n.guard]
        elif isinstance(n, ast.Match):
            todo = [ast.Compare(n.subject, [ast.Eq()], [ast.Constant(0)])] * 2
        else:
            return
        while todo:
            e = self.spread(todo.pop())
            if isinstance(e, ast.BoolOp):
                todo += e.values
            elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                todo.append(e.operand)
            else:
                yield e

    def run(self):
        start = {(frozenset(self.track), frozenset())}
        out = self.block(self.fn.body, start)
        return out | set(self.returns)

    # ------------------------------------------------------------ conditions
    @staticmethod
    def spread(e):
        """isinstance with several classes and membership in a tuple of constants as a disjunction."""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2:
            c = e.args[1]
            cs = c.elts if isinstance(c, ast.Tuple) else None
            if isinstance(c, ast.BinOp) and isinstance(c.op, ast.BitOr):
                cs, todo = [], [c]
                while todo:
                    x = todo.pop()
                    if isinstance(x, ast.BinOp) and isinstance(x.op, ast.BitOr):
                        todo += [x.left, x.right]
                    else:
                        cs.append(x)
            if cs:
                return ast.BoolOp(ast.Or(), [ast.Call(e.func, [e.args[0], x], []) for x in cs])
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)) and isinstance(
                e.comparators[0], (ast.Tuple, ast.List, ast.Set)) and e.comparators[0].elts and all(
                isinstance(x, ast.Constant) for x in e.comparators[0].elts):
            r = ast.BoolOp(ast.Or(), [ast.Compare(e.left, [ast.Eq()], [x]) for x in e.comparators[0].elts])
            return ast.UnaryOp(ast.Not(), r) if isinstance(e.ops[0], ast.NotIn) else r
        return e

    def lit(self, e):
        """(key, polarity, constant or None) of an atomic condition."""
        pol = True
        while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            e, pol = e.operand, not pol
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op, l, r = e.ops[0], e.left, e.comparators[0]
            if isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
                if isinstance(op, (ast.IsNot, ast.NotEq)):
                    pol = not pol
                if isinstance(l, ast.Constant) and not isinstance(r, ast.Constant):
                    l, r = r, l
                if isinstance(r, ast.Constant):
                    return l, ("==", repr(r.value)), pol
                return (ast.Tuple([l, r]), ("eq",), pol)
            if isinstance(op, (ast.In, ast.NotIn)):
                return ast.Tuple([l, r]), ("in",), pol != isinstance(op, ast.NotIn)
            inv = {ast.GtE: ast.Lt, ast.LtE: ast.Gt}
            if type(op) in inv:
                e = ast.Compare(l, [inv[type(op)]()], [r])
                pol = not pol
        return e, ("true",), pol

    def value(self, e, lits):
        """True / False / None (unknown) of a condition under known literals."""
        e = self.spread(e)
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.BoolOp):
            vs = [self.value(x, lits) for x in e.values]
            if isinstance(e.op, ast.And):
                return False if False in vs else (True if all(v is True for v in vs) else None)
            return True if True in vs else (False if all(v is False for v in vs) else None)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.value(e.operand, lits)
            return None if v is None else not v
        if isinstance(e, ast.NamedExpr):
            return None
        sub, how, pol = self.lit(e)
        k = key(sub)
        for (k2, how2, v) in lits:
            if k2 != k:
                continue
            if how2 == how:
                return v == pol
            if v and how2[0] == "==" and how[0] == "==":
                return not pol                       # equal to another constant
            if how == ("true",) and how2[0] == "==" and v:
                try:
                    return bool(ast.literal_eval(how2[1])) == pol
                except ValueError:
                    pass
            if how[0] == "==" and how2 == ("true",):
                try:
                    truth = bool(ast.literal_eval(how[1]))
                except ValueError:
                    continue
                if truth != v:
                    return not pol
        return None

    def assume(self, e, want, lits):
        """Literal sets (possibly several) in which the condition has the wanted value."""
        e = self.spread(e)
        v = self.value(e, lits)
        if v is not None:
            return [lits] if v == want else []
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.assume(e.operand, not want, lits)
        if isinstance(e, ast.BoolOp):
            conj = isinstance(e.op, ast.And) == want
            if conj:
                sets = [lits]
                for x in e.values:
                    sets = [y for s in sets for y in self.assume(x, want, s)]
                return sets
            out = []
            cur = [lits]
            for x in e.values:
                out += [y for s in cur for y in self.assume(x, want, s)]
                cur = [y for s in cur for y in self.assume(x, not want, s)]
            return out
        if isinstance(e, ast.NamedExpr):
            return [lits]
        sub, how, pol = self.lit(e)
        k = key(sub)
        if self.count.get(k, 0) < 2:
            return [lits]
        self.names.setdefault(k, names_in(sub))
        self.texts[(k, how)] = ast.unparse(sub) + ("" if how == ("true",) else " " + " ".join(how))
        return [lits | {(k, how, want == pol)}]

    def kill(self, names, lits):
        return frozenset(x for x in lits if not (self.names.get(x[0], set()) & names))

    # ------------------------------------------------------------ statements
    def block(self, body, states):
        for s in body:
            states = self.stmt(s, states)
            if self.merge and len(states) > 1:
                states = {(frozenset().union(*[u for u, _ in states]), frozenset())}
            if len(states) > CAP:
                raise TooMany
        return states

    def uses(self, e, states):
        """Report uses of unset names in an expression; apply walrus and self stores of calls."""
        if e is None:
            return states
        low = set().union(*[u for u, _ in states], set())
        for n in ast.walk(e):
            if not low:
                break
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.track:
                if self.in_lambda(e, n):
                    continue
                for u, lits in states:
                    if n.id in u:
                        self.report(n.id, n, self.show(lits))
        new = {n.target.id for n in ast.walk(e) if isinstance(n, ast.NamedExpr) and isinstance(n.target, ast.Name)}
        if self.deep is not None:
            for n in ast.walk(e):
                if isinstance(n, ast.Call):
                    new |= self.deep(n)
        return {(u - new, l) for u, l in states} if new else states

    def in_lambda(self, e, n):
        for x in ast.walk(e):
            if isinstance(x, (ast.Lambda, ast.GeneratorExp)) and any(y is n for y in ast.walk(x)):
                return True
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp)) and any(y is n for y in ast.walk(x)):
                return True
            if isinstance(x, (ast.IfExp, ast.BoolOp)) and x is not n and any(y is n for y in ast.walk(x)):
                first = x.test if isinstance(x, ast.IfExp) else x.values[0]
                if not any(y is n for y in ast.walk(first)):
                    return True
        return False

    def show(self, lits):
        return sorted(("" if v else "not ") + f"({self.texts.get((k, how), '?')})" for k, how, v in lits)

    def assigned(self, t):
        out = set()
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            if self.self_name and isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) \
                    and isinstance(n.value, ast.Name) and n.value.id == self.self_name:
                out.add("self." + n.attr)
        return out

    def store(self, names, states, value=None, target=None):
        out = set()
        for u, lits in states:
            l = self.kill(names, lits)
            if isinstance(target, ast.Name) and isinstance(value, ast.Constant):
                k = key(ast.Name(target.id, ast.Load()))
                if not self.count.get(k):
                    out.add((u - names, l))
                    continue
                self.names[k] = {target.id}
                self.texts[(k, ("==", repr(value.value)))] = f"{target.id} == {value.value!r}"
                l = l | {(k, ("==", repr(value.value)), True)}
            elif isinstance(target, ast.Name) and isinstance(value, ast.Call | ast.List | ast.Tuple | ast.Dict) and (
                    not isinstance(value, ast.Call) or isinstance(value.func, ast.Name) and value.func.id[:1].isupper()):
                k = key(ast.Name(target.id, ast.Load()))
                if self.count.get(k):
                    self.names[k] = {target.id}
                    l = l | {(k, ("==", "None"), False)}
            out.add((u - names, l))
        return out

    def branch(self, test, states):
        yes, no = set(), set()
        for u, lits in states:
            yes |= {(u, x) for x in self.assume(test, True, lits)}
            no |= {(u, x) for x in self.assume(test, False, lits)}
        return yes, no

    def stmt(self, s, states):
        if not states:
            return states
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return self.store({s.name}, states)
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return self.store({(a.asname or a.name).split(".")[0] for a in s.names}, states)
        if isinstance(s, ast.Assign):
            states = self.uses(s.value, states)
            for t in s.targets:
                states = self.target_uses(t, states)
            for t in s.targets:
                states = self.store(self.assigned(t), states, s.value, t)
            return states
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return states
            states = self.uses(s.value, states)
            states = self.target_uses(s.target, states)
            return self.store(self.assigned(s.target), states, s.value, s.target)
        if isinstance(s, ast.AugAssign):
            states = self.uses(s.value, states)
            if isinstance(s.target, ast.Name):
                states = self.uses(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), states)
            else:
                states = self.target_uses(s.target, states)
            return self.store(self.assigned(s.target), states)
        if isinstance(s, ast.Expr):
            return self.uses(s.value, states)
        if isinstance(s, ast.Return):
            self.returns += list(self.uses(s.value, states))
            return set()
        if isinstance(s, ast.Raise):
            self.uses(s.exc, states)
            return set()
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.loops:
                self.loops[-1][0 if isinstance(s, ast.Break) else 1].update(states)
            return set()
        if isinstance(s, ast.If):
            states = self.uses(s.test, states)
            yes, no = self.branch(s.test, states)
            return self.block(s.body, yes) | self.block(s.orelse, no)
        if isinstance(s, ast.Match):
            states = self.uses(s.subject, states)
            out, rest = set(), states
            for c in s.cases:
                bound = {n.name for n in ast.walk(c.pattern) if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name}
                tests = self.pattern(s.subject, c.pattern)
                if tests is None:
                    yes = self.store(bound, rest)
                    no = rest
                elif tests is True:
                    yes, no = self.store(bound, rest), set() if c.guard is None else rest
                else:
                    yes, no = self.branch(tests, rest)
                if c.guard is not None:
                    yes = self.uses(c.guard, yes)
                    yes, no2 = self.branch(c.guard, yes)
                    no = no | no2
                out |= self.block(c.body, yes)
                rest = no
            return out | rest
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            return self.loop(s, states)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                states = self.uses(i.context_expr, states)
                if i.optional_vars is not None:
                    states = self.store(self.assigned(i.optional_vars), states)
            return self.block(s.body, states)
        if isinstance(s, ast.Try):
            n = len(self.returns)
            inner = self.block(s.body, states)
            touched = set()
            for x in s.body:
                touched |= {y for z in ast.walk(x) if isinstance(z, (ast.Assign, ast.AnnAssign, ast.For, ast.With, ast.AugAssign))
                            for y in self.assigned(z)}
            start = {(u - touched, self.kill(touched, l)) for u, l in states}
            out = self.block(s.orelse, inner)
            for h in s.handlers:
                st = start
                if h.name:
                    st = self.store({h.name}, st)
                out |= self.block(h.body, st)
            del n
            if s.finalbody:
                out = self.block(s.finalbody, out)
            return out
        if isinstance(s, ast.Assert):
            states = self.uses(s.test, states)
            return self.branch(s.test, states)[0]
        if isinstance(s, ast.Delete):
            return states
        return states

    def pattern(self, subject, pat):
        if isinstance(pat, ast.MatchAs) and pat.pattern is None:
            return True
        if isinstance(pat, ast.MatchValue):
            return ast.Compare(subject, [ast.Eq()], [pat.value])
        if isinstance(pat, ast.MatchSingleton):
            return ast.Compare(subject, [ast.Is()], [ast.Constant(pat.value)])
        if isinstance(pat, ast.MatchOr):
            xs = [self.pattern(subject, x) for x in pat.patterns]
            if any(x is None for x in xs):
                return None
            if any(x is True for x in xs):
                return True
            return ast.BoolOp(ast.Or(), xs)
        if isinstance(pat, ast.MatchClass) and not pat.patterns and not pat.kwd_patterns:
            return ast.Call(ast.Name("isinstance", ast.Load()), [subject, pat.cls], [])
        return None

    def target_uses(self, t, states):
        for n in ast.iter_child_nodes(t) if isinstance(t, (ast.Tuple, ast.List)) else [t]:
            if isinstance(n, (ast.Tuple, ast.List)):
                states = self.target_uses(n, states)
            elif isinstance(n, ast.Attribute):
                states = self.uses(n.value, states)
            elif isinstance(n, ast.Subscript):
                states = self.uses(n.value, states)
                states = self.uses(n.slice, states)
        return states

    @staticmethod
    def runs(s):
        """The loop has at least one pass."""
        it = getattr(s, "iter", None)
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("enumerate", "reversed", "sorted") and it.args:
            it = it.args[0]
        if isinstance(it, (ast.Tuple, ast.List, ast.Set)):
            return bool(it.elts)
        if isinstance(it, ast.Constant):
            return bool(it.value)
        return isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and len(
            it.args) == 1 and isinstance(it.args[0], ast.Constant) and isinstance(it.args[0].value, int) and it.args[0].value > 0

    def loop(self, s, states):
        is_while = isinstance(s, ast.While)
        if not is_while:
            states = self.uses(s.iter, states)
        forever = is_while and isinstance(s.test, ast.Constant) and bool(s.test.value)
        brk, head, seen, exits = set(), states, set(), set()
        first = True
        while head - seen or first:
            todo = head - seen if not first else head
            seen |= todo
            if is_while:
                st = self.uses(s.test, todo)
                yes, no = self.branch(s.test, st)
                if not first:
                    exits |= no
                elif no and not yes:
                    exits |= no
            else:
                yes = self.store(self.assigned(s.target), todo)
            first = False
            self.loops.append((set(), set()))
            end = self.block(s.body, yes)
            b, c = self.loops.pop()
            brk |= b
            head = end | c
            if not is_while:
                exits |= head
            if len(seen) > CAP:
                raise TooMany
        if self.strict and not forever and not self.runs(s):
            exits |= self.branch(s.test, states)[1] if is_while else states
        if forever:
            exits = set()
        # a search loop that sets a name on the way is taken to set it
        body = set().union(*[self.assigned(z) for x in s.body for z in ast.walk(x)
                             if isinstance(z, (ast.Name, ast.Attribute))], set())
        out = self.block(s.orelse, exits) | brk
        if self.strict:
            return out
        return {(u - body, l) for u, l in out}
