"""Points-to / mutation-effect analysis with per-function summaries.

Abstract location:
  ('P', param, path)   an object reachable at entry from parameter `param`
                       through `path` (field labels, bounded, '*' = anything below)
  ('G', name, path)    the same, below a module-level object
  ('N', site, ctx)     an object created in this function (ctx '') or in a callee
                       (ctx = the call site through which it came)

Field labels: attribute names, '[k]' (dict keys), '[v]' (dict values and
elements of sequences and sets), '#i' (tuple positions).

A summary says which ('P'|'G') locations a call may mutate (with a witness),
what its result may alias, and what it stores where.  Summaries are computed
bottom-up to a fixpoint over the resolved call graph (class-hierarchy dispatch).
"""

from __future__ import annotations

import ast
from collections import deque
from dataclasses import dataclass, field

from .model import Func, Program
from .typed import ANY, NONE, members

K = 3
EMPTY: frozenset = frozenset()

PRIMS = {
    "builtins.int", "builtins.str", "builtins.bool", "builtins.float", "builtins.complex",
    "builtins.bytes", "builtins.slice", "builtins.range", "numbers.Number",
    "builtins.NoneType", "types.NoneType", "builtins.type", "typing.SupportsIndex",
}
MUTATORS = {
    "append", "add", "appendleft", "insert", "extend", "extendleft", "update", "setdefault",
    "pop", "popleft", "popitem", "remove", "discard", "clear", "sort", "reverse",
    "difference_update", "intersection_update", "symmetric_difference_update", "move_to_end",
    "rotate", "__setitem__", "__delitem__",
}
CONTAINERS = {"builtins.list", "builtins.dict", "builtins.set", "builtins.tuple",
              "builtins.frozenset", "collections.deque", "collections.defaultdict",
              "collections.OrderedDict", "collections.Counter", "typing.Mapping",
              "typing.Sequence", "typing.Iterable", "typing.MutableMapping",
              "typing.MutableSequence", "typing.Generator", "typing.Iterator",
              "typing.Collection", "typing.AbstractSet", "typing.KeysView",
              "typing.ValuesView", "typing.ItemsView", "_collections_abc.dict_keys",
              "_collections_abc.dict_values", "_collections_abc.dict_items"}
BAD_BYNAME = {"get", "items", "keys", "values", "copy", "update", "add", "append", "name",
              "index", "pop", "remove", "insert", "extend", "sort", "clear", "join", "split",
              "format", "count", "write", "close", "cast", "show", "connect", "run", "shape",
              "start", "stop", "accept", "emit", "set", "reset"}


CONT_LABELS = MUTATORS | {"[]", "del[]", "+=", "[insert on read]", "next()", "shuffle", "heappush",
                          "heappop", "heapify"}


@dataclass
class Event:
    loc: tuple
    label: str          # field label, method name
    node: ast.AST       # in this function
    text: str
    chain: tuple        # tuple of "path:line function"
    memo: bool = False


@dataclass
class Summary:
    mutates: dict = field(default_factory=dict)    # (loc,label) -> Event
    ret: frozenset = EMPTY
    stores: dict = field(default_factory=dict)     # (loc, field) -> frozenset   (P/G owner)
    nheap: dict = field(default_factory=dict)      # (Nloc, field) -> frozenset
    shadow: dict = field(default_factory=dict)     # Nloc -> frozenset
    kinds: dict = field(default_factory=dict)      # Nloc -> kind
    ntype: dict = field(default_factory=dict)      # Nloc -> container type

    def sig(self):
        return (frozenset(self.mutates), self.ret,
                frozenset((k, v) for k, v in self.stores.items()),
                frozenset((k, v) for k, v in self.nheap.items()),
                frozenset((k, v) for k, v in self.shadow.items()))


def path_add(path, f):
    if path and path[-1] == "*":
        return path
    if len(path) >= K:
        return (*path[:K], "*")
    return path + (f,)


def star(path):
    if path and path[-1] == "*":
        return path
    return (*path[:K], "*")


class Engine:
    def __init__(self, prog: Program, include=None):
        self.p = prog
        self.include = include or (lambda f: True)
        self.sum: dict[str, Summary] = {}
        self.fa: dict[str, FA] = {}
        self.deps: dict[str, set[str]] = {}
        self.defaultdict_fields: set[str] = set()
        self.enum_classes = {
            q for q, c in prog.classes.items()
            if any(b in ("enum.Enum", "enum.IntEnum", "enum.Flag") for b in c.mro)}
        self.runs = 0
        self._labels: dict = {}
        self._hier: dict = {}
        self._ha: dict = {}
        self._ft: dict = {}
        self._compat: dict = {}

    # -- types
    def prim(self, t) -> bool:
        if t[0] == "any":
            return False
        for m in members(t):
            if m[0] == "none":
                continue
            if m[0] == "inst":
                n = m[1]
                if n in PRIMS or n in self.enum_classes or n.startswith("b_asic.types."):
                    continue
                return False
            if m[0] in ("type",):
                continue
            return False
        return True

    def run(self, funcs=None):
        p = self.p
        todo = deque(f for f in p.funcs.values() if not f.nested and self.include(f)
                     and not f.abstract)
        inq = {f.qual for f in todo}
        count: dict[str, int] = {}
        while todo:
            f = todo.popleft()
            inq.discard(f.qual)
            count[f.qual] = count.get(f.qual, 0) + 1
            if count[f.qual] > 25:
                continue
            old = self.sum.get(f.qual)
            fa = FA(self, f)
            s = fa.analyse()
            self.fa[f.qual] = fa
            self.runs += 1
            if old is None or old.sig() != s.sig():
                self.sum[f.qual] = s
                for d in self.deps.get(f.qual, ()):
                    if d not in inq:
                        inq.add(d)
                        todo.append(p.funcs[d])
        return self

    # -- typing of locations
    SEQ = {"builtins.list", "builtins.set", "builtins.frozenset", "collections.deque", "builtins.tuple",
           "typing.Sequence", "typing.Iterable", "typing.Iterator", "typing.Collection", "typing.AbstractSet",
           "typing.MutableSequence", "typing.Generator", "typing.KeysView", "typing.ValuesView",
           "typing.MutableSet", "typing.Container", "typing.Reversible"}
    MAP = {"builtins.dict", "collections.defaultdict", "collections.OrderedDict", "collections.Counter",
           "typing.Mapping", "typing.MutableMapping"}

    def split(self, t):
        """Non-primitive, non-union members of a type."""
        out = []
        for m in members(t):
            if m[0] in ("none", "type", "fn"):
                continue
            if m[0] == "inst":
                if self.prim(m):
                    continue
                if m[1] in ("builtins.object", "typing.Hashable"):
                    m = ANY
                elif m[1] in self.p.classes:
                    c = m[1]
                    if c != "b_asic.sfg.SFG" and self.p.is_sub(c, "b_asic.operation.Operation"):
                        c = "b_asic.operation.Operation"
                    m = ("inst", c, ())
            if m not in out:
                out.append(m)
        return out

    def hierarchy(self, cls):
        r = self._hier.get(cls)
        if r is None:
            r = list(self.p.classes[cls].mro)
            for s in self.p.subclasses(cls):
                for k in self.p.classes[s].mro:
                    if k not in r:
                        r.append(k)
            self._hier[cls] = r
        return r

    def field_type(self, ty, fld):
        """Types a load of `fld` from an object of type `ty` may give ([] = no such field)."""
        k = (ty, fld)
        r = self._ft.get(k)
        if r is None:
            r = self._ft[k] = self._field_type(ty, fld)
        return r

    def _field_type(self, ty, fld):
        if fld == "*":
            return [ANY]
        if ty[0] == "any":
            return [ANY]
        if ty[0] == "tuple":
            if fld[0] == "#":
                i = int(fld[1:])
                return self.split(ty[1][i]) if i < len(ty[1]) else []
            if fld == "[v]":
                out = []
                for t in ty[1]:
                    out += [x for x in self.split(t) if x not in out]
                return out
            return []
        if ty[0] == "inst":
            n, args = ty[1], ty[2]
            if n in self.SEQ:
                if fld == "[v]" or fld[0] == "#":
                    return self.split(args[0]) if args else [ANY]
                return []
            if n in self.MAP:
                if fld == "[k]":
                    return self.split(args[0]) if args else [ANY]
                if fld == "[v]" or fld[0] == "#":
                    return self.split(args[1]) if len(args) > 1 else [ANY]
                return []
            if n in self.p.classes:
                if fld[0] in "[#":
                    return []
                out, found = [], False
                for c in self.hierarchy(n):
                    t = self.p.facts.class_attrs.get(c, {}).get(fld)
                    if t is not None:
                        found = True
                        out += [x for x in self.split(t) if x not in out]
                    elif c in self.p.classes and fld in self.p.classes[c].ann:
                        found = True
                        out += [ANY] if ANY not in out else []
                return out if found else []
            return [ANY] if fld[0] not in "[#" else [ANY]
        return [ANY]

    def has_attr(self, cls, attr) -> bool:
        k = (cls, attr)
        r = self._ha.get(k)
        if r is None:
            r = False
            for c in self.hierarchy(cls):
                if attr in self.p.facts.class_attrs.get(c, {}) or (
                        c in self.p.classes and (attr in self.p.classes[c].ann or attr in self.p.classes[c].attrs)):
                    r = True
                    break
            self._ha[k] = r
        return r

    def compat(self, a, b) -> bool:
        """May an object of type a also have type b?"""
        if a[0] != "inst" or b[0] != "inst":
            return True
        ca, cb = a[1] in self.p.classes, b[1] in self.p.classes
        if ca and cb:
            k = (a[1], b[1])
            r = self._compat.get(k)
            if r is None:
                r = bool(set(self.p.subclasses(a[1])) & set(self.p.subclasses(b[1])))
                self._compat[k] = r
            return r
        if ca != cb:
            o = b if ca else a
            return o[1] not in self.SEQ and o[1] not in self.MAP
        return True

    def obj_label(self, cls):
        r = self._labels.get(cls)
        if r is None:
            r = cls.rpartition(".")[2]
            if cls != "b_asic.sfg.SFG" and self.p.is_sub(cls, "b_asic.operation.Operation"):
                r = "Operation"
            self._labels[cls] = r = "obj:" + r
        return r

    def summary(self, callee: Func, caller: Func) -> Summary:
        self.deps.setdefault(callee.qual, set()).add(caller.qual)
        return self.sum.get(callee.qual) or Summary()


class Env(dict):
    pass


class FA:
    """Analysis of one function."""

    def __init__(self, eng: Engine, f: Func):
        self.e = eng
        self.p = eng.p
        self.f = f
        self.mod = f.module
        self.heap: dict = {}
        self.shadow: dict = {}
        self.kinds: dict = {}
        self.events: dict = {}
        self.ret: set = set()
        self.yields: set = set()
        self.is_gen = False
        self.calls: list = []      # (node, [Func], bindings)
        self.inlining: list = []
        self.changed = False
        self.nested = {}
        self.local_funcs: dict[str, ast.AST] = {}
        self.ntype: dict = {}
        self.ctor = f.name == "__init__" and f.cls is not None

    # ---------------------------------------------------------------- driver
    def analyse(self) -> Summary:
        for _ in range(12):
            self.changed = False
            self.calls = []
            self.inline_memo = {}
            env = Env()
            pt = self.p.param_types(self.f)
            for i, a in enumerate(self.f.all_params()):
                if i == 0 and self.f.kind in ("method", "property", "setter") and self.f.cls:
                    ts = [("inst", self.f.cls, ())]
                elif a in pt:
                    ts = self.e.split(pt[a])
                    if a == self.f.vararg:
                        ts = [("inst", "builtins.tuple", (pt[a],))] if pt[a][0] != "tuple" else [ANY]
                    elif a == self.f.kwarg:
                        ts = [ANY]
                else:
                    ts = [ANY]
                env[a] = frozenset(("P", a, (), t) for t in ts)
            # protocol: copy(*args, **kwargs) of a component hands the arguments to the
            # constructor; what constructors do with theirs is judged where they are called
            if self.f.name == "copy" and self.f.vararg and self.f.kwarg:
                env[self.f.vararg] = env[self.f.kwarg] = EMPTY
            # annotated primitive parameters carry no location
            for a in self.f.node.args.args + self.f.node.args.kwonlyargs + self.f.node.args.posonlyargs:
                if a.annotation is not None and self._prim_ann(a.annotation):
                    env[a.arg] = EMPTY
            self.block(self.f.node.body, env)
            if not self.changed:
                break
        return self.summarise()

    _PRIM_ANN = {"int", "str", "bool", "float", "complex", "None", "Name", "GraphID", "TypeName",
                 "Num", "bytes"}

    def _prim_ann(self, a) -> bool:
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            return self._prim_ann(a.left) and self._prim_ann(a.right)
        if isinstance(a, ast.Constant):
            if a.value is None:
                return True
            if isinstance(a.value, str):
                try:
                    return self._prim_ann(ast.parse(a.value, mode="eval").body)
                except SyntaxError:
                    return False
        if isinstance(a, ast.Name):
            if a.id in self._PRIM_ANN:
                return True
            full = self.p.resolve_name(self.p.modules[self.mod], a.id)
            return full in self.e.enum_classes
        if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Name) and a.value.id in ("Literal",):
            return True
        return False

    def summarise(self) -> Summary:
        s = Summary()
        s.mutates = {k: v for k, v in self.events.items()}
        ret = set(self.ret)
        if self.is_gen:
            n = ("N", f"{self.f.qual}:gen", "")
            self.kinds[n] = "iter"
            self.hput(n, "[v]", frozenset(self.yields))
            ret = {n}
        s.ret = frozenset(ret)
        # containers created here are named after the field that owns them
        ren: dict = {}

        def name(owner, v):
            for l in sorted(x for x in v if x[0] == "N"):
                if l in ren:
                    continue
                if self.kinds.get(l, "").startswith("obj:") or "@copy" in l[1] or not l[1].startswith(self.f.qual + ":"):
                    ren[l] = l
                else:
                    ren[l] = ("N", owner, "")
                todo.append((l, ren[l][1]))

        todo: list = []
        for loc, flds in sorted(self.heap.items(), key=lambda kv: repr(kv[0])):
            if loc[0] == "N":
                continue
            for fld in sorted(flds):
                base = self.f.cls.rpartition(".")[2] if (loc[2] == () and self.f.cls and self.f.params
                                                          and loc[1] == self.f.params[0]) else \
                    f"{self.f.short}({loc[1]}{'.'.join(('',) + loc[2])})"
                name(f"{base}.{fld}", flds[fld])
        name(f"{self.f.short}:ret", ret)
        i = 0
        while i < len(todo):
            l, lab = todo[i]
            i += 1
            for fld, v in sorted(self.heap.get(l, {}).items()):
                name(lab if lab.endswith("[v]") and fld in ("[v]", "[k]") else f"{lab}.{fld}", v)
            name(lab + "~", self.shadow.get(l, ()))

        def rn(v):
            return frozenset(ren.get(x, x) for x in v)
        s.ret = rn(ret)
        for loc, flds in self.heap.items():
            if loc[0] != "N":
                for fld, v in flds.items():
                    s.stores[(loc, fld)] = rn(v)
        for l, r in ren.items():
            for fld, v in self.heap.get(l, {}).items():
                s.nheap[(r, fld)] = s.nheap.get((r, fld), EMPTY) | rn(v)
            if l in self.shadow:
                s.shadow[r] = s.shadow.get(r, EMPTY) | rn(self.shadow[l])
            if l in self.kinds:
                s.kinds[r] = self.kinds[l]
            if l in self.ntype:
                s.ntype[r] = self.ntype[l]
        return s

    # ---------------------------------------------------------------- heap
    def hput(self, loc, fld, vals):
        if not vals:
            return
        if fld[0] != "k":
            ts = self.e.field_type(self.loc_type(loc), fld)
            if not ts:
                if self.loc_type(loc)[0] == "inst" and (fld[0] in "[#" or not self.is_prog(loc)):
                    return
            elif ANY not in ts:
                vals = [v for v in vals if any(self.e.compat(self.loc_type(v), t) for t in ts)]
                if not vals:
                    return
        cur = self.heap.setdefault(loc, {}).setdefault(fld, set())
        n = len(cur)
        cur.update(vals)
        if len(cur) != n:
            self.changed = True

    def new(self, node, kind, tag=""):
        l = ("N", f"{self.f.qual}:{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}:{kind}{tag}", "")
        self.kinds.setdefault(l, kind)
        if not tag and kind in ("list", "dict", "set", "defaultdict", "iter", "deque", "copy2"):
            ts = self.e.split(self.type_of(node))
            if len(ts) == 1 and ts[0][0] == "inst" and ts[0][2] and (
                    ts[0][1] in self.e.SEQ or ts[0][1] in self.e.MAP):
                self.ntype[l] = ts[0]
        return l

    def is_prog(self, l):
        t = self.loc_type(l)
        return t[0] == "inst" and t[1] in self.p.classes

    def new_obj(self, cls):
        l = ("N", self.e.obj_label(cls), "")
        self.kinds[l] = "obj:" + cls
        return l

    def load(self, locs, fld) -> frozenset:
        out: set = set()
        self._load(locs, fld, out, set())
        return frozenset(out)

    def _load(self, locs, fld, out, seen):
        for l in locs:
            if l in seen:
                continue
            seen.add(l)
            h = self.heap.get(l)
            if l[0] in ("P", "G"):
                if not (self.ctor and l[2] == () and l[1] == self.f.params[0] and l[0] == "P"):
                    for t in self.e.field_type(l[3], fld):
                        out.add((l[0], l[1], path_add(l[2], fld), t))
            elif l[0] == "N":
                if self.kinds.get(l) == "deep":
                    out.add(l)
                if l in self.shadow:
                    self._load(self.shadow[l], fld, out, seen)
            else:
                continue
            if h:
                out |= h.get(fld, EMPTY)
                if fld == "[v]":
                    for i in range(6):
                        out |= h.get(f"#{i}", EMPTY)
                elif fld[0] == "#":
                    out |= h.get("[v]", EMPTY)

    def loc_type(self, l):
        if l[0] in ("P", "G"):
            return l[3]
        t = self.ntype.get(l)
        if t is not None:
            return t
        k = self.kinds.get(l, "")
        if k.startswith("obj:"):
            return ("inst", k[4:], ())
        return {"list": ("inst", "builtins.list", ()), "dict": ("inst", "builtins.dict", ()),
                "set": ("inst", "builtins.set", ()), "defaultdict": ("inst", "builtins.dict", ())}.get(k, ANY)

    def reach(self, locs, ty) -> frozenset:
        """Locations below locs whose type is compatible with ty (for '*' paths)."""
        key = (frozenset(locs), ty)
        out, seen, todo = set(), set(), list(locs)
        while todo:
            l = todo.pop()
            if l in seen:
                continue
            seen.add(l)
            if l[0] in ("P", "G"):
                out.add((l[0], l[1], star(l[2]), ty))
            if self.e.compat(self.loc_type(l), ty):
                out.add(l)
            # (dictionary keys identify; nothing is changed through them below a cut-off path)
            for fl, v in self.heap.get(l, {}).items():
                if fl != "[k]":
                    todo += list(v)
            for s in self.shadow.get(l, ()):
                if s[0] in ("P", "G"):
                    out.add((s[0], s[1], star(s[2]), ty))
                else:
                    todo += [x for v in self.heap.get(s, {}).values() for x in v]
        return frozenset(out)

    def mutate(self, locs, label, node, text=None, chain=(), memo=False):
        for l in locs:
            if l[0] in ("P", "G"):
                ty = self.loc_type(l)
                if ty[0] == "inst":
                    cm = label in CONT_LABELS
                    if ty[1] in self.p.classes:
                        if cm or not (label == "?" or self.e.has_attr(ty[1], label)):
                            continue
                    elif not cm:
                        continue
                k = (l, label)
                if k not in self.events or (self.events[k].memo and not memo) or (
                        len(self.events[k].chain) > len(chain) + 1):
                    if k not in self.events:
                        self.changed = True
                    here = f"{self.f.path}:{getattr(node, 'lineno', '?')} in {self.f.short}"
                    self.events[k] = Event(l, label, node, text or ast.unparse(node)[:80],
                                           (here, *chain)[:6], memo)

    # ---------------------------------------------------------------- statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    @staticmethod
    def merge(env, *envs):
        keys = set()
        for e in envs:
            keys |= set(e)
        for k in keys:
            env[k] = frozenset().union(*[e.get(k, EMPTY) for e in envs])

    def stmt(self, s, env):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m:
            m(s, env)
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.ev(c, env)

    def s_FunctionDef(self, s, env):
        self.local_funcs[s.name] = s
        l = ("F", s.name, "")
        env[s.name] = frozenset([l])

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Return(self, s, env):
        if s.value is not None:
            v = self.ev(s.value, env)
            tgt = self.inlining[-1][1] if self.inlining else self.ret
            if not v <= tgt:
                tgt |= v
                self.changed = True

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env, s)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            v = self.ev(s.value, env)
            self.assign(s.target, v, env, s)

    def s_AugAssign(self, s, env):
        v = self.ev(s.value, env)
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = env.get(t.id, EMPTY)
            ty = self.type_of(t)
            dunder = {"LShift": "__ilshift__"}.get(op)
            tgts = self.methods(ty, dunder) if dunder else []
            if tgts:
                r = self.invoke(s, tgts, cur, [v], {}, env)
                env[t.id] = cur | r
                return
            if self.is_mutable_container(ty, cur):
                self.mutate(cur, "+=", s)
                for l in cur:
                    self.hput(l, "[v]", self.elems(v, s.value))
                return
            env[t.id] = EMPTY if self.e.prim(ty) else cur | v
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, env)
            ty = self.type_of(t)
            cur = self.load_attr(t, base, env)
            if op == "LShift" and self.methods(ty, "__ilshift__"):
                self.invoke(s, self.methods(ty, "__ilshift__"), cur, [v], {}, env)
                self.store_attr(t, base, cur, env, s)
                return
            if self.is_mutable_container(ty, cur) and op in ("Add", "BitOr", "Sub", "BitAnd"):
                self.mutate(cur, "+=", s)
                for l in cur:
                    self.hput(l, "[v]", self.elems(v, s.value))
            self.store_attr(t, base, v | cur, env, s)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, env)
            self.ev(t.slice, env)
            cur = self.load_sub(t, base, env)
            ty = self.type_of(t)
            if op == "LShift" and self.methods(ty, "__ilshift__"):
                self.invoke(s, self.methods(ty, "__ilshift__"), cur, [v], {}, env)
            self.mutate(base, "[]", s)
            if self.is_mutable_container(ty, cur):
                self.mutate(cur, "+=", s)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.mutate(self.ev(t.value, env), "del[]", s)
                self.ev(t.slice, env)
            elif isinstance(t, ast.Attribute):
                self.mutate(self.ev(t.value, env), t.attr, s)

    def s_If(self, s, env):
        self.ev(s.test, env)
        a, b = Env(env), Env(env)
        self.block(s.body, a)
        self.block(s.orelse, b)
        at, bt = self.terminates(s.body), self.terminates(s.orelse)
        env.clear()
        if at and not bt:
            env.update(b)
        elif bt and not at:
            env.update(a)
        else:
            self.merge(env, a, b)

    @staticmethod
    def terminates(body):
        return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        for _ in range(3):
            pre = Env(env)
            self.bind_iter(s.target, s.iter, it, env)
            body = Env(env)
            self.block(s.body, body)
            m = Env()
            self.merge(m, pre, env, body)
            env.clear()
            env.update(m)
            if all(env.get(k) == pre.get(k) for k in env):
                break
        self.block(s.orelse, env)

    s_AsyncFor = s_For

    def s_While(self, s, env):
        for _ in range(3):
            pre = Env(env)
            self.ev(s.test, env)
            body = Env(env)
            self.block(s.body, body)
            m = Env()
            self.merge(m, pre, env, body)
            env.clear()
            env.update(m)
            if all(env.get(k) == pre.get(k) for k in env):
                break
        self.block(s.orelse, env)

    def s_With(self, s, env):
        for i in s.items:
            v = self.ev(i.context_expr, env)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, env, s)
        self.block(s.body, env)

    def s_Try(self, s, env):
        pre = Env(env)
        self.block(s.body, env)
        self.block(s.orelse, env)
        outs = [Env(env)]
        for h in s.handlers:
            e = Env()
            self.merge(e, pre, env)
            self.block(h.body, e)
            if not self.terminates(h.body):
                outs.append(e)
        m = Env()
        self.merge(m, *outs)
        env.clear()
        env.update(m)
        self.block(s.finalbody, env)

    def s_Match(self, s, env):
        v = self.ev(s.subject, env)
        outs = [Env(env)]
        for c in s.cases:
            e = Env(env)
            for n in ast.walk(c.pattern):
                nm = getattr(n, "name", None)
                if isinstance(nm, str):
                    e[nm] = v | self.load(v, "[v]")
            if c.guard is not None:
                self.ev(c.guard, e)
            self.block(c.body, e)
            outs.append(e)
        m = Env()
        self.merge(m, *outs)
        env.clear()
        env.update(m)

    def s_Raise(self, s, env):
        if s.exc is not None:
            self.ev(s.exc, env)

    # ---------------------------------------------------------------- assignment
    def assign(self, t, v, env, node):
        if isinstance(t, ast.Name):
            if t.id in self.globals_declared():
                self.mutate([("G", self.mod, (t.id,), ANY)], "=", node)
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    n = self.new(x, "list")
                    self.hput(n, "[v]", self.load(v, "[v]"))
                    self.assign(x.value, frozenset([n]), env, node)
                else:
                    r = self.load(v, f"#{i}")
                    self.assign(x, r, env, node)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, env)
            self.store_attr(t, base, v, env, node)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, env)
            kv = self.ev(t.slice, env)
            ty = self.type_of(t.value)
            tg = self.methods(ty, "__setitem__")
            if tg:
                self.invoke(node, tg, base, [kv, v], {}, env)
                return
            self.mutate(base, "[]", node, memo=self.is_fill(t, node))
            for l in base:
                self.hput(l, "[v]", v)
                self.hput(l, "[k]", kv)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, node)

    def globals_declared(self):
        g = self.nested.get("globals")
        if g is None:
            g = set()
            for n in ast.walk(self.f.node):
                if isinstance(n, ast.Global):
                    g |= set(n.names)
            self.nested["globals"] = g
        return g

    def class_ref(self, e, env):
        """The classes an expression such as C, type(self), self.__class__ or cls stands for."""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "type" and len(e.args) == 1:
            ty = self.type_of(e.args[0])
            return [m[1] for m in members(ty) if m[0] == "inst" and m[1] in self.p.classes]
        if isinstance(e, ast.Attribute) and e.attr == "__class__":
            ty = self.type_of(e.value)
            return [m[1] for m in members(ty) if m[0] == "inst" and m[1] in self.p.classes]
        if isinstance(e, (ast.Name, ast.Attribute)):
            d = self.p.dotted(self.mod, e)
            if d and not (isinstance(e, ast.Name) and e.id in env):
                d = self.p.canonical(d)
                if d in self.p.classes:
                    return [d]
            ty = self.type_of(e)
            return [m[1][1] for m in members(ty) if m[0] == "type" and m[1][0] == "inst"
                    and m[1][1] in self.p.classes]
        return []

    def store_attr(self, t: ast.Attribute, base, v, env, node):
        ty = self.type_of(t.value)
        cr = self.class_ref(t.value, env)
        if cr:
            self.mutate([("G", c, (t.attr,), ANY) for c in cr[:1]], "=", node, memo=self.is_memo(t, node))
            return
        # property setter?
        setters = []
        for m in members(ty):
            if m[0] == "inst" and m[1] in self.p.classes:
                setters += [x for x in self.p.dispatch_setter(m[1], t.attr) if x not in setters]
        if setters:
            self.invoke(node, setters, base, [v], {}, env)
            return
        self.mutate(base, t.attr, node, memo=self.is_memo(t, node))
        for l in base:
            self.hput(l, t.attr, v)

    def is_memo(self, t: ast.Attribute, node) -> bool:
        """`if self.x is None: self.x = ...` -- a value computed once and cached."""
        want = ast.unparse(t)
        q = node
        while q is not None and q is not self.f.node:
            par = self.p.parents.get(id(q))
            if isinstance(par, ast.If) and any(q is b for b in par.body):
                for c in ast.walk(par.test):
                    if isinstance(c, ast.Compare) and ast.unparse(c.left) == want and isinstance(
                            c.ops[0], ast.Is):
                        return True
                    if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not) and ast.unparse(
                            c.operand) == want:
                        return True
            q = par
        # early-return form: if self.x: return self.x / is not None
        for s in self.f.node.body:
            if s is node:
                break
            if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], ast.Return) and \
                    want in ast.unparse(s.test):
                return True
        return False

    def is_fill(self, t: ast.Subscript, node) -> bool:
        """`v = D[k]; if v is None: ...; D[k] = ...` -- a default filled in on first use."""
        want = ast.unparse(t)
        names = {want}
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Assign) and ast.unparse(n.value) == want and isinstance(
                    n.targets[0], ast.Name):
                names.add(n.targets[0].id)
        q = node
        while q is not None and q is not self.f.node:
            par = self.p.parents.get(id(q))
            if isinstance(par, ast.If) and any(q is b for b in par.body):
                for c in ast.walk(par.test):
                    if isinstance(c, ast.Compare) and ast.unparse(c.left) in names and isinstance(
                            c.ops[0], ast.Is):
                        return True
            q = par
        return False

    # ---------------------------------------------------------------- expressions
    def type_of(self, e):
        return self.p.type_of(self.mod, e)

    def ev(self, e, env) -> frozenset:
        if e is None:
            return EMPTY
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            out = EMPTY
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c, env)
            return out
        v = m(e, env)
        if v and not isinstance(e, (ast.Lambda,)):
            ty = self.type_of(e)
            if ty != ANY:
                if self.e.prim(ty):
                    return EMPTY
                ts = self.e.split(ty)
                if ts and ANY not in ts and not all(t[0] == "inst" and t[1] not in self.p.classes for t in ts):
                    v = frozenset(l for l in v if any(self.e.compat(self.loc_type(l), t) for t in ts))
        return v

    def e_Constant(self, e, env):
        return EMPTY

    def e_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        if e.id in self.local_funcs:
            return frozenset([("F", e.id, "")])
        m = self.p.modules[self.mod]
        if e.id in m.globals:
            t = self.e.split(self.p.facts.var_types.get(f"{self.mod}.{e.id}", ANY))
            return frozenset(("G", self.mod, (e.id,), x) for x in t)
        return EMPTY

    def e_Attribute(self, e, env):
        d = self.p.dotted(self.mod, e)
        if d is not None and d.rpartition(".")[0] in self.p.modules and isinstance(e.value, ast.Name) \
                and e.value.id not in env:
            t = self.e.split(self.p.facts.var_types.get(d, ANY))
            return frozenset(("G", d.rpartition(".")[0], (e.attr,), x) for x in t)
        base = self.ev(e.value, env)
        cr = self.class_ref(e.value, env)
        if cr:
            out = set()
            for c in cr[:1]:
                t = self.e.field_type(("inst", c, ()), e.attr)
                for x in t or ():
                    out.add(("G", c, (e.attr,), x))
            return frozenset(out) | self.load_attr(e, base, env)
        return self.load_attr(e, base, env)

    def load_attr(self, e, base, env):
        ty = self.type_of(e.value)
        getters = []
        for m in members(ty):
            if m[0] == "inst" and m[1] in self.p.classes:
                for g in self.p.dispatch(m[1], e.attr):
                    if g.kind == "property" and g not in getters:
                        getters.append(g)
        if not getters and ty == ANY:
            cands = [g for g in self.p.by_method.get(e.attr, []) if g.kind == "property" and not g.abstract]
            if cands and e.attr not in BAD_BYNAME and base:
                getters = cands
        if getters:
            return self.invoke(e, getters, base, [], {}, env)
        return self.load(base, e.attr)

    def e_Subscript(self, e, env):
        base = self.ev(e.value, env)
        self.ev(e.slice, env)
        return self.load_sub(e, base, env)

    def load_sub(self, e, base, env):
        ty = self.type_of(e.value)
        tg = self.methods(ty, "__getitem__")
        if tg:
            return self.invoke(e, tg, base, [EMPTY], {}, env)
        if isinstance(e.slice, ast.Slice):
            n = self.new(e, "list")
            self.hput(n, "[v]", self.load(base, "[v]"))
            return frozenset([n])
        # defaultdict read-insert
        for l in base:
            if self.kinds.get(l) == "defaultdict":
                pass
            if l[0] in ("P",) and l[2] and l[2][-1] in self.e.defaultdict_fields and isinstance(
                    e.ctx, ast.Load):
                self.mutate([l], "[insert on read]", e)
        if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and e.slice.value >= 0:
            ks = [m for m in members(ty) if m[0] == "tuple"]
            if ks or any(self.kinds.get(l) == "tuple" for l in base):
                return self.load(base, f"#{e.slice.value}")
        return self.load(base, "[v]")

    def e_List(self, e, env):
        n = self.new(e, {"List": "list", "Set": "set", "Tuple": "tuple"}[type(e).__name__])
        for i, x in enumerate(e.elts):
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                self.hput(n, "[v]", self.elems(v, x.value))
            else:
                v = self.ev(x, env)
                self.hput(n, f"#{i}" if isinstance(e, ast.Tuple) and i < 6 else "[v]", v)
        return frozenset([n])

    e_Set = e_Tuple = e_List

    def e_Dict(self, e, env):
        n = self.new(e, "dict")
        for k, v in zip(e.keys, e.values):
            if k is None:
                b = self.ev(v, env)
                self.hput(n, "[k]", self.load(b, "[k]"))
                self.hput(n, "[v]", self.load(b, "[v]"))
            else:
                self.hput(n, "[k]", self.ev(k, env))
                self.hput(n, "[v]", self.ev(v, env))
        return frozenset([n])

    def bind_iter(self, target, itexpr, it, env):
        ty = self.type_of(itexpr)
        self.assign_iter(target, self.elems(it, itexpr), env)

    def assign_iter(self, t, v, env):
        self.assign(t, v, env, t)

    def elems(self, v, expr=None) -> frozenset:
        """Elements seen when iterating over v."""
        ty = self.type_of(expr) if expr is not None else ANY
        if expr is not None:
            tg = self.methods(ty, "__iter__")
            if tg:
                r = self.invoke(expr, tg, v, [], {}, {})
                return self.load(r, "[v]")
        isdict = any(m[0] == "inst" and m[1] in (
            "builtins.dict", "collections.defaultdict", "typing.Mapping", "typing.MutableMapping",
            "collections.OrderedDict", "collections.Counter") for m in members(ty))
        out = set()
        for l in v:
            k = self.kinds.get(l)
            if isdict or k in ("dict", "defaultdict"):
                out |= self.load([l], "[k]")
            else:
                out |= self.load([l], "[v]")
        return frozenset(out)

    def comp(self, e, env):
        env = Env(env)
        for g in e.generators:
            it = self.ev(g.iter, env)
            self.bind_iter(g.target, g.iter, it, env)
            for c in g.ifs:
                self.ev(c, env)
        return env

    def e_ListComp(self, e, env):
        c = self.comp(e, env)
        n = self.new(e, {"ListComp": "list", "SetComp": "set", "GeneratorExp": "iter"}[type(e).__name__])
        self.hput(n, "[v]", self.ev(e.elt, c))
        return frozenset([n])

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, env):
        c = self.comp(e, env)
        n = self.new(e, "dict")
        self.hput(n, "[k]", self.ev(e.key, c))
        self.hput(n, "[v]", self.ev(e.value, c))
        return frozenset([n])

    def e_Lambda(self, e, env):
        # evaluate the body once with unknown parameters for its effects
        c = Env(env)
        for a in e.args.args:
            c[a.arg] = EMPTY
        self.ev(e.body, c)
        return EMPTY

    def e_IfExp(self, e, env):
        self.ev(e.test, env)
        return self.ev(e.body, env) | self.ev(e.orelse, env)

    def e_BoolOp(self, e, env):
        return frozenset().union(*[self.ev(v, env) for v in e.values])

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env, e)
        return v

    def e_Starred(self, e, env):
        return self.ev(e.value, env)

    def e_Await(self, e, env):
        return self.ev(e.value, env)

    def e_Yield(self, e, env):
        v = self.ev(e.value, env)
        if not self.inlining:
            self.is_gen = True
            self.yields |= v
        else:
            self.inlining[-1][1].update(v)
        return EMPTY

    def e_YieldFrom(self, e, env):
        v = self.elems(self.ev(e.value, env), e.value)
        self.is_gen = True
        self.yields |= v
        return EMPTY

    DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "LShift": "lshift",
              "RShift": "rshift", "MatMult": "matmul", "Mod": "mod", "FloorDiv": "floordiv",
              "BitOr": "or", "BitAnd": "and"}

    def e_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        nm = self.DUNDER.get(type(e.op).__name__)
        out = EMPTY
        if nm:
            t1 = self.methods(self.type_of(e.left), f"__{nm}__")
            t2 = self.methods(self.type_of(e.right), f"__r{nm}__")
            if t1:
                return self.invoke(e, t1, a, [b], {}, env)
            if t2:
                return self.invoke(e, t2, b, [a], {}, env)
        if isinstance(e.op, (ast.Add, ast.BitOr, ast.Sub, ast.BitAnd, ast.Mult)):
            if a or b:
                n = self.new(e, "list")
                self.hput(n, "[v]", self.load(a, "[v]") | self.load(b, "[v]"))
                self.hput(n, "[k]", self.load(a, "[k]") | self.load(b, "[k]"))
                out = frozenset([n])
        return out

    def e_UnaryOp(self, e, env):
        a = self.ev(e.operand, env)
        nm = {"USub": "__neg__", "Invert": "__invert__"}.get(type(e.op).__name__)
        if nm:
            tg = self.methods(self.type_of(e.operand), nm)
            if tg:
                return self.invoke(e, tg, a, [], {}, env)
        return EMPTY

    def e_Compare(self, e, env):
        self.ev(e.left, env)
        for c in e.comparators:
            self.ev(c, env)
        return EMPTY

    def e_JoinedStr(self, e, env):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value, env)
        return EMPTY

    # ---------------------------------------------------------------- calls
    def methods(self, ty, name) -> list[Func]:
        out = []
        for m in members(ty):
            if m[0] == "inst" and m[1] in self.p.classes:
                for f in self.p.dispatch(m[1], name):
                    if f not in out:
                        out.append(f)
        return out

    def is_mutable_container(self, ty, locs) -> bool:
        for m in members(ty):
            if m[0] == "inst" and m[1] in ("builtins.list", "builtins.dict", "builtins.set",
                                           "collections.deque", "collections.defaultdict"):
                return True
        return any(self.kinds.get(l) in ("list", "dict", "set", "defaultdict", "deque") for l in locs)

    def args_of(self, e: ast.Call, env):
        pos, kw, star, dstar = [], {}, EMPTY, EMPTY
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                star |= self.elems(v, a.value)
                pos.append(("*", self.elems(v, a.value)))
            else:
                pos.append((None, self.ev(a, env)))
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                dstar |= v
            else:
                kw[k.arg] = v
        return pos, kw, dstar

    def e_Call(self, e: ast.Call, env):
        fn = e.func
        # ---- super().m(...)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(
                fn.value.func, ast.Name) and fn.value.func.id == "super":
            pos, kw, ds = self.args_of(e, env)
            cls = self.f.cls
            if cls is None:
                return EMPTY
            mro = self.p.classes[cls].mro[1:]
            for k in mro:
                c = self.p.classes.get(k)
                if c and fn.attr in c.methods and not c.methods[fn.attr].abstract:
                    me = env.get(self.f.params[0], EMPTY) if self.f.params else EMPTY
                    return self.invoke_call(e, [c.methods[fn.attr]], me, pos, kw, ds, env)
            return EMPTY
        # ---- local function
        if isinstance(fn, ast.Name) and fn.id in self.local_funcs and any(
                l[0] == "F" for l in env.get(fn.id, [("F",)])):
            pos, kw, ds = self.args_of(e, env)
            return self.inline(self.local_funcs[fn.id], pos, kw, env)
        # ---- dotted name: module-level function, class, external
        if isinstance(fn, ast.Name) and fn.id not in env or isinstance(fn, ast.Attribute):
            d = self.p.dotted(self.mod, fn)
            if d is None and isinstance(fn, ast.Name):
                d = "builtins." + fn.id
            if d is not None:
                root = fn
                while isinstance(root, ast.Attribute):
                    root = root.value
                if not (isinstance(root, ast.Name) and root.id in env):
                    r = self.call_full(e, d, env)
                    if r is not None:
                        return r
        # ---- method call
        if isinstance(fn, ast.Attribute):
            return self.call_method(e, fn, env)
        # ---- call of a value: object with __call__, class value
        v = self.ev(fn, env)
        ty = self.type_of(fn)
        pos, kw, ds = self.args_of(e, env)
        tg = self.methods(ty, "__call__")
        if tg:
            return self.invoke_call(e, tg, v, pos, kw, ds, env)
        for m in members(ty):
            if m[0] == "type" and m[1][0] == "inst" and m[1][1] in self.p.classes:
                return self.construct(e, m[1][1], pos, kw, ds, env, exact=False)
        return EMPTY

    def call_full(self, e, d, env):
        p = self.p
        if d in p.classes:
            pos, kw, ds = self.args_of(e, env)
            return self.construct(e, d, pos, kw, ds, env, exact=True)
        if d in p.funcs:
            f = p.funcs[d]
            pos, kw, ds = self.args_of(e, env)
            if f.kind == "class":
                return self.invoke_call(e, [f], EMPTY, pos, kw, ds, env)
            if f.kind == "method":     # Class.method(obj, ...)
                me = pos[0][1] if pos else EMPTY
                return self.invoke_call(e, [f], me, pos[1:], kw, ds, env)
            return self.invoke_call(e, [f], None, pos, kw, ds, env)
        if d.startswith("b_asic."):
            # classmethod/static through an inherited class name, or unknown
            owner, _, nm = d.rpartition(".")
            if owner in p.classes:
                f = p.lookup(owner, nm)
                if f is not None:
                    pos, kw, ds = self.args_of(e, env)
                    if f.kind == "method":
                        me = pos[0][1] if pos else EMPTY
                        return self.invoke_call(e, [f], me, pos[1:], kw, ds, env)
                    return self.invoke_call(e, [f], EMPTY if f.kind == "class" else None, pos, kw, ds, env)
            return None
        return self.external(e, d, env)

    def external(self, e, d, env):
        pos, kw, ds = self.args_of(e, env)
        a = [v for _, v in pos]
        exprs = [x.value if isinstance(x, ast.Starred) else x for x in e.args]
        nm = d.rpartition(".")[2]
        allv = frozenset().union(*a, *kw.values()) if (a or kw) else EMPTY

        def fresh(kind, elems=EMPTY, keys=EMPTY):
            n = self.new(e, kind)
            self.hput(n, "[v]", elems)
            self.hput(n, "[k]", keys)
            return frozenset([n])
        if d in ("copy.deepcopy",):
            return fresh("deep")
        if d in ("copy.copy",):
            n = self.new(e, "copy")
            # objects defining __copy__/copy are still shallow here
            cur = self.shadow.setdefault(n, set())
            if not a[0] <= cur:
                cur |= a[0]
                self.changed = True
            return frozenset([n])
        if nm in ("list", "tuple", "set", "frozenset", "sorted", "reversed", "iter", "deque", "natsorted"):
            el = self.elems(a[0], exprs[0]) if a else EMPTY
            for k in kw.values():
                pass
            return fresh({"tuple": "list", "sorted": "list", "reversed": "iter", "iter": "iter",
                          "natsorted": "list"}.get(nm, nm), el)
        if nm == "from_iterable":
            return fresh("iter", self.load(self.elems(a[0], exprs[0]), "[v]") if a else EMPTY)
        if nm in ("chain", "product", "permutations", "combinations", "islice", "accumulate", "groupby",
                  "cycle", "pairwise"):
            el = frozenset().union(*[self.elems(v, x) for v, x in zip(a, exprs)]) if a else EMPTY
            if nm == "chain" or nm == "islice" or nm == "cycle":
                return fresh("iter", el)
            n2 = self.new(e, "list", "t")
            self.hput(n2, "[v]", el)
            return fresh("iter", frozenset([n2]) | (el if nm == "groupby" else EMPTY))
        if nm in ("enumerate", "zip"):
            t = self.new(e, "tuple", "t")
            off = 1 if nm == "enumerate" else 0
            for i, (v, x) in enumerate(zip(a, exprs)):
                self.hput(t, f"#{i + off}", self.elems(v, x))
            return fresh("iter", frozenset([t]))
        if nm in ("dict", "OrderedDict", "Counter") and d.split(".")[0] in ("builtins", "collections"):
            n = self.new(e, "dict")
            for v, x in zip(a, exprs):
                self.hput(n, "[k]", self.load(v, "[k]"))
                self.hput(n, "[v]", self.load(v, "[v]"))
            for v in kw.values():
                self.hput(n, "[v]", v)
            return frozenset([n])
        if nm == "defaultdict":
            n = self.new(e, "defaultdict")
            for v in a[1:]:
                self.hput(n, "[k]", self.load(v, "[k]"))
                self.hput(n, "[v]", self.load(v, "[v]"))
            if e.args and isinstance(e.args[0], ast.Name) and e.args[0].id in ("list", "dict", "set"):
                inner = self.new(e, e.args[0].id, "i")
                self.hput(n, "[v]", frozenset([inner]))
            return frozenset([n])
        if nm in ("map", "filter"):
            el = frozenset().union(*[self.elems(v, x) for v, x in zip(a[1:], exprs[1:])]) if len(a) > 1 else EMPTY
            return fresh("iter", el)
        if nm in ("next", "max", "min", "sum", "reduce"):
            out = EMPTY
            for v, x in zip(a, exprs):
                out |= self.elems(v, x)
            if nm in ("max", "min") and len(a) > 1:
                out |= allv
            if nm == "next":
                self.mutate(a[0] if a else EMPTY, "next()", e)
            return out
        if nm == "cast" and d.startswith("typing"):
            return a[1] if len(a) > 1 else EMPTY
        if nm == "getattr" and len(e.args) >= 2:
            out = a[2] if len(a) > 2 else EMPTY
            if isinstance(e.args[1], ast.Constant):
                fake = ast.copy_location(ast.Attribute(value=e.args[0], attr=str(e.args[1].value), ctx=ast.Load()), e)
                return out | self.load_attr(fake, a[0], env)
            return out | self.load(a[0], "?")
        if nm == "setattr" and len(e.args) >= 3:
            lab = str(e.args[1].value) if isinstance(e.args[1], ast.Constant) else "?"
            self.mutate(a[0], lab, e)
            for l in a[0]:
                self.hput(l, lab, a[2])
            return EMPTY
        if nm in ("isinstance", "len", "hasattr", "callable", "id", "hash", "repr", "str", "int", "float",
                  "bool", "complex", "abs", "round", "range", "print", "all", "any", "type", "ord", "chr",
                  "open", "divmod", "pow", "issubclass", "format", "eval", "exec"):
            if nm in ("all", "any"):
                pass
            return EMPTY
        if nm in ("shuffle",) and d.startswith("random"):
            self.mutate(a[0], "shuffle", e)
            return EMPTY
        if nm in ("heappush", "heappop", "heapify"):
            self.mutate(a[0], nm, e)
            if nm == "heappush":
                for l in a[0]:
                    self.hput(l, "[v]", a[1])
            return self.load(a[0], "[v]") if nm == "heappop" else EMPTY
        # unknown external: opaque fresh object that may hold its arguments
        el = allv
        for v in a:
            el |= self.load(v, "[v]")
        n = self.new(e, "ext")
        self.hput(n, "[v]", el)
        return frozenset([n])

    def call_method(self, e, fn, env):
        base = self.ev(fn.value, env)
        ty = self.type_of(fn.value)
        nm = fn.attr
        p = self.p
        tg: list[Func] = []
        anyt = False
        cont = False
        for m in members(ty):
            if m[0] == "inst" and m[1] in p.classes:
                for f in p.dispatch(m[1], nm):
                    if f not in tg:
                        tg.append(f)
                # property holding a callable, or attribute
            elif m[0] == "any":
                anyt = True
            elif m[0] == "inst":
                cont = True
            elif m[0] == "tuple":
                cont = True
            elif m[0] == "type" and m[1][0] == "inst" and m[1][1] in p.classes:
                f = p.lookup(m[1][1], nm)
                if f is not None and f.kind in ("class", "static"):
                    for g in p.dispatch(m[1][1], nm):
                        if g not in tg:
                            tg.append(g)
        if tg and tg[0].kind == "property":
            # obj.prop(...)  -> call of the property value
            v = self.invoke(e, tg, base, [], {}, env)
            pos, kw, ds = self.args_of(e, env)
            t2 = self.methods(self.type_of(fn), "__call__")
            if t2:
                return self.invoke_call(e, t2, v, pos, kw, ds, env)
            for m in members(self.type_of(fn)):
                if m[0] == "type" and m[1][0] == "inst" and m[1][1] in p.classes:
                    return self.construct(e, m[1][1], pos, kw, ds, env, exact=False)
            return EMPTY
        if tg:
            pos, kw, ds = self.args_of(e, env)
            return self.invoke_call(e, tg, base, pos, kw, ds, env)
        # self.__class__(...)
        fty = self.type_of(fn)
        for m in members(fty):
            if m[0] == "type" and m[1][0] == "inst" and m[1][1] in p.classes:
                pos, kw, ds = self.args_of(e, env)
                return self.construct(e, m[1][1], pos, kw, ds, env, exact=False)
        if not cont and (anyt or ty == ANY) and base:
            cands = [f for f in p.by_method.get(nm, []) if f.kind == "method" and not f.abstract and not f.nested
                     and self.e.include(f)]
            if cands and nm not in BAD_BYNAME and len(cands) <= 12:
                pos, kw, ds = self.args_of(e, env)
                return self.invoke_call(e, cands, base, pos, kw, ds, env)
        return self.container_call(e, fn, base, ty, env)

    def container_call(self, e, fn, base, ty, env):
        nm = fn.attr
        pos, kw, ds = self.args_of(e, env)
        a = [v for _, v in pos]
        exprs = [x.value if isinstance(x, ast.Starred) else x for x in e.args]
        if nm in MUTATORS and not self.is_str(ty):
            self.mutate(base, nm, e)
        if nm in ("append", "add", "appendleft"):
            for l in base:
                self.hput(l, "[v]", a[0] if a else EMPTY)
            return EMPTY
        if nm == "insert":
            for l in base:
                self.hput(l, "[v]", a[1] if len(a) > 1 else EMPTY)
            return EMPTY
        if nm in ("extend", "update", "extendleft", "difference_update", "intersection_update"):
            for v, x in zip(a, exprs):
                for l in base:
                    self.hput(l, "[v]", self.load(v, "[v]"))
                    self.hput(l, "[k]", self.load(v, "[k]"))
            for v in kw.values():
                for l in base:
                    self.hput(l, "[v]", v)
            return EMPTY
        if nm == "setdefault":
            for l in base:
                self.hput(l, "[k]", a[0] if a else EMPTY)
                self.hput(l, "[v]", a[1] if len(a) > 1 else EMPTY)
            return self.load(base, "[v]")
        if nm in ("pop", "popleft"):
            return self.load(base, "[v]") | (a[1] if len(a) > 1 else EMPTY)
        if nm == "get":
            return self.load(base, "[v]") | (a[1] if len(a) > 1 else EMPTY)
        if nm in ("items", "popitem"):
            t = self.new(e, "tuple", "t")
            self.hput(t, "#0", self.load(base, "[k]"))
            self.hput(t, "#1", self.load(base, "[v]"))
            if nm == "popitem":
                return frozenset([t])
            n = self.new(e, "iter")
            self.hput(n, "[v]", frozenset([t]))
            return frozenset([n])
        if nm == "keys":
            n = self.new(e, "iter")
            self.hput(n, "[v]", self.load(base, "[k]"))
            return frozenset([n])
        if nm == "values":
            n = self.new(e, "iter")
            self.hput(n, "[v]", self.load(base, "[v]"))
            return frozenset([n])
        if nm in ("copy", "union", "difference", "intersection", "symmetric_difference"):
            n = self.new(e, "copy2")
            k = {self.kinds.get(l) for l in base}
            if "dict" in k or any(m[0] == "inst" and m[1] in (
                    "builtins.dict", "collections.defaultdict", "typing.Mapping") for m in members(ty)):
                self.kinds[n] = "dict"
            else:
                self.kinds[n] = "list"
            self.hput(n, "[v]", self.load(base, "[v]"))
            self.hput(n, "[k]", self.load(base, "[k]"))
            for v, x in zip(a, exprs):
                self.hput(n, "[v]", self.elems(v, x))
            return frozenset([n])
        if nm in ("sort", "index", "count", "join", "split", "format", "startswith", "endswith", "write",
                  "remove", "discard", "clear", "reverse"):
            return EMPTY
        el = frozenset().union(*a, *kw.values()) if (a or kw) else EMPTY
        if base or el:
            n = self.new(e, "ext")
            self.hput(n, "[v]", el | self.load(base, "[v]"))
            return frozenset([n])
        return EMPTY

    @staticmethod
    def is_str(ty):
        return any(m[0] == "inst" and m[1] in ("builtins.str", "builtins.bytes") for m in members(ty))

    def construct(self, e, cls, pos, kw, ds, env, exact):
        if not exact:
            groups: dict = {}
            for c in self.p.subclasses(cls):
                groups.setdefault(self.e.obj_label(c), []).append(c)
            if len(groups) > 1:
                out = EMPTY
                for lab, cs in groups.items():
                    inits = []
                    for c in cs:
                        i = self.p.lookup(c, "__init__")
                        if i is not None and i not in inits:
                            inits.append(i)
                    rep = "b_asic.operation.Operation" if lab == "obj:Operation" else cs[0]
                    n = self.new_obj(rep)
                    self.invoke_call(e, inits, frozenset([n]), pos, kw, ds, env)
                    out |= {n}
                return out
        n = self.new_obj(cls)
        inits = self.p.dispatch(cls, "__init__", exact=exact)
        if inits:
            self.invoke_call(e, inits, frozenset([n]), pos, kw, ds, env)
        else:
            c = self.p.classes[cls]
            names = []
            for k in reversed(c.mro):
                if k in self.p.classes:
                    names += [x for x in self.p.classes[k].ann if x not in names]
            for (s, v), x in zip(pos, names):
                self.hput(n, x, v)
            for k, v in kw.items():
                self.hput(n, k, v)
        return frozenset([n])

    def inline(self, node, pos, kw, env):
        if any(n is node for n, _ in self.inlining) or len(self.inlining) > 1:
            return EMPTY
        key = (id(node), tuple(v for _, v in pos), tuple(sorted(kw.items(), key=lambda x: x[0])))
        if key in self.inline_memo:
            return self.inline_memo[key]
        self.inline_memo[key] = EMPTY
        rets: set = set()
        self.inlining.append((node, rets))
        c = Env(env)
        ps = [a.arg for a in node.args.posonlyargs + node.args.args]
        for x in ps:
            c[x] = EMPTY
        for (s, v), x in zip(pos, ps):
            c[x] = v
        for k, v in kw.items():
            c[k] = v
        self.block(node.body, c)
        self.inlining.pop()
        self.inline_memo[key] = frozenset(rets)
        return frozenset(rets)

    def invoke(self, node, targets, me, args, kw, env):
        return self.invoke_call(node, targets, me, [(None, v) for v in args], kw, EMPTY, env)

    def invoke_call(self, node, targets, me, pos, kw, ds, env):
        out: set = set()
        binds = []
        for f in targets:
            b: dict[str, frozenset] = {}
            params = list(f.params)
            if f.kind in ("method", "property", "setter", "class") and params:
                b[params[0]] = me if me is not None else EMPTY
                params = params[1:]
            i = 0
            for tag, v in pos:
                if tag == "*":
                    for x in params[i:]:
                        b[x] = b.get(x, EMPTY) | v
                    if f.vararg:
                        b[f.vararg] = b.get(f.vararg, EMPTY) | self.wrap(node, f, v)
                elif i < len(params):
                    b[params[i]] = b.get(params[i], EMPTY) | v
                    i += 1
                elif f.vararg:
                    b[f.vararg] = b.get(f.vararg, EMPTY) | self.wrap(node, f, v)
            for k, v in kw.items():
                if k in f.params or k in f.kwonly:
                    b[k] = b.get(k, EMPTY) | v
                elif f.kwarg:
                    b[f.kwarg] = b.get(f.kwarg, EMPTY) | self.wrap(node, f, v, "kw", "kw:" + k)
            if ds:
                for x in list(params[i:]) + f.kwonly:
                    if x not in kw:
                        b[x] = b.get(x, EMPTY) | self.kwload(ds, x)
                if f.kwarg:
                    b[f.kwarg] = b.get(f.kwarg, EMPTY) | ds
            binds.append((f, b))
            out |= self.apply(node, f, b)
        self.calls.append((node, binds))
        return frozenset(out)

    def kwload(self, ds, x):
        out = self.load(ds, "kw:" + x)
        for l in ds:
            if l[0] == "P" and l[1] == self.f.kwarg and l[2] == ():
                continue
            out |= self.load([l], "[v]")
        return out

    def wrap(self, node, f, v, tag="va", fld="[v]"):
        if not v:
            return EMPTY
        n = self.new(node, "list" if tag == "va" else "dict", ":" + tag)
        self.hput(n, fld, v)
        return frozenset([n])

    def apply(self, node, f: Func, b) -> frozenset:
        s = self.e.summary(f, self.f)
        cache: dict = {}
        iscopy = f.name == "copy" and self.f.name != "copy"

        def tr(l) -> frozenset:
            if l in cache:
                return cache[l]
            if l[0] == "P":
                cur = b.get(l[1], EMPTY)
                for x in l[2]:
                    if x == "*":
                        cur = self.reach(cur, l[3])
                        break
                    cur = self.load(cur, x)
                if l[3] != ANY:
                    cur = frozenset(y for y in cur if self.e.compat(self.loc_type(y), l[3]))
                r = cur
            elif l[0] == "G":
                r = frozenset([l])
            elif l[0] == "N":
                o = l
                if iscopy and not l[1].endswith("@copy"):
                    l = ("N", l[1] + "@copy", "")
                if o in s.kinds:
                    self.kinds[l] = s.kinds[o]
                if o in s.ntype:
                    self.ntype[l] = s.ntype[o]
                r = frozenset([l])
                cache[o] = r
                return r
            else:
                r = EMPTY
            cache[l] = r
            return r

        def trs(ls):
            out = set()
            for l in ls:
                out |= tr(l)
            return frozenset(out)

        for (l, fld), v in s.nheap.items():
            for n in tr(l):
                self.hput(n, fld, trs(v))
        for l, v in s.shadow.items():
            for n in tr(l):
                cur = self.shadow.setdefault(n, set())
                add = trs(v)
                if not add <= cur:
                    cur |= add
                    self.changed = True
        cache.clear()
        for (l, fld), v in s.stores.items():
            vv = trs(v)
            for t in tr(l):
                if self.has_field(t, fld):
                    self.hput(t, fld, vv)
        cache.clear()
        for (l, label), ev in s.mutates.items():
            if self.ctor_self(f, l, b):
                continue
            self.mutate(tr(l), label, node, ev.text, ev.chain, ev.memo)
        return trs(s.ret)

    def has_field(self, t, fld) -> bool:
        ty = self.loc_type(t)
        if ty[0] == "inst" and ty[1] in self.p.classes:
            return bool(self.e.field_type(ty, fld)) or fld[0] not in "[#"
        return True

    def ctor_self(self, f, l, b):
        return False


def analysis_scope(f: Func) -> bool:
    # The GUIs sit on top of the library; the matrix-inversion generators only build
    # fresh graphs out of list-of-list arithmetic (nothing of the caller's is reachable).
    return "_gui" not in f.module and "gui_utils" not in f.module and not f.module.endswith(
        "matrix_inversion")
