"""Program model: modules, classes (with MRO), functions, resolution of calls.

Everything is derived from the source text below <repo>/lib/b_asic plus the
type facts of sa.typed; nothing is imported or executed.
"""

from __future__ import annotations

import ast
import os
import sys
from dataclasses import dataclass, field

from .typed import ANY, NONE, TypeFacts, members


class AnalysisBroken(Exception):
    """An anchor vanished or the program cannot be analysed: no verdict."""


@dataclass
class Func:
    qual: str                 # b_asic.sfg.SFG.copy
    name: str
    module: str
    cls: str | None           # owning class fullname
    node: ast.FunctionDef
    path: str
    decorators: tuple[str, ...] = ()
    kind: str = "function"    # function | method | static | class | property | setter
    params: list[str] = field(default_factory=list)     # positional-or-kw, incl. self
    vararg: str | None = None
    kwonly: list[str] = field(default_factory=list)
    kwarg: str | None = None
    defaults: dict[str, ast.expr] = field(default_factory=dict)
    abstract: bool = False
    overload: bool = False
    nested: bool = False

    @property
    def public(self) -> bool:
        return not self.name.startswith("_") or (
            self.name.startswith("__") and self.name.endswith("__"))

    @property
    def short(self) -> str:
        return self.qual.removeprefix("b_asic.")

    def all_params(self) -> list[str]:
        r = list(self.params)
        if self.vararg:
            r.append(self.vararg)
        r += self.kwonly
        if self.kwarg:
            r.append(self.kwarg)
        return r


@dataclass
class Class:
    qual: str
    name: str
    module: str
    node: ast.ClassDef
    path: str
    bases: list[str] = field(default_factory=list)
    mro: list[str] = field(default_factory=list)
    methods: dict[str, Func] = field(default_factory=dict)      # incl. property getters
    setters: dict[str, Func] = field(default_factory=dict)
    attrs: dict[str, ast.expr | None] = field(default_factory=dict)   # class-level assigns
    ann: dict[str, ast.expr] = field(default_factory=dict)
    subs: list[str] = field(default_factory=list)               # direct subclasses

    @property
    def short(self) -> str:
        return self.qual.removeprefix("b_asic.")


@dataclass
class Module:
    name: str
    path: str
    relpath: str
    tree: ast.Module
    source: str
    names: dict[str, str] = field(default_factory=dict)   # local name -> fullname
    globals: dict[str, ast.expr] = field(default_factory=dict)


def _dec_name(d: ast.expr) -> str:
    if isinstance(d, ast.Call):
        d = d.func
    return ast.unparse(d)


class Program:
    def __init__(self, repo: str, extra: dict[str, str] | None = None):
        self.repo = repo
        self.extra = extra or {}          # reference modules: name -> path outside the repository
        self.lib = os.path.join(repo, "lib")
        self.modules: dict[str, Module] = {}
        self.classes: dict[str, Class] = {}
        self.funcs: dict[str, Func] = {}
        self.parents: dict[int, ast.AST] = {}
        self.by_method: dict[str, list[Func]] = {}
        self.func_of_node: dict[int, Func] = {}
        self._load()
        self.facts = TypeFacts(self.lib, self.extra)
        self._link()

    # ------------------------------------------------------------ loading
    def _load(self):
        root = os.path.join(self.lib, "b_asic")
        if not os.path.isdir(root):
            raise AnalysisBroken(f"{root} does not exist")
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py") or f in ("_version.py", "_b_asic.py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.repo)
                name = os.path.relpath(p, self.lib)[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src)
                except SyntaxError as e:
                    raise AnalysisBroken(f"{rel}: {e}") from e
                self.modules[name] = Module(name, p, rel, tree, src)
        for name, path in self.extra.items():
            with open(path, encoding="utf-8") as fh:
                src = fh.read()
            self.modules[name] = Module(name, path, os.path.basename(path), ast.parse(src), src)
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                for c in ast.iter_child_nodes(n):
                    self.parents[id(c)] = n
            self._scan_names(m)
            self._scan_body(m, m.tree.body, m.name, None, False)

    def _scan_names(self, m: Module):
        pkg = m.name if m.path.endswith("__init__.py") else m.name.rpartition(".")[0]
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.names[a.asname] = a.name
                    else:
                        m.names[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    b = pkg.split(".")
                    b = b[: len(b) - (n.level - 1)]
                    base = ".".join(b + ([n.module] if n.module else []))
                for a in n.names:
                    m.names[a.asname or a.name] = f"{base}.{a.name}"
        for n in m.tree.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                m.names[n.name] = f"{m.name}.{n.name}"
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            m.names[x.id] = f"{m.name}.{x.id}"
                            m.globals[x.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                m.names[n.target.id] = f"{m.name}.{n.target.id}"
                if n.value is not None:
                    m.globals[n.target.id] = n.value

    def _scan_body(self, m, body, prefix, cls: Class | None, nested):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._add_func(m, n, prefix, cls, nested)
            elif isinstance(n, ast.ClassDef):
                q = f"{prefix}.{n.name}"
                c = Class(q, n.name, m.name, n, m.relpath)
                c.bases = [ast.unparse(b) for b in n.bases]
                self.classes[q] = c
                self._scan_body(m, n.body, q, c, nested)
            elif cls is not None and isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        cls.attrs[t.id] = n.value
            elif cls is not None and isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                cls.ann[n.target.id] = n.annotation
                if n.value is not None:
                    cls.attrs[n.target.id] = n.value
            elif isinstance(n, (ast.If, ast.Try, ast.With)):
                for part in ("body", "orelse", "finalbody"):
                    self._scan_body(m, getattr(n, part, []) or [], prefix, cls, nested)
                for h in getattr(n, "handlers", []):
                    self._scan_body(m, h.body, prefix, cls, nested)

    def _add_func(self, m, n, prefix, cls, nested):
        decs = tuple(_dec_name(d) for d in n.decorator_list)
        q = f"{prefix}.{n.name}"
        a = n.args
        f = Func(q, n.name, m.name, cls.qual if cls else None, n, m.relpath, decs)
        f.params = [x.arg for x in a.posonlyargs + a.args]
        f.vararg = a.vararg.arg if a.vararg else None
        f.kwonly = [x.arg for x in a.kwonlyargs]
        f.kwarg = a.kwarg.arg if a.kwarg else None
        pos = a.posonlyargs + a.args
        for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            f.defaults[x.arg] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                f.defaults[x.arg] = d
        f.abstract = any(d.endswith("abstractmethod") for d in decs)
        f.overload = any(d.split(".")[-1] == "overload" for d in decs)
        f.nested = nested
        if cls is not None:
            f.kind = "method"
            for d in decs:
                if d == "staticmethod":
                    f.kind = "static"
                elif d == "classmethod":
                    f.kind = "class"
                elif d in ("property", "functools.cached_property", "cached_property"):
                    f.kind = "property"
                elif d.endswith(".setter"):
                    f.kind = "setter"
        if f.overload:
            return
        if cls is not None and f.kind == "setter":
            f.qual = q + ".setter"
            cls.setters[n.name] = f
        elif cls is not None:
            cls.methods[n.name] = f
        self.funcs[f.qual] = f
        self.func_of_node[id(n)] = f
        self.by_method.setdefault(n.name, []).append(f)
        self._scan_nested(m, n, f.qual)

    def _scan_nested(self, m, fn, prefix):
        for s in ast.walk(fn):
            if s is not fn and isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if self._enclosing_def(s) is fn:
                    self._add_func(m, s, prefix + ".<locals>", None, True)

    def _enclosing_def(self, n):
        p = self.parents.get(id(n))
        while p is not None and not isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
            p = self.parents.get(id(p))
        return p

    # ------------------------------------------------------------ linking
    def _link(self):
        for c in self.classes.values():
            m = self.modules[c.module]
            rb = []
            for b in c.bases:
                rb.append(self.resolve_name(m, b) or b)
            c.bases = rb
        for c in self.classes.values():
            c.mro = self._mro(c.qual)
            for b in c.bases:
                if b in self.classes:
                    self.classes[b].subs.append(c.qual)
        self.tm = self.facts.types
        self.rm = self.facts.refs

    def resolve_name(self, m: Module, dotted: str) -> str | None:
        dotted = dotted.split("[")[0]
        head, _, rest = dotted.partition(".")
        full = m.names.get(head)
        if full is None:
            return None
        full = full + ("." + rest if rest else "")
        return self.canonical(full)

    def canonical(self, full: str) -> str:
        """Follow re-exports (b_asic.SFG -> b_asic.sfg.SFG)."""
        for _ in range(10):
            if full in self.classes or full in self.funcs or full in self.modules:
                return full
            mod, _, nm = full.rpartition(".")
            m = self.modules.get(mod)
            if m is None:
                return full
            t = m.names.get(nm)
            if t is None:
                for n in m.tree.body:
                    if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
                        src = n.module or ""
                        sm = self.modules.get(src)
                        if sm and nm in sm.names:
                            t = f"{src}.{nm}"
                            break
            if t is None or t == full:
                return full
            full = t
        return full

    def _mro(self, q) -> list[str]:
        def merge(seqs):
            out = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    return out
                out.append(h)
                seqs = [[x for x in t if x != h] for t in seqs]
                seqs = [t for t in seqs if t]
            return out
        c = self.classes.get(q)
        if c is None:
            return [q]
        return [q] + merge([self._mro(b) for b in c.bases] + [list(c.bases)])

    # ------------------------------------------------------------ queries
    def cls(self, qual: str) -> Class:
        c = self.classes.get(qual)
        if c is None:
            raise AnalysisBroken(f"anchor class {qual} not found")
        return c

    def func(self, qual: str) -> Func:
        f = self.funcs.get(qual)
        if f is None:
            raise AnalysisBroken(f"anchor function {qual} not found")
        return f

    def subclasses(self, qual: str) -> list[str]:
        out, todo = [], [qual]
        while todo:
            c = todo.pop()
            if c in out:
                continue
            out.append(c)
            if c in self.classes:
                todo += self.classes[c].subs
        return out

    def is_sub(self, a: str, b: str) -> bool:
        return a == b or (a in self.classes and b in self.classes[a].mro)

    def lookup(self, cls: str, name: str) -> Func | None:
        c = self.classes.get(cls)
        if c is None:
            return None
        for k in c.mro:
            kc = self.classes.get(k)
            if kc and name in kc.methods:
                return kc.methods[name]
        return None

    def lookup_setter(self, cls: str, name: str) -> Func | None:
        c = self.classes.get(cls)
        if c is None:
            return None
        for k in c.mro:
            kc = self.classes.get(k)
            if kc and name in kc.setters:
                return kc.setters[name]
        return None

    def dispatch(self, cls: str, name: str, exact=False) -> list[Func]:
        """All implementations a call obj.name() may reach for obj: cls (CHA)."""
        out = []
        for s in ([cls] if exact else self.subclasses(cls)):
            f = self.lookup(s, name)
            if f is not None and not f.abstract and f not in out:
                out.append(f)
        return out

    def dispatch_setter(self, cls: str, name: str) -> list[Func]:
        out = []
        for s in self.subclasses(cls):
            f = self.lookup_setter(s, name)
            if f is not None and not f.abstract and f not in out:
                out.append(f)
        return out

    def type_of(self, module: str, e: ast.AST) -> tuple:
        k = (e.lineno, e.col_offset, e.end_lineno, e.end_col_offset)
        return self.tm.get(module, {}).get(k, ANY)

    def param_types(self, f: Func) -> dict[str, tuple]:
        fp = self.facts.params
        lines = [f.node.lineno] + [d.lineno for d in f.node.decorator_list]
        for ln in lines:
            d = fp.get((f.module, ln, f.name))
            if d is not None:
                return d
        return {}

    def ref_of(self, module: str, e: ast.AST) -> str | None:
        k = (e.lineno, e.col_offset, e.end_lineno, e.end_col_offset)
        r = self.rm.get(module, {}).get(k)
        return r

    def dotted(self, module: str, e: ast.AST) -> str | None:
        """Fullname of a Name/Attribute chain that denotes a module-level thing."""
        if isinstance(e, ast.Name):
            full = self.modules[module].names.get(e.id)
            return self.canonical(full) if full else None
        if isinstance(e, ast.Attribute):
            b = self.dotted(module, e.value)
            if b and (b in self.modules or b in self.classes or not b.startswith("b_asic")):
                return self.canonical(b + "." + e.attr)
        return None

    def loc(self, f: Func, node: ast.AST) -> str:
        return f"{f.path}:{getattr(node, 'lineno', f.node.lineno)}"


def load(repo: str, extra=None) -> Program:
    sys.setrecursionlimit(10000)
    return Program(repo, extra)
