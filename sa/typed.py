"""Type facts for /repo/lib/b_asic, from mypy used as a library.

The program is never imported or run: mypy parses and type-checks it, and this
module turns what mypy knows about each expression into a small type language,
indexed by module and source span so that the checkers can work on ``ast``.

Small types (hashable tuples):
  ('any',)  ('none',)  ('inst', fullname, (args...))  ('tuple', (items...))
  ('union', (items...))  ('type', T)  ('fn', fullname-or-'', T_ret)
"""

from __future__ import annotations

import gc
import os
import sys

ANY = ("any",)
NONE = ("none",)

_SKIP = {"node", "info", "original_def", "type_guard", "type", "unanalyzed_type",
         "analyzed", "special_sig", "def_var", "names", "imports", "alias_deps",
         "original_first_arg", "dataclass_transform_spec"}


def _mypy():
    try:
        import mypy.build  # noqa: F401
    except ImportError:
        sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import mypy.build, mypy.main, mypy.fscache, mypy.modulefinder, mypy.nodes, mypy.types
    return mypy


def run_mypy(libdir: str, extra=None):
    mypy = _mypy()
    cwd = os.getcwd()
    os.chdir(libdir)
    gc.disable()
    try:
        fs = mypy.fscache.FileSystemCache()
        src, opts = mypy.main.process_options(
            ["--no-incremental", "--cache-dir=/dev/null", "--config-file=",
             "--no-site-packages", "--check-untyped-defs", "--allow-redefinition",
             "--python-version=3.12", "--ignore-missing-imports", "b_asic"], fscache=fs)
        for name, path in (extra or {}).items():
            src.append(mypy.modulefinder.BuildSource(path, name, None))
        opts.export_types = True
        opts.preserve_asts = True
        res = mypy.build.build(src, opts, fscache=fs)
    finally:
        os.chdir(cwd)
        gc.enable()
    return res


class TypeFacts:
    def __init__(self, libdir: str, extra=None):
        mypy = _mypy()
        self.N = mypy.nodes
        self.T = mypy.types
        res = run_mypy(libdir, extra)
        self.errors = list(res.errors)
        self.types: dict[str, dict[tuple, tuple]] = {}
        self.refs: dict[str, dict[tuple, str]] = {}
        self.params: dict[tuple, dict[str, tuple]] = {}
        self._memo: dict[int, tuple] = {}
        self._raw = res.types
        self._attr: dict[str, list] = {}
        _types = res.types
        self._children_cache: dict[type, list[str]] = {}
        for mod, f in res.files.items():
            if not (mod == "b_asic" or mod.startswith("b_asic.")):
                continue
            tm: dict[tuple, tuple] = {}
            rm: dict[tuple, str] = {}
            seen: set[int] = set()
            stack = list(f.defs)
            while stack:
                n = stack.pop()
                if id(n) in seen:
                    continue
                seen.add(id(n))
                if isinstance(n, self.N.Expression):
                    t = _types.get(n)
                    if t is not None:
                        key = (n.line, n.column, n.end_line, n.end_column)
                        st = self.small(t)
                        if key not in tm or tm[key] == ANY:
                            tm[key] = st
                    if isinstance(n, self.N.RefExpr):
                        fn = n.fullname
                        if fn:
                            rm[(n.line, n.column, n.end_line, n.end_column)] = fn
                if isinstance(n, self.N.FuncDef) and isinstance(n.type, self.T.CallableType):
                    d = {}
                    for a, t in zip(n.arg_names, n.type.arg_types):
                        if a:
                            d[a] = self.small(t)
                    self.params[(mod, n.line, n.name)] = d
                    self.params.setdefault((mod, n.name, n.fullname), d)
                for a in self._child_attrs(type(n)):
                    try:
                        v = getattr(n, a)
                    except (AttributeError, AssertionError):
                        continue
                    self._push(v, stack)
            self.types[mod] = tm
            self.refs[mod] = rm
        # class attribute types
        self.class_attrs: dict[str, dict[str, tuple]] = {}
        self.var_types: dict[str, tuple] = {}
        for mod, f in res.files.items():
            if not (mod == "b_asic" or mod.startswith("b_asic.")):
                continue
            self._collect_names(mod, f.names)
        self._raw = None
        self._memo = {}
        del res

    def _collect_names(self, prefix, table):
        for name, sym in table.items():
            node = sym.node
            if isinstance(node, self.N.TypeInfo) and node.fullname.startswith("b_asic."):
                if node.fullname in self.class_attrs:
                    continue
                d = {}
                self.class_attrs[node.fullname] = d
                for an, s in node.names.items():
                    if isinstance(s.node, self.N.Var) and s.node.type is not None:
                        d[an] = self.small(s.node.type)
                self._collect_names(node.fullname, node.names)
            elif isinstance(node, self.N.Var) and node.type is not None:
                self.var_types[node.fullname or f"{prefix}.{name}"] = self.small(node.type)

    def _push(self, v, stack):
        N = self.N
        if isinstance(v, N.Node):
            if not isinstance(v, (N.TypeInfo, N.MypyFile)):
                stack.append(v)
        elif isinstance(v, (list, tuple)):
            for x in v:
                self._push(x, stack)

    def _child_attrs(self, cls):
        r = self._children_cache.get(cls)
        if r is None:
            r = []
            for c in cls.__mro__:
                for k, v in vars(c).items():
                    if k.startswith("_") or k in _SKIP or k in r:
                        continue
                    if type(v).__name__ in ("getset_descriptor", "member_descriptor"):
                        r.append(k)
            self._children_cache[cls] = r
        return r

    def small(self, t, depth=0) -> tuple:
        T = self.T
        if depth > 6:
            return ANY
        t = T.get_proper_type(t)
        if isinstance(t, T.Instance):
            if t.last_known_value is not None and not t.args:
                return ("inst", t.type.fullname, ())
            return ("inst", t.type.fullname, tuple(self.small(a, depth + 1) for a in t.args))
        if isinstance(t, T.UnionType):
            out = []
            for i in t.items:
                s = self.small(i, depth + 1)
                for x in (s[1] if s[0] == "union" else (s,)):
                    if x not in out:
                        out.append(x)
            return out[0] if len(out) == 1 else ("union", tuple(out))
        if isinstance(t, T.NoneType):
            return NONE
        if isinstance(t, T.TupleType):
            return ("tuple", tuple(self.small(i, depth + 1) for i in t.items))
        if isinstance(t, T.LiteralType):
            return self.small(t.fallback, depth + 1)
        if isinstance(t, T.TypeType):
            return ("type", self.small(t.item, depth + 1))
        if isinstance(t, T.CallableType):
            if t.is_type_obj():
                return ("type", self.small(t.ret_type, depth + 1))
            d = getattr(t, "definition", None)
            return ("fn", (d.fullname if d is not None else "") or "", self.small(t.ret_type, depth + 1))
        if isinstance(t, T.Overloaded):
            it = t.items[0]
            if it.is_type_obj():
                return ("type", self.small(it.ret_type, depth + 1))
            d = getattr(it, "definition", None)
            return ("fn", (d.fullname if d is not None else "") or "", self.small(it.ret_type, depth + 1))
        if isinstance(t, T.TypedDictType):
            return ("inst", "builtins.dict", (("inst", "builtins.str", ()), ANY))
        if isinstance(t, T.TypeVarType):
            return self.small(t.upper_bound, depth + 1)
        return ANY


def members(t: tuple):
    """Flat members of a union (or the type itself)."""
    if t is None:
        return
    if t[0] == "union":
        yield from t[1]
    else:
        yield t


def inst_names(t: tuple):
    return [m[1] for m in members(t) if m[0] == "inst"]
