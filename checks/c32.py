"""C32: rewriting and joining operations preserves the function between the same ports."""

import ast

from checks.opsem import TIMING, OpSem, atomise
from sa.calls import MISSING, OPEN, bind, callees, calls_in, local_names
from sa.equiv import Compare
from sa.poly import Unknown, simplify
from sa.symval import NONE, SV, Blowup, State, const, show

OP = "b_asic.operation.AbstractOperation"
CORE = "b_asic.core_operations."
SFG = "b_asic.sfg.SFG"
CSD = "b_asic.utils.float_to_csd"
KINDS = ("num", "cnum")


def subst(t, m):
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    return tuple(subst(x, m) for x in t)


class Graph:
    """Function computed by a constructed signal flow graph, as a term over its inputs."""

    def __init__(self, p):
        self.p = p
        self.sem = {}

    def op_term(self, cls):
        if cls not in self.sem:
            o = OpSem(self.p, cls)
            heap, init = o.merged_init()
            t, n = o.evaluate(heap)
            defaults = {}
            a = init.node.args
            ps = [x.arg for x in [*a.posonlyargs, *a.args]]
            for name, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
                if isinstance(d, ast.Constant):
                    defaults[name] = const(d.value)
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                if isinstance(d, ast.Constant):
                    defaults[x.arg] = const(d.value)
            srcs = []
            for k, v in heap.items():
                if k[0] == "attr" and k[2] == "_input_ports":
                    pass
            srcs = [f"src{i}" for i in range(n)]
            self.sem[cls] = (t, n, defaults, srcs, ps[1:])
        return self.sem[cls]

    def value(self, g, inputs, env):
        """Term of node g; inputs maps an Input node to its term, env other nodes."""
        if g in inputs:
            return inputs[g]
        if g in env:
            return env[g]
        if g[0] == "ite":
            a, b = self.value(g[2], inputs, env), self.value(g[3], inputs, env)
            return a if a == b else ("ite", g[1], a, b)
        if g[0] == "op" and g[1] == "<<":
            return self.value(g[3], inputs, env)
        if g[0] == "un" and g[1] == "-":
            return ("un", "-", self.value(g[2], inputs, env))
        if g[0] == "op" and g[1] in ("+", "-", "*", "/"):
            return ("op", g[1], self.value(g[2], inputs, env), self.value(g[3], inputs, env))
        if g[0] == "mcall" and g[2] in ("output",) and g[3] in ((const(0),), ()):
            return self.value(g[1], inputs, env)
        if g[0] == "attr" and g[2] == "source":
            return self.value(g[1], inputs, env)
        if g[0] == "new":
            cls = g[1]
            kw = dict(g[3])
            if cls.endswith((".Output", ".Input")):
                if "src0" in kw and kw["src0"] != NONE:
                    return self.value(kw["src0"], inputs, env)
                raise Unknown("an Input that is not an input of the graph" if cls.endswith("Input")
                              else "an Output that is not connected")
            if not self.p.is_sub(cls, OP) or g[2]:
                raise Unknown("constructor " + show(g)[:60])
            t, n, defaults, srcs, params = self.op_term(cls)
            m = {}
            for i in range(n):
                if f"src{i}" not in kw or kw[f"src{i}"] == NONE:
                    raise Unknown(f"input {i} of {cls.rpartition('.')[2]} is not connected in its constructor")
                m[("p", f"x{i}")] = self.value(kw[f"src{i}"], inputs, env)
            for a in params:
                if not a.startswith("src") and a not in TIMING:
                    v = kw.get(a, defaults.get(a))
                    if v is not None:
                        m[("p", a)] = v
            return subst(t, m)
        raise Unknown("node " + show(g)[:80])


def outs_of(t):
    """(inputs, outputs) of a constructed SFG."""
    if t[0] == "new" and t[1] == SFG:
        kw = dict(t[3])
        for i, a in enumerate(t[2]):
            kw.setdefault(("inputs", "outputs")[i] if i < 2 else str(i), a)
        a, b = kw.get("inputs"), kw.get("outputs")
        if a and b and a[0] in ("list", "tuple") and b[0] in ("list", "tuple"):
            return list(a[1]), list(b[1])
    return None


def split_graphs(t, conds=()):
    if t[0] == "ite":
        return split_graphs(t[2], (*conds, (t[1], True))) + split_graphs(t[3], (*conds, (t[1], False)))
    return [(conds, t)]


def disagree(got, want, n, facts=None):
    """Do the two terms differ where the facts hold?"""
    for cnd, v in (facts or {}).items():
        got = ("ite", cnd, got, want) if v else ("ite", cnd, want, got)
    decide = None
    for kind in KINDS:
        c = Compare({f"x{i}": kind for i in range(n)}, at, decide)
        r = c.run(got, want)
        if r is not None:
            return r
    return None


def at(t):
    x = t
    while x[0] in ("idx", "attr") and x[2] not in ("real", "imag"):
        x = x[1]
    if x[0] == "p":
        return t
    if x[0] == "call" and x[1] in (CSD, "len"):
        return ("par", show(t))
    return None


def text(x):
    return x if isinstance(x, str) else show(x)[:160]


def inline(f):
    return not f.short.startswith(("port.", "signal.")) and f.qual != CSD


def check(ctx):
    p = ctx.p
    ctx.rule("rewrite", "the graph an operation is rewritten to computes the operation's function", 5)
    ctx.rule("join", "the graph a joined operation is replaced by computes the function of the two operations", 2)
    ctx.rule("timing", "one operation rewritten to one other keeps name, latency offsets and execution time", 6)
    ctx.rule("place", "SFG.rewrite and SFG.join replace the operation the graph was made from", 2)
    g = Graph(p)
    for cls in sorted(p.subclasses(OP)):
        for name in sorted(p.classes[cls].methods):
            f = p.lookup(cls, name)
            if name.startswith("_rewrite_") and cls != SFG:
                rewrite(ctx, g, cls, f)
            if name == "_join":
                join(ctx, g, cls, f)
    sub_graph(ctx, g)
    place(ctx)


def mk(p, cls):
    sv = SV(p, cls, depth=7, inline=inline)
    sv.fresh = True
    return sv


def rewrite(ctx, g, cls, f):
    p = ctx.p
    name = f"{cls.rpartition('.')[2]}.{f.name}"
    o = OpSem(p, cls)
    heap, _ = o.merged_init()
    want, n = o.evaluate(heap)
    ctx.ob("rewrite", name)
    try:
        sv = mk(p, cls)
        outs = [x for x in sv.run(f, {}, heap) if x[1] == "ret"]
        for conds, _, val, _ in outs:
            for more, t in split_graphs(val):
                io = outs_of(t)
                if io is None:
                    raise Unknown("returns " + show(t)[:80])
                ins, os_ = io
                if len(ins) != n or len(os_) != 1:
                    ctx.bad("rewrite", name, p.loc(f, f.node), f"the graph has {len(ins)} inputs and {len(os_)} "
                            f"outputs, the operation {n} and 1")
                    return
                inputs = {x: ("p", f"x{i}") for i, x in enumerate(ins)}
                facts = {c: v for c, v in (*conds, *more)}
                timing(ctx, p, name, f, sv, heap, os_[0], inputs)
                if not csd_rule(ctx, g, name, f, os_[0], inputs, facts):
                    got = g.value(os_[0], inputs, {})
                    r = disagree(got, want, n, facts)
                    if r is not None:
                        ctx.bad("rewrite", name, p.loc(f, f.node),
                                f"the graph computes {text(r[1])}, the operation {text(r[2])}")
    except (Unknown, Blowup) as e:
        ctx.assume(f"{name}: not decided ({e})")


def timing(ctx, p, name, f, sv, heap, out, inputs):
    """One operation replaced by one operation: name, latency offsets and execution time are kept."""
    node = out
    while node[0] == "op" and node[1] == "<<":
        node = node[3]
    if node[0] == "new" and node[1].endswith(".Output") and "src0" in dict(node[3]):
        node = dict(node[3])["src0"]
    if node[0] != "new" or not all(dict(node[3]).get(f"src{i}") in inputs for i in range(len(inputs))):
        return
    kw = dict(node[3])
    sv.fstack = [f]
    st = State({}, dict(heap), {})
    for a in ("latency_offsets", "execution_time"):
        ctx.ob("timing", f"{name} {a}")
        want = sv.attr(("p", "self"), a, st)
        got = kw.get(a)
        if got is None and a == "latency_offsets" and kw.get("latency") == sv.attr(("p", "self"), "latency", st):
            continue
        if got != want and strip_fresh(got) != strip_fresh(want):
            ctx.bad("timing", f"{name} {a}", p.loc(f, f.node),
                    f"the new operation gets {show(got)[:80] if got else 'no'} {a}, not that of the replaced one")
    nm = kw.get("name")
    ctx.ob("timing", f"{name} name")
    if nm is None or find(nm, lambda t: t in (("p", "name"), ("p", "self"))) is None:
        ctx.bad("timing", f"{name} name", p.loc(f, f.node), "the new operation does not keep the name")


def strip_fresh(t):
    if not isinstance(t, tuple):
        return t
    return tuple(strip_fresh(x) for x in t if not (isinstance(x, tuple) and x[:1] == ("#",)))


# ---------------------------------------------------------------- sums over CSD digits
def csd_rule(ctx, g, name, f, out, inputs, facts):
    """Induction over the digits: every digit d of weight 2**e adds d*2**e*x to the graph built so far.

    float_to_csd(value) = (digits, frac): value is the sum of digits[i]*2**(len(digits) - 1 - frac - i), the
    digits are -1, 0 or 1, and there is none exactly when the value is 0, else the first and last are not 0.
    """
    call = find(out, lambda t: t[0] == "call" and t[1] == CSD)
    if call is None:
        return False
    p = ctx.p
    digits, frac = ("idx", call, const(0)), ("idx", call, const(1))
    ln = ("call", "len", (digits,), ())
    x = next(iter(inputs.values()))
    top = ("op", "-", ("op", "-", ln, const(1)), frac)

    def walk(t, single):
        while t[0] == "op" and t[1] == "<<" or t[0] == "new" and t[1].endswith(".Output"):
            t = t[3] if t[0] == "op" else dict(t[3])["src0"]
        if t[0] == "ite" and t[1][0] == "cmp" and t[1][1] == "==" and set(t[1][2:]) == {ln, const(1)}:
            walk(t[2], True)
            walk(t[3], False)
            return
        if single:
            for d in (1, -1):
                ctx.ob("rewrite", f"{name} for the single digit {d}")
                m = {("idx", digits, const(0)): const(d), ("idx", digits, const(-1)): const(d), ln: const(1)}
                got = simplify(subst(g.value(t, inputs, {}), m), {}, fold_eq)
                want = ("op", "*", x, ("op", "*", const(d), ("op", "**", const(2), ("un", "-", frac))))
                report(got, want, f"for the single digit {d}")
            return
        fold_rule(t)

    def report(got, want, when):
        r = disagree(got, want, 1)
        if r is not None:
            ctx.bad("rewrite", f"{name} {when}", p.loc(f, f.node),
                    f"the graph computes {text(r[1])}, the multiplication {text(r[2])} {when}")

    def fold_rule(t):
        if t[0] != "sel" or t[1][0] != "fold":
            raise Unknown("not a loop over the digits: " + show(t)[:60])
        _, it, inits, tree = t[1]
        inits = dict(inits)
        if it == ("call", "enumerate", (digits,), ()):
            idx, dig = (("idx", ("bnd", 0, "item"), const(0)), ("idx", ("bnd", 0, "item"), const(1)))
        else:
            raise Unknown("loop over " + show(it)[:60])
        e = ("p", "e")
        i_val = ("op", "-", top, e)
        acc = ("p", "acc")
        first = {("bnd", 0, v): w for v, w in inits.items()}

        def step(d, state):
            m = {dig: const(d), idx: i_val, **state}
            return leaves(simplify(subst(tree, m), {}, fold_eq))
        later = None
        # before the first digit that is not 0
        for _, leaf in step(0, first):
            if leaf[0] == "raise":
                raise Unknown("raises for the digit 0")
            if any(first.get(("bnd", 0, k)) != v for k, v in leaf[2] if ("bnd", 0, k) in first):
                raise Unknown("the digit 0 changes the state")
        states = []
        for d in (1, -1):
            for cs, leaf in step(d, first):
                ctx.ob("rewrite", f"{name} first digit {d}")
                if leaf[0] != "next":
                    raise Unknown("leaves the loop")
                vals = dict(leaf[2])
                compare(vals[t[2]], cs, ("op", "*", x, ("op", "*", const(d), ("op", "**", const(2), e))),
                        f"for the first digit {d}", {})
                states.append({("bnd", 0, k): v for k, v in vals.items() if k != t[2] and k in inits})
        if any(s != states[0] for s in states):
            raise Unknown("the state depends on the first digit")
        later = {**states[0], ("bnd", 0, t[2]): acc}
        for v in states[0].values():
            if v[0] not in ("c",):
                raise Unknown("loop variable " + show(v)[:40])
        for d in (1, 0, -1):
            for cs, leaf in step(d, later):
                ctx.ob("rewrite", f"{name} later digit {d}")
                if leaf[0] != "next":
                    raise Unknown("leaves the loop")
                vals = dict(leaf[2])
                if any(vals.get(k[2], v) != v for k, v in states[0].items()):
                    raise Unknown("the state changes again")
                want = ("op", "+", acc, ("op", "*", x, ("op", "*", const(d), ("op", "**", const(2), e))))
                compare(vals[t[2]], cs, want, f"for a later digit {d}", {acc: acc})
        zero = [c for c, v in facts.items() if v and mentions(c, digits)]
        if not zero:
            ctx.ob("rewrite", f"{name} for zero")
            init = inits[t[2]]
            if init == NONE:
                return
            got = g.value(init, inputs, {})
            r = disagree(got, const(0), 1)
            if r is not None:
                ctx.bad("rewrite", f"{name} zero", p.loc(f, f.node),
                        f"the graph for a multiplication by zero computes {text(r[1])}")

    def compare(node, conds, want, when, env):
        fs = {c: v for c, v in conds}
        got = g.value(node, inputs, env)
        # conditions met on the way are facts about e
        wrapped, ref = got, want
        for c, v in reversed(list(fs.items())):
            wrapped = ("ite", c, wrapped, ref) if v else ("ite", c, ref, wrapped)
        report(wrapped, want, when)

    walk(out, False)
    return True


def fold_eq(c):
    """Decide comparisons of constants and of None with a node."""
    if c[0] == "cmp" and c[1] in ("==", "is"):
        a, b = c[2], c[3]
        if a[0] == b[0] == "c":
            return a[2] == b[2]
        if NONE in (a, b) and (a if b == NONE else b)[0] in ("new", "p", "op", "un"):
            return False
    if c[0] == "cmp" and c[1] == "in" and c[2][0] == "c" and c[3][0] in ("tuple", "list", "set") and all(
            x[0] == "c" for x in c[3][1]):
        return c[2] in c[3][1]
    if c[0] == "cmp" and c[1] == "<" and c[2][0] == c[3][0] == "c":
        return c[2][2] < c[3][2]
    return None


def leaves(t, conds=()):
    if t[0] == "ite":
        return leaves(t[2], (*conds, (t[1], True))) + leaves(t[3], (*conds, (t[1], False)))
    if t[0] == "leaf":
        return [(conds, t[1])]
    raise Unknown("loop body " + show(t)[:60])


def find(t, pred):
    if not isinstance(t, tuple) or not t:
        return None
    if isinstance(t[0], str) and pred(t):
        return t
    for x in t:
        r = find(x, pred)
        if r is not None:
            return r
    return None


def mentions(t, part):
    return find(t, lambda x: x == part) is not None


# ---------------------------------------------------------------- join
def join(ctx, g, cls, f):
    p = ctx.p
    cname = cls.rpartition(".")[2]
    o = OpSem(p, cls)
    heap, _ = o.merged_init()
    own, n = o.evaluate(heap)
    if n != 1 or len(f.params) < 2:
        ctx.assume(f"{cname}._join: not decided")
        return
    other = ("p", f.params[1])
    for oc in sorted(p.subclasses(OP)):
        if oc.endswith((".SFG", ".Operation", ".AbstractOperation")) or p.lookup(oc, "evaluate") is None:
            continue
        oo = OpSem(p, oc)
        oheap, _ = oo.merged_init()
        try:
            oterm, k = oo.evaluate(oheap)
        except Blowup:
            continue
        ren = {("p", a): ("p", "o_" + a) for a in oo.ctor_params()}
        ren[("p", "self")] = other
        full = {**heap, **{subst(key, ren): subst(v, ren) for key, v in oheap.items()}}
        for port in range(k):
            args = {}
            if len(f.params) > 2:
                args[f.params[2]] = const(port)
            try:
                sv = mk(p, cls)
                sv.cls_of[other] = oc
                outs = [x for x in sv.run(f, args, full) if x[1] == "ret" and x[2] != NONE]
                for conds, _, val, _ in outs:
                    for more, t in split_graphs(val):
                        if t == NONE:
                            continue
                        name = f"{cname} into {oc.rpartition('.')[2]} input {port}"
                        ctx.ob("join", name)
                        io = outs_of(t)
                        if io is None:
                            raise Unknown("returns " + show(t)[:80])
                        ins, os_ = io
                        if len(ins) != k or len(os_) != 1:
                            ctx.bad("join", name, p.loc(f, f.node), "another number of inputs or outputs")
                            continue
                        inputs = {x: ("p", f"x{i}") for i, x in enumerate(ins)}
                        got = g.value(os_[0], inputs, {})
                        want = subst(oterm, {**ren, ("p", f"x{port}"): subst(own, {("p", "x0"): ("p", f"x{port}")})})
                        facts = {c: v for c, v in (*conds, *more)}
                        r = disagree(got, want, k, facts)
                        if r is not None:
                            ctx.bad("join", name, p.loc(f, f.node),
                                    f"the joined graph computes {text(r[1])}, the two operations {text(r[2])}")
            except (Unknown, Blowup) as e:
                ctx.assume(f"joining {cname} into {oc.rpartition('.')[2]} input {port}: not decided ({e})")


# ---------------------------------------------------------------- SFG._rewrite_ShiftAddSub
def sub_graph(ctx, g):
    """A graph of one shift and one addition or subtraction, in every wiring."""
    p = ctx.p
    f = p.lookup(SFG, "_rewrite_ShiftAddSub")
    if f is None:
        return
    sh, ad = ("p", "sh"), ("p", "ad")
    shift_t, _, _, _, sparams = g.op_term(CORE + "Shift")
    for oc in ("Addition", "Subtraction", "AddSub"):
        at_, _, _, _, aparams = g.op_term(CORE + oc)
        ren = {("p", a): ("p", "ad_" + a) for a in aparams}
        srn = {("p", a): ("p", "sh_" + a) for a in sparams}
        oo = OpSem(p, CORE + oc)
        so = OpSem(p, CORE + "Shift")
        heap = {}
        for o, r, me in ((oo, ren, ad), (so, srn, sh)):
            h, _ = o.merged_init()
            heap |= {subst(k, {**r, ("p", "self"): me}): subst(v, {**r, ("p", "self"): me}) for k, v in h.items()}
        me = ("p", "self")
        for order in ((sh, ad), (ad, sh)):
            for w in (0, 1):          # the input of the addition the shift is connected to
                for s in (0, 1):      # the input of the graph that is shifted
                    heap2 = dict(heap)
                    heap2[("attr", me, "_operations_dfs_order")] = ("list", order)
                    heap2[("attr", me, "_input_ports")] = ("list", (("p", "ip0"), ("p", "ip1")))
                    heap2[("attr", me, "_output_ports")] = ("list", (("p", "op0"),))

                    def assume(c, w=w, s=s):
                        if c[0] == "cmp" and c[1] in ("is", "==") and any(
                                x[0] == "attr" and x[2] == "connected_source" for x in c[2:]):
                            k = [x for x in c[2:] if x[0] == "attr" and x[2] == "connected_source"][0]
                            i = find(k, lambda t: t[0] == "new" and t[1].endswith(".InputPort"))
                            if i is not None and "index" in dict(i[3]):
                                return dict(i[3])["index"] == const(w)
                        if c[0] == "call" and c[1] == "isinstance" and "destination_operation" in str(c[2][0]):
                            return s == 0
                        return None
                    sv = SV(p, SFG, depth=7, inline=inline, assume=assume)
                    sv.fresh = True
                    sv.cls_of[sh], sv.cls_of[ad] = CORE + "Shift", CORE + oc
                    name = f"SFG of Shift and {oc}, input {s} shifted into input {w}"
                    ctx.ob("rewrite", name)
                    try:
                        for conds, kind, val, _ in sv.run(f, {}, heap2):
                            if kind != "ret":
                                continue
                            for more, t in split_graphs(val):
                                if conds and any("connected_source" in str(c) or "isinstance" in str(c)
                                                 for c, _ in (*conds, *more)):
                                    raise Unknown("condition " + show(conds[0][0])[:60])
                                ins, os_ = outs_of(t) or (None, None)
                                if ins is None:
                                    raise Unknown("returns " + show(t)[:60])
                                inputs = {x: ("p", f"x{i}") for i, x in enumerate(ins)}
                                got = g.value(os_[0], inputs, {})
                                shifted = subst(shift_t, {**srn, ("p", "x0"): ("p", f"x{s}")})
                                want = subst(at_, {**ren, ("p", f"x{w}"): shifted, ("p", f"x{1 - w}"): ("p", f"x{1 - s}")})
                                facts = dict((*conds, *more))
                                r = disagree(got, want, 2, facts)
                                if r is not None:
                                    ctx.bad("rewrite", f"SFG._rewrite_ShiftAddSub of {oc}", p.loc(f, f.node),
                                            f"computes {text(r[1])}, the graph {text(r[2])} ({name})")
                    except (Unknown, Blowup) as e:
                        ctx.assume(f"{name}: not decided ({e})")


# ---------------------------------------------------------------- where the new graph goes
def place(ctx):
    """replace(X.graph_id, G): G was made by a method of X (rewrite) or of the operation joined into X (join)."""
    p = ctx.p
    for fname in ("rewrite", "join"):
        f = p.lookup(SFG, fname)
        if f is None:
            continue
        made = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) \
                    and isinstance(n.value, ast.Call):
                c = n.value
                fn = c.func
                if isinstance(fn, ast.Call) and isinstance(fn.func, ast.Name) and fn.func.id == "getattr":
                    recv = fn.args[0]
                    made.setdefault(n.targets[0].id, []).append((recv, c.args, c))
                elif isinstance(fn, ast.Attribute) and fn.attr == "_join":
                    made.setdefault(n.targets[0].id, []).append((fn.value, c.args, c))
        for n in ast.walk(f.node):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "replace"
                    and len(n.args) == 2 and isinstance(n.args[1], ast.Name) and n.args[1].id in made):
                continue
            where = n.args[0]
            if not (isinstance(where, ast.Attribute) and where.attr == "graph_id"):
                continue
            tgt = ast.dump(where.value)
            ctx.ob("place", f"SFG.{fname}: replace({ast.unparse(where)}, …)")
            ok = False
            for recv, args, _ in made[n.args[1].id]:
                cand = args if fname == "join" else [recv, *args]
                ok = ok or any(ast.dump(a) == tgt for a in cand)
            if not ok:
                ctx.bad("place", f"SFG.{fname}", p.loc(f, n),
                        f"replaces {ast.unparse(where)} by a graph made from another operation")
        if fname == "join":
            for v in made.values():
                for recv, args, c in v:
                    j = [p.lookup(k, "_join") for k in p.subclasses(OP) if "_join" in p.classes[k].methods]
                    for g in j:
                        if len(g.params) > 2 and len(args) > 1:
                            ctx.ob("place", "the index given to _join is the index of the connected input")
                            a = args[1]
                            if isinstance(a, ast.Attribute) and a.attr == "index" and isinstance(
                                    a.value, ast.Attribute) and a.value.attr == "source":
                                ctx.bad("place", "SFG.join index", p.loc(f, c),
                                        "gives the index of the output instead of the joined input")
