"""C03: what an operation declares about itself (linear, constant, swappable, needed inputs) is true."""

from checks.opsem import OpSem, atomise, shape, untuple
from sa.equiv import Compare
from sa.poly import Arith, Unknown, atomic, first_cond, simplify
from sa.symval import FALSE, NONE, State, TRUE, Blowup, const
from spec.operations import OPERATIONS

ROOTCLS = "b_asic.operation.AbstractOperation"


def const_input(c):
    """Index i if the condition asks whether the source of input i is constant."""
    if c[0] != "attr" or c[2] != "is_constant":
        return None
    found = set()

    def walk(t):
        if not isinstance(t, tuple) or not t:
            return
        if t[0] == "new" and str(t[1]).endswith("InputPort"):
            for k, v in t[3]:
                if k == "index" and v[0] == "c":
                    found.add(v[2])
            return
        for x in t:
            walk(x)
    walk(c)
    return found.pop() if len(found) == 1 else None


def get_attr(o, heap, name):
    sv = o.sv()
    sv.fstack = [o.p.lookup(o.cls, "evaluate")]
    return sv.truth(sv.attr(("p", "self"), name, State({}, dict(heap), {})), State({}, {}, {}))


def leaves(terms, kinds, pick, facts=None, depth=0):
    """(facts, simplified terms) for every combination of undecided conditions."""
    facts = facts or {}
    c = Compare(kinds, atomise, pick)
    d = c.decide(facts)
    ts = [simplify(t, {}, d) for t in terms]
    cond = None
    for t in ts:
        cond = first_cond(t)
        if cond is not None:
            break
    if cond is None:
        yield c, facts, ts
        return
    if depth > 12:
        raise Unknown("too many conditions")
    k = c.canon_cond(atomic(cond))
    if isinstance(k, bool) or k in facts:
        raise Unknown(f"condition {cond}")
    for v in (True, False):
        yield from leaves(terms, kinds, pick, {**facts, k: v}, depth + 1)


def inputs_in(t, out):
    """Input names x0, x1, … anywhere in a nested tuple."""
    if isinstance(t, tuple):
        if t[:1] == ("p",) and len(t) == 2 and isinstance(t[1], str) and t[1][:1] == "x" and t[1][1:].isdigit():
            out.add(t[1])
        for x in t:
            inputs_in(x, out)
    return out


def wrapb(c):
    """A condition as a 0/1 choice, so that it is split like any other."""
    return ("ite", c, const(1), const(0))


def check(ctx):
    p = ctx.p
    ctx.rule("linear", "where is_linear is True every term of every output has degree at most one in the inputs that "
             "are not constant, and no such input inside a nonlinear function or a condition", 60)
    ctx.rule("constant", "where is_constant is True no output depends on an input that is not constant", 60)
    ctx.rule("swap", "where is_swappable is True the operation computes the same function between the same ports "
             "after swap_io, and the port indices match the port order", 20)
    ctx.rule("needs", "every input an output depends on is listed by inputs_required_for_output", 30)
    for cls in p.subclasses(ROOTCLS):
        short = cls.removeprefix("b_asic.")
        f = p.lookup(cls, "evaluate")
        if cls == ROOTCLS or f is None or f.abstract or short not in OPERATIONS:
            continue
        kinds = OPERATIONS[short][0]
        kind = "cnum" if "cnum" in kinds else "num"
        o = OpSem(p, cls)
        name = short.rpartition(".")[2]
        heap, _ = o.merged_init()
        got, n = o.evaluate(heap)
        nout = out_count(o, heap)
        outs = untuple(got, nout)
        if outs is None:
            ctx.assume(f"{name}: outputs not separable; not decided")
            continue
        where = p.loc(f, f.node)
        ks = {f"x{i}": kind for i in range(n)}
        for flag, rid in (("is_linear", "linear"), ("is_constant", "constant")):
            term = get_attr(o, heap, flag)
            fl = p.lookup(cls, flag)
            w = p.loc(fl, fl.node) if fl is not None else where
            for s in range(2 ** n):
                consts = {i for i in range(n) if s >> i & 1}
                ctx.ob(rid, f"{name}.{flag} with constant inputs {sorted(consts)}")

                def pick(c, consts=consts):
                    i = const_input(c)
                    return None if i is None else i in consts
                try:
                    msg = flag_violation(outs, term, ks, pick, consts, rid)
                except Unknown as e:
                    ctx.assume(f"{name}.{flag}: not decided ({e})")
                    break
                if msg:
                    ctx.bad(rid, f"{name}.{flag} with constant inputs {sorted(consts)}", w, msg)
                    break
        needs(ctx, o, name, outs, heap, n, ks)
        swap(ctx, o, name, heap, outs, n, kinds)


def out_count(o, heap):
    v = heap.get(("attr", ("p", "self"), "_output_ports"))
    return len(v[1]) if v is not None and v[0] == "list" else 1


def flag_violation(outs, term, ks, pick, consts, rid):
    free = {f"x{i}" for i in range(len(ks)) if i not in consts}
    for i, out in enumerate(outs):
        for c, facts, (t, fl) in leaves([out, wrapb(term)], ks, pick):
            if fl == const(0):
                continue
            if fl != const(1):
                raise Unknown("flag value")
            # conditions decided on inputs
            bad = {x for k in facts for x in inputs_in(k, set())} & free
            if bad and rid == "linear" or bad and rid == "constant":
                return f"is True, but output {i} is chosen by a condition on input {sorted(bad)[0][1:]}"
            pl = Arith(ks, c.substs(facts), atomise).poly(t)
            for mono in pl.d:
                deg = 0
                for a, e in mono:
                    direct = a[0] == "p" and a[1] in free
                    if direct:
                        deg += e if e > 0 else 2
                    elif a[0] != "p" and inputs_in(a, set()) & free:
                        deg += 2
                if rid == "linear" and deg > 1:
                    return f"is True, but output {i} = {pl} is not linear in inputs " \
                           f"{sorted(x[1:] for x in free)}"
                if rid == "constant" and deg > 0:
                    return f"is True, but output {i} = {pl} depends on an input that is not constant"
    return None


def needs(ctx, o, name, outs, heap, n, ks):
    p = ctx.p
    f = p.lookup(o.cls, "inputs_required_for_output")
    for i, out in enumerate(outs):
        ctx.ob("needs", f"{name} output {i}")
        try:
            v = o.sv().value(f, {f.params[1]: const(i)}, heap)
        except Blowup:
            ctx.assume(f"{name}: inputs_required_for_output not decided")
            return
        if v[0] == "call" and v[1] == "range" and all(a[0] == "c" for a in v[2]):
            v = ("list", tuple(const(k) for k in range(*[a[2] for a in v[2]])))
        if v[0] == "call" and v[1] in ("list", "tuple") and v[2] and v[2][0][0] == "call" and v[2][0][1] == "range" \
                and all(a[0] == "c" for a in v[2][0][2]):
            v = ("list", tuple(const(k) for k in range(*[a[2] for a in v[2][0][2]])))
        if v[0] not in ("list", "tuple", "set") or any(x[0] != "c" for x in v[1]):
            ctx.assume(f"{name}: inputs_required_for_output({i}) not decided")
            continue
        listed = {f"x{x[2]}" for x in v[1]}
        try:
            for c, facts, (t,) in leaves([out], ks, lambda c: None):
                pl = Arith(ks, c.substs(facts), atomise).poly(t)
                used = {x for m in pl.d for x in inputs_in(m, set())}
                used |= {x for k in facts for x in inputs_in(k, set())}
                if used - listed:
                    ctx.bad("needs", f"{name} output {i}", p.loc(f, f.node),
                            f"output {i} = {pl} depends on input {sorted(used - listed)[0][1:]}, "
                            f"but only {sorted(x[1:] for x in listed)} are listed")
                    break
        except Unknown as e:
            ctx.assume(f"{name}: needed inputs not decided ({e})")


def perm(ports, ref):
    """For each position the original index of the port there."""
    if ports is None or ports[0] not in ("list", "tuple") or len(ports[1]) != len(ref[1]):
        return None
    out = []
    for x in ports[1]:
        if x not in ref[1]:
            return None
        out.append(ref[1].index(x))
    return out if len(set(out)) == len(out) else None


def swap(ctx, o, name, heap, outs, n, kinds):
    p = ctx.p
    flag = get_attr(o, heap, "is_swappable")
    if flag == FALSE:
        return
    f = p.lookup(o.cls, "swap_io")
    me = ("p", "self")
    sv = o.sv()
    facts = {} if flag == TRUE else {flag: True}
    if flag[0] == "and":
        facts.update({x: True for x in flag[1] if x[0] != "not"})
        facts.update({x[1]: False for x in flag[1] if x[0] == "not"})
    if flag[0] == "not":
        facts = {flag[1]: False}
    res = [x for x in sv.run(f, {}, heap, facts) if x[1] != "raise"]
    ik, ok = ("attr", me, "_input_ports"), ("attr", me, "_output_ports")
    for r in res:
        h = r[3].heap
        ctx.ob("swap", f"{name}.swap_io")
        pi, po = perm(h.get(ik), heap[ik]), perm(h.get(ok), heap[ok])
        if pi is None or po is None:
            ctx.assume(f"{name}.swap_io: port order not decided")
            continue
        for key, pp in ((ik, pi), (ok, po)):
            for pos, orig in enumerate(pp):
                port = heap[key][1][orig]
                ctx.ob("swap", f"{name}.swap_io {key[2]}[{pos}] index")
                idx = h.get(("attr", port, "_index"), const(orig))
                if idx[0] == "c" and idx[2] != pos:
                    ctx.bad("swap", f"{name}.swap_io {key[2]}[{pos}]", p.loc(f, f.node),
                            f"the port now at position {pos} has index {idx[2]}")
        got2, _ = o.evaluate(h)
        outs2 = untuple(got2, len(outs))
        if outs2 is None:
            continue
        ren = {("p", f"x{pos}"): ("p", f"x{orig}") for pos, orig in enumerate(pi)}
        for pos, orig in enumerate(po):
            a = ("ite", flag, sv.subst(outs2[pos], ren), const(0)) if flag != TRUE else sv.subst(outs2[pos], ren)
            b = ("ite", flag, outs[orig], const(0)) if flag != TRUE else outs[orig]
            for kind in kinds[-1:]:
                ctx.ob("swap", f"{name} output {orig}")
                try:
                    d = shape(a, b, {f"x{i}": kind for i in range(n)})
                except Unknown as e:
                    ctx.assume(f"{name}.swap_io: not decided ({e})")
                    break
                if d is not None:
                    ctx.bad("swap", f"{name} output {orig}: {d[1]} instead of {d[2]}", p.loc(f, f.node),
                            f"computes {d[1]} after swapping and {d[2]} before")
