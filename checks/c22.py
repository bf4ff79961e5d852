"""C22: generators of signal flow graphs build the documented structure with the caller's options."""

from __future__ import annotations

import re

from checks.refs import compare_refs, known_names, want_modules
from sa.refcmp import RefCompare, ctext, subterms
from sa.symval import Blowup

LEVEL = "other"
GEN = "b_asic.sfg_generators."
CM = "b_asic.core_operations.ConstantMultiplication"
ADD = "b_asic.core_operations.Addition"
MAD = "b_asic.core_operations.MAD"
TWO = "b_asic.wdf_operations.SymmetricTwoportAdaptor"
SFG = "b_asic.sfg.SFG"
NONE = ("c", "NoneType", None)
# generator -> {operation class: (parameter holding its options, ...)}; "**": a dictionary of options
OPTIONS = {
    "digital_filters.fir": {CM: ("**", "mult_properties"), ADD: ("**", "add_properties")},
    "digital_filters.direct_form_1_iir": {CM: ("**", "mult_properties"), ADD: ("**", "add_properties")},
    "digital_filters.direct_form_2_iir": {CM: ("**", "mult_properties"), ADD: ("**", "add_properties")},
    "matrix_operations.matrix_multiplication": {MAD: ("**", "mad_properties")},
    "wave_digital_filters.wdf_allpass": {TWO: ("=", "latency", "latency_offsets", "execution_time")},
}
NAMED = [*OPTIONS, "wave_digital_filters.lattice_wdf"]


def mentions(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(mentions(y, x) for y in t)


def params(t, out):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "p":
            out.add(t[1])
        for y in t:
            params(y, out)
    return out


def strings(t, out):
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == "c" and t[1] == "str":
            out.add(t[2])
        for y in t:
            strings(y, out)
    return out


def value_when(t, param, given):
    """The term in the case that a parameter is None (or is given)."""
    p = ("p", param)
    while True:
        if t[0] == "ite" and t[1] == ("is", p, NONE):
            t = t[3] if given else t[2]
        elif t[0] == "ite" and t[1] == ("not", ("is", p, NONE)):
            t = t[2] if given else t[3]
        elif t == p and not given:
            return NONE
        else:
            return t


def empty(t):
    return t == NONE or t[0] == "dictc" and t[1] in ((), ("cat", ()))


def check(ctx):
    want_modules(ctx, ["generators"])
    p = ctx.p
    compare_refs(ctx, "generators", "the index arithmetic, twiddle factors and structure of a generated graph are those of its definition",
                 rule="C22-structure")
    ctx.rule("C22-options", "every operation a generator makes is given the options the caller gave for it", 5)
    ctx.rule("C22-name", "a generated graph has the name the caller gave", 3)
    for q in NAMED:
        f = p.funcs.get(GEN + q)
        if f is None:
            ctx.assume(f"{q} is not there")
            continue
        try:
            fn, _ = known_names()
            m = RefCompare(p, known=fn).meaning(f, None)
        except (Blowup, RecursionError, KeyError, IndexError, TypeError) as e:
            ctx.assume(f"{q}: not analysed ({type(e).__name__}: {e})")
            continue
        made = [x for x in subterms(m, set()) if x[0] == "new"]
        options(ctx, p, q, f, made)
        name(ctx, p, q, f, made)


def options(ctx, p, q, f, made):
    where = p.loc(f, f.node)
    for cls, how in OPTIONS.get(q, {}).items():
        short = cls.rsplit(".", 1)[1]
        mine = [x for x in made if x[1] == cls]
        if not mine:
            ctx.assume(f"{q}: no {short} is seen to be made")
            continue
        others = {n for c, h in OPTIONS[q].items() if c != cls for n in h[1:]}
        n = 0
        for x in mine:
            kw = dict(x[3])
            if how[0] == "**":
                t = kw.get("**")
                got = params(tuple(v for k, v in x[3] if not k.startswith(("src", "value"))), set())
                if t is None:
                    if how[1] in got:
                        ctx.assume(f"{q}: options of {ctext(x)[:80]} not decided")
                    else:
                        ctx.bad("C22-options", f"{q}:{short}", where,
                                f"{ctext(x)[:160]} is made without the options in {how[1]}")
                    continue
                given, none = value_when(t, how[1], True), value_when(t, how[1], False)
                if given == ("p", how[1]) and empty(none):
                    n += 1
                elif how[1] not in params(t, set()) and (not params(t, set()) and empty(t) or params(t, set()) & others):
                    ctx.bad("C22-options", f"{q}:{short}", where,
                            f"{ctext(x)[:160]} is made with the options {ctext(t)[:60]}, not with those in {how[1]}")
                else:
                    ctx.assume(f"{q}: options of {ctext(x)[:80]} not decided")
                continue
            for o in how[1:]:
                t = kw.get(o)
                if t == ("p", o):
                    n += 1
                elif t is None or t == NONE or t[0] == "p" and t[1] in how[1:]:
                    if "**" in kw or "*" in kw:
                        ctx.assume(f"{q}: {o} of {ctext(x)[:80]} not decided")
                    else:
                        ctx.bad("C22-options", f"{q}:{short}.{o}", where,
                                f"{ctext(x)[:160]} is made with {o} {ctext(t) if t else 'left out'}, not the {o} the caller gave")
                else:
                    ctx.assume(f"{q}: {o} of {ctext(x)[:80]} not decided")
        ctx.ob("C22-options", f"{q}: {n} options of {len(mine)} {short} constructions")


def name(ctx, p, q, f, made):
    import ast
    where = p.loc(f, f.node)
    sfgs = [x for x in made if x[1] == SFG]
    if len(sfgs) != 1:
        ctx.assume(f"{q}: {len(sfgs)} graphs seen to be made")
        return
    t = dict(sfgs[0][3]).get("name")
    if t is None or not mentions(t, ("p", "name")):
        if t is not None and params(t, set()) - {"name"}:
            ctx.assume(f"{q}: name of the graph not decided")
            return
        ctx.bad("C22-name", q, where, "the graph is made without the name the caller gave")
        return
    doc = ast.get_docstring(f.node) or ""
    d = re.search(r"^name : .*\n(?:\s+.*\n)*?\s+.*?(?:If None,|Defaults to)\s+`*\"([^\"]*)\"", doc, re.M)
    if d:
        got = strings(t, set())
        if d.group(1) not in got:
            if len(got) == 1:
                ctx.bad("C22-name", q, where, f"the graph is called {got} when no name is given, documented is {d.group(1)!r}")
            else:
                ctx.assume(f"{q}: default name not decided")
            return
    ctx.ob("C22-name", f"{q}: {ctext(t)[:80]}")
