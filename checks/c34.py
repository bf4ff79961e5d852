"""C34: operators on signal sources build the operation of their meaning."""

from checks.refs import compare_refs, want_modules

LEVEL = "other"


def check(ctx):
    want_modules(ctx, ["overload"])
    compare_refs(ctx, "overload", "each operator builds the operation computing what the operator means, with operands in order")
