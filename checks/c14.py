"""C14: ports and signals always refer to each other."""

from checks.refs import compare_refs, want_modules

LEVEL = "other"


def check(ctx):
    want_modules(ctx, ["links"])
    compare_refs(ctx, "links", "every method that connects or disconnects changes both ends, and refuses what would leave one end behind")
