"""C18: collections of processes: bounds, conflicts, splits."""

from checks.refs import compare_refs, want_modules

LEVEL = "other"


def check(ctx):
    want_modules(ctx, ["resources"])
    compare_refs(ctx, "resources", "access counts, bounds, conflict graphs and splits of ProcessCollection equal their definitions")
