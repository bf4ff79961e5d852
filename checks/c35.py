"""C35: processes and operation timing follow from the schedule and the operation."""

from checks.refs import compare_refs, want_modules

LEVEL = "other"
SCHED = {"get_operations", "get_memory_variables", "_execution_times_in_time"}
TIMES = {"_increase_time_resolution", "_decrease_time_resolution"}


def check(ctx):
    want_modules(ctx, ["process", "schedule", "timing"])
    compare_refs(ctx, "process", "start, life time and read times of processes, and their splitting, equal their definitions")
    compare_refs(ctx, "schedule", "processes and memory variables taken from a schedule have the times the schedule says",
                 lambda t: t.rpartition(".")[2] in SCHED)
    compare_refs(ctx, "timing", "latency, latency offsets, coordinates and connected operations equal their definitions; times are set exactly on the operations of the requested type",
                 lambda t: t.rpartition(".")[2] not in TIMES)
