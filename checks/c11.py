"""C11: changing the time resolution scales every time quantity; only where it divides."""

from checks.refs import compare_refs, want_modules

LEVEL = "other"
SCHED = {"increase_time_resolution", "decrease_time_resolution", "_get_all_times", "get_possible_time_resolution_decrements",
         "set_schedule_time"}
TIMES = {"_increase_time_resolution", "_decrease_time_resolution"}


def check(ctx):
    want_modules(ctx, ["schedule", "timing"])
    compare_refs(ctx, "schedule", "time scaling: schedule time, start times and the times of every operation are multiplied or divided by the factor, once; the divisibility check covers all of them; the schedule time is only changed to one that fits",
                 lambda t: t.rpartition(".")[2] in SCHED)
    compare_refs(ctx, "timing", "operation times: latency offsets and execution time are scaled by the factor and set only on the operations of the requested type",
                 lambda t: t.rpartition(".")[2] in TIMES)
