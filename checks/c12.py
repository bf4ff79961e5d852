"""C12: schedule editing operations: bounds, slack, laps, delays."""

from checks.refs import compare_refs, want_modules

LEVEL = "other"
OTHER = {"increase_time_resolution", "decrease_time_resolution", "_get_all_times", "get_possible_time_resolution_decrements",
         "set_schedule_time", "get_operations", "get_memory_variables", "_execution_times_in_time"}


def check(ctx):
    want_modules(ctx, ["schedule"])
    compare_refs(ctx, "schedule", "every editing operation and query of Schedule equals its definition (slack bounds a move, the slack of every signal changes by exactly the move, rotation keeps it, laps and delays correspond)",
                 lambda t: t.rpartition(".")[2] not in OTHER)
