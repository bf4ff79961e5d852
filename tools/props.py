"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py writes both)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # claimed
NA = []     # not applicable


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, state=None):
    P.append((dict(id=id, title=title, statement=statement,
                   quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                   anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}),
              technique, note))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append((dict(id=id, title=title, statement=statement,
                    quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                    anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}),
               reason))


L = "lib/b_asic/"
NOTE = ("Deciding step: whole-program analysis of the sources in /repo on every run (mypy-typed syntax "
        "trees, class-hierarchy call graph). Trusted: mypy's types, the models of builtins in sa/. ")
EFF = ("interprocedural mutation-effect and alias analysis (bottom-up points-to summaries to a fixpoint "
       "over the resolved call graph)")

prop("C05", "Graph transformations leave the original graph and their arguments alone",
     "Copying, flattening, extracting, replacing, inserting, removing, simplifying delays, unfolding, "
     "rewriting and joining signal flow graphs return a new graph. The graph the transformation was called "
     "on, and every operation or graph passed as an argument, is exactly as before: no connection, "
     "parameter, name, delay or cached id of it changed. The new graph shares no operation, port, signal "
     "or container with the old graph.",
     ["inputs", "histories"], "every graph, every legal argument, every sequence of transformations",
     "tests compare a handful of small graphs after one transformation and rarely look at the original",
     [L + "sfg.py", L + "operation.py", L + "special_operations.py", L + "port.py", L + "signal.py"],
     [("graph transformations", "SFG.__call__, copy, flatten, extract, replace, insert_operation*, "
       "remove_operation, simplify_delay_element_placement, unfold, rewrite, join"),
      ("component copy", "GraphComponent.copy, copy_unconnected")],
     EFF,
     NOTE + "Sound up to the stated models for stores, container mutations and mutating calls that reach an "
     "object existing at entry; whether the new graph computes the right function is not decided here.")

prop("C06", "Queries, plots, exports and simulation set-up change nothing",
     "Every read-only operation (printing, searching, analysing, slack and bound queries, plotting, code and "
     "Python export, building a simulation from a graph, mapping a schedule to resources) leaves the graph, "
     "schedule, process collection, architecture and data structures it reads exactly as they were. Asking "
     "the same question twice gives the same answer. Values computed once and cached are the only exception.",
     ["inputs", "histories"], "every object state, every read-only call, in any order",
     "a test asks once and does not compare the object before and after",
     [L + "sfg.py", L + "schedule.py", L + "resources.py", L + "architecture.py", L + "process.py",
      L + "simulation.py", L + "save_load_structure.py", L + "resource_assigner.py",
      L + "code_printer/vhdl/vhdl_printer.py"],
     [("queries", "public read-only methods and properties of SFG, Schedule, ProcessCollection, Architecture, "
       "Resource, Process, StateSpace, TransferFunction, Simulation, Port, Signal, Operation"),
      ("readers", "sfg_to_python, schedule_to_python, Simulation.__init__, VhdlPrinter.print")],
     EFF, NOTE + "Drawing libraries' own objects are outside the design and not tracked.")

prop("C08", "Lists and dicts given by a caller are never changed or kept and changed later",
     "A list, dict or set that a user passes to a public function, constructor or attribute setter has the "
     "same contents afterwards, and still has them after any later edit of the object it was passed to. "
     "Documented accumulators (the results and delays dicts of output evaluation) are excepted.",
     ["inputs", "histories"], "every public call with a container argument, followed by any edits",
     "tests build a literal for each call and never look at it again",
     [L + "schedule.py", L + "process.py", L + "scheduler.py", L + "architecture.py", L + "sfg.py",
      L + "resources.py", L + "code_printer/vhdl/vhdl_printer.py"],
     [("provided schedules", "Schedule.__init__, Schedule.start_times"),
      ("lifetimes", "MemoryProcess.__init__"), ("public API", "every public function with a container parameter")],
     EFF, NOTE + "Graphs, operations and process collections handed over to become part of another object are "
     "not containers in this sense. Containers nested deeper than three levels are not tracked.")

prop("C09", "Independent objects share no state and no call remembers an earlier one",
     "Two graphs, schedules, collections, architectures or id generators created independently in one process "
     "do not influence each other, whatever was done before. No function keeps state in a default argument "
     "value, a class attribute or a module variable, so the same sequence of calls on fresh objects gives the "
     "same result at any time; the running numbers in default display names are the only exception.",
     ["histories"], "every sequence of constructions and calls in one process",
     "each test starts from fresh objects and does not repeat its history in the same process",
     [L + "sfg.py", L + "process.py", L + "resources.py", L + "graph_component.py", L + "operation.py"],
     [("id generation", "GraphIDGenerator.next_id"), ("all classes", "class-level values, parameter defaults")],
     EFF + "; class-level value, default-value and global-rebinding lints over the same summaries",
     NOTE + "GUI modules are not analysed for this property.")

VN = ("global value numbering of the method bodies (gated terms, calls and constructors expanded) and comparison of "
      "polynomial normal forms; no solver, no execution")

prop("C03", "What an operation declares about itself is true of what it computes",
     "Where an operation says it is linear, it is linear in its non-constant inputs; where it says it is constant, "
     "its outputs do not depend on a non-constant input. Where it says its inputs can be swapped, swap_io leaves the "
     "function between the same ports unchanged and the port indices in port order, and every input an output depends "
     "on is in inputs_required_for_output.",
     ["inputs", "configurations"], "every operation class, every parameter value, every input value, every choice of "
     "which inputs are constant",
     "tests look at a few flags with one parameter set; a wrong flag only shows in a transformed graph",
     [L + "core_operations.py", L + "wdf_operations.py", L + "fft_operations.py", L + "operation.py"],
     [("flags", "is_linear, is_constant, is_swappable, swap_io, inputs_required_for_output of every operation class")],
     VN, NOTE + "The graph-level flags of SFG (conjunctions over its operations) and the special operations "
     "(Input, Output, Delay, DontCare, Sink) are not decided. Arithmetic is over exact numbers, not rounded ones.")

prop("C31", "Every operation computes its documented function",
     "For every input and every parameter value, each output an operation evaluates to is the value of its documented "
     "formula. After a parameter is set, the parameter reads back as set and the operation computes the same formula "
     "of the new value. Output i of evaluate_output is the i-th value of evaluate.",
     ["inputs", "configurations", "histories"], "every operation class, input value, parameter value, and sequence of "
     "parameter changes",
     "unit tests evaluate one or two numeric points per operation",
     [L + "core_operations.py", L + "wdf_operations.py", L + "fft_operations.py", L + "special_operations.py",
      L + "operation.py"],
     [("functions", "evaluate of every operation class"), ("parameters", "constructors, setters, param/set_param"),
      ("single outputs", "AbstractOperation.evaluate_output")],
     VN, NOTE + "Oracle: spec/operations.py, the formulas of the class documentation. Arithmetic is exact: rounding "
     "and overflow of finite number types are not modelled; rounding functions in a formula are.")

prop("C04", "Evaluation with a data type gives every value in that data type",
     "When a data type is requested, every output of every operation, also inside nested graphs and of stored delay "
     "values, is the plain value cast to that type with its word lengths, complexness, quantization and overflow "
     "modes. The bit counts of a data type follow from the word lengths it was given, with the input and output "
     "lengths defaulting to the computation length.",
     ["inputs", "configurations"], "every operation class, kind of number (real, complex, fixed and floating point), "
     "data type and nesting",
     "tests use one or two data types on flat graphs",
     [L + "operation.py", L + "core_operations.py", L + "fft_operations.py", L + "wdf_operations.py",
      L + "special_operations.py", L + "sfg.py", L + "simulation.py", L + "data_type.py"],
     [("cast", "AbstractOperation._cast_to_data_type, evaluate of every operation class"),
      ("forwarding", "SFG.evaluate/evaluate_output/_evaluate_source, Simulation.run_until"),
      ("word lengths", "DataType")],
     VN + "; call-site dataflow rule for the forwarding",
     NOTE + "What the cast does to the bits is APyTypes' own contract. Output and Sink are not operations with a value.")

prop("C17", "Quantization and overflow modes mean what their documentation says",
     "For every quantization mode and overflow mode, quantize rounds the value scaled by the fractional bits as "
     "documented and then wraps or saturates it to the integer bits, complex parts separately, and the result has "
     "exactly the requested bits. Every mode converts to the APyTypes mode of the same meaning.",
     ["inputs", "configurations"], "every value, word length, quantization mode and overflow mode",
     "tests quantize a few numbers with some of the modes",
     [L + "quantization.py"], [("modes", "QuantizationMode, OverflowMode, to_apytypes"), ("rounding", "quantize")],
     VN, NOTE + "Rounding error of the floating-point scaling itself is not modelled. Meaning of the modes: tables in "
     "checks/c17.py, from the documentation of the enums.")


prop("C32", "Rewriting and joining operations keeps what the graph computes",
     "Replacing a constant multiplication by its shift or shift-and-add form, rewriting an operation or a graph to "
     "more general operations, and joining an imaginary or negating multiplication into an addition leave the function "
     "between the same ports unchanged for every parameter value. The replacement stands at the same place in the graph "
     "and keeps the timing of the operation it replaces.",
     ["inputs", "configurations"], "every operation class that can be rewritten or joined, every parameter value, every "
     "input value",
     "tests rewrite a few operations with default parameters and compare operation counts, not functions",
     [L + "core_operations.py", L + "operation.py", L + "sfg.py"],
     [("rewriting", "SFG.rewrite, the _to_* and rewrite methods of operations"), ("joining", "SFG.join and the _join methods")],
     VN + "; induction over the fold of the digit loops", NOTE + "Replacements that need a shape the term algebra cannot "
     "express are reported as undecided in the evidence. Arithmetic is exact, not rounded.")


REF = ("comparison of value-numbered method bodies (gated terms, loops as folds) with reference definitions written in the "
       "same algebra, case by case over the feasible conditions; no solver, no execution")
RNOTE = NOTE + ("Oracle: the definitions in spec/ref, from the documentation and the conventions the tests pin. A body whose "
                "normal form cannot be compared is reported as undecided in the evidence, not as a violation. ")

prop("C11", "Changing the time resolution scales every time quantity exactly",
     "Increasing the time resolution by a factor multiplies the schedule time, every start time, and every latency "
     "offset and execution time of every operation by it, once. Decreasing divides them all, and is refused, changing "
     "nothing, unless the factor divides every one of them; the possible decrements offered are exactly such factors. "
     "The schedule time can only be set to one not shorter than the schedule needs.",
     ["inputs", "configurations"], "every schedule, factor and schedule time", "tests scale one small schedule by a "
     "few factors; a time quantity left out of the check only shows when it is the only one not divisible",
     [L + "schedule.py", L + "operation.py"],
     [("scaling", "Schedule.increase_time_resolution, decrease_time_resolution, AbstractOperation._increase_/"
       "_decrease_time_resolution"), ("divisibility", "Schedule._get_all_times, get_possible_time_resolution_decrements"),
      ("schedule time", "Schedule.set_schedule_time")], REF, RNOTE)

prop("C12", "Editing a schedule keeps its precedence: slack bounds every move",
     "A move is accepted only within the backward and forward slack, the minimum slack over all signals of the "
     "operation, and changes the slack of each signal of the operation by exactly the move; rotating a cyclic schedule "
     "keeps the slack of every signal. Delays removed from the graph become laps of the signals they stood on and laps "
     "become that many delays again. A schedule with missing or extra operations, negative or too late times, negative "
     "laps or slack is rejected.",
     ["inputs", "histories", "configurations"], "every schedule, cyclic or not, and every sequence of moves, rotations "
     "and conversions", "tests follow a few hand-made histories; laps only go wrong when an operation crosses the end "
     "of the schedule with certain latency offsets",
     [L + "schedule.py"], [("moves", "Schedule.move_operation, move_operation_alap/asap, slacks"),
                           ("rotation", "Schedule.rotate_forward, rotate_backward"),
                           ("delays", "Schedule.remove_delays, _reintroduce_delays, sfg"),
                           ("validation", "Schedule._validate")], REF, RNOTE)

prop("C14", "Ports and signals always refer to each other",
     "After any connect, disconnect, add, remove or clear, a signal has a port as source or destination exactly when "
     "that port lists the signal, both ends being changed by every such call. An input port has at most one signal; "
     "connecting it again, adding a signal twice, or removing one that is not there is refused.",
     ["histories"], "every sequence of connections and disconnections", "tests look at one end after one or two steps",
     [L + "port.py", L + "signal.py"], [("both ends", "Signal.set_source/set_destination/remove_*, InputPort and "
                                         "OutputPort add_signal/remove_signal/clear/connect")], REF, RNOTE)

prop("C18", "Bounds, conflicts and splits of process collections are exact",
     "The port and processing element bounds of a process collection are the maximum number of simultaneous accesses or "
     "executions, modulo the schedule time. Two processes are in conflict exactly when they execute at the same time or "
     "need more ports than there are; splitting puts every process in exactly one part, with no conflict inside a part, "
     "and the parts keep the schedule time and cyclicity.",
     ["inputs", "configurations"], "every process collection, schedule time, port limit and split strategy",
     "tests split a few fixed collections; wrap-around and port mixes are hit by chance",
     [L + "resources.py"], [("bounds", "ProcessCollection.*_port_accesses, *_bound"),
                            ("conflicts", "exclusion_graph_from_execution_time, exclusion_graph_from_ports, _ports_collide"),
                            ("splits", "split_on_*, split_ports_sequentially, _split_from_graph_coloring, "
                             "_left_edge_assignment")], REF, RNOTE + "Optimality of a split, and the graph colouring and "
     "ILP solver libraries, are not decided.")

prop("C34", "Operators on signals build the operation of their meaning",
     "The operators +, -, *, /, <<, >> and unary + and - on operations and ports, also with a number on either side, give "
     "an operation computing that operator of the operands in their order, for every number. A shift by a negative "
     "number shifts the other way, and a shift amount that is no integer is refused.",
     ["inputs"], "every operand, every number", "tests look at the type of the built operation, not at what it computes",
     [L + "port.py", L + "operation.py"], [("operators", "SignalSourceProvider, AbstractOperation.__ilshift__")], REF, RNOTE)

prop("C35", "Times of processes and operations follow from their offsets",
     "The latency of an operation is the largest output offset minus the smallest input offset; setting latencies or "
     "times by type changes all operations of that type and no others. A process taken from a schedule starts when the "
     "operation starts, or the variable becomes available, and a memory variable lives until each of its reads, laps "
     "included, splitting it keeps every read at its time.",
     ["inputs", "configurations"], "every operation, schedule and process", "tests read a few latencies and life times",
     [L + "process.py", L + "operation.py", L + "schedule.py", L + "sfg.py"],
     [("processes", "Process classes, Schedule.get_operations, get_memory_variables"),
      ("timing", "latency, latency_offsets and setters of AbstractOperation, SFG.set_*_of_type*")], REF, RNOTE)


prop("C33", "Signal generators give the documented value at every time",
     "Every signal generator gives, at every time index, the value its documentation defines from its parameters, and "
     "arithmetic on generators and numbers gives the generator of that arithmetic at every time, operands in order. The "
     "text of a generator is the Python expression that builds the same generator.",
     ["inputs", "configurations"], "every generator, parameter value, time index and nesting of generators",
     "tests look at a handful of times with one parameter set, and print two or three expressions",
     [L + "signal_generator.py"], [("values", "__call__ and constructors of the SignalGenerator classes"),
                                   ("arithmetic", "SignalGenerator operators, _AddGenerator.._DivGenerator"),
                                   ("text", "__repr__, __str__")], REF + "; symbolic rendering of the text, case by case",
     RNOTE + "Random generators are compared up to the calls on numpy's generator.")


prop("C22", "Generated flow graphs have the defined structure and the given options",
     "Every operation a flow graph generator builds gets the properties, latencies and execution time the caller gave for "
     "that kind of operation, and the graph the given name, or the documented one. The index arithmetic, the twiddle "
     "factors and the butterfly and multiply-add structure of generated transforms and matrix products are those of their "
     "definition, for every size.",
     ["inputs", "configurations"], "every size, coefficient list and set of options",
     "tests build a few sizes, and look at the options in one or two structures",
     [L + "sfg_generators/digital_filters.py", L + "sfg_generators/wave_digital_filters.py", L + "sfg_generators/fft.py",
      L + "sfg_generators/matrix_operations.py"],
     [("options", "fir, direct_form_1_iir, direct_form_2_iir, wdf_allpass, lattice_wdf, matrix_multiplication"),
      ("structure", "_construct_dif_fft_stage, _generate_twiddles, _get_bit_reversed_*, matrix_multiplication, fir")],
     REF + "; every operation construction in the value-numbered meaning of a generator", RNOTE +
     "That the transfer function of a generated filter is right is not decided.")


prop("C20", "No path ends in an unset name, a missing attribute or a refused call",
     "Whatever arguments and settings a user gives, no path through the library ends in a name that is not defined or not "
     "yet set, an attribute that no object there can have or that cannot be set, a call with arguments its target does "
     "not accept, or unpacking of the wrong number of values. Error messages show the values they name.",
     ["inputs", "configurations"], "every path of every function, also error, option and backend branches",
     "the branches for rare options, errors, backends and the GUI are not run by any test",
     [L + "sfg.py", L + "schedule.py", L + "architecture.py", L + "resources.py", L + "code_printer",
      L + "scheduler_gui", L + "GUI", L + "sfg_generators"],
     [("library", "all functions of b_asic, the GUIs and the code printers included")],
     "name resolution; class-hierarchy analysis of attributes and calls over inferred types; path-sensitive definite "
     "assignment", "Sound for the constructs decided: a report needs every possible class of the object, or every "
     "candidate target, to refuse. Loops may run zero times unless listed as non-empty by an invariant.")


prop("C24", "Operations keep, report and copy what they were given",
     "Constructing an operation with sources, coefficients, a name, latencies and an execution time connects every source "
     "to its own input port and makes every property report the value given. Setting a property makes it report that "
     "value, and copying an operation or another graph component keeps everything evaluation depends on. No two kinds of "
     "components have type names that give the same graph id.",
     ["inputs", "configurations"], "every operation class and every combination of constructor arguments",
     "tests construct each operation with one or two argument combinations and copy few of them",
     [L + "operation.py", L + "graph_component.py", L + "core_operations.py", L + "special_operations.py",
      L + "wdf_operations.py", L + "fft_operations.py", L + "utility_operations.py"],
     [("construction", "AbstractOperation.__init__ and every operation constructor"),
      ("copy", "AbstractGraphComponent.copy, AbstractOperation.copy"), ("properties", "properties and setters")],
     REF + "; the value-numbered constructor state read back through every property and setter", RNOTE)

na("C40", "Heuristic and ILP schedules are legal and as short as claimed",
   "Every schedule made by the ASAP, ALAP, earliest-deadline, least-slack, max-fan-out and hybrid schedulers satisfies all "
   "precedence and resource constraints, and the ILP methods give the optimum.",
   ["inputs", "configurations"], "every graph, latency, resource limit and scheduler", "tests compare a few pinned schedules",
   [L + "scheduler.py", L + "list_schedulers.py"], [("schedulers", "Scheduler subclasses")],
   "the start times come out of a search loop over run-time priorities; no static invariant in reach bounds them, and "
   "optimality is a statement about the ILP solver")

na("C41", "A saved structure is rebuilt with equal values",
   "Running the script written for a graph, schedule or architecture gives an object that computes the same values at the "
   "same times.", ["inputs", "configurations"], "every graph, schedule and architecture", "tests save a few structures",
   [L + "save_load_structure.py", L + "sfg.py"], [("scripts", "sfg_to_python, schedule_to_python")],
   "the emitted script is code whose text depends on run-time objects; equality of values would need running it")

na("C42", "Generated VHDL computes what the graph computes",
   "Simulating the generated VHDL gives, after its latency, the same values as simulating the graph.",
   ["inputs", "configurations"], "every architecture and input", "tests compare generated text with stored text",
   [L + "code_printer/vhdl", L + "architecture.py"], [("printer", "VhdlPrinter")],
   "needs the semantics of VHDL text composed from run-time schedules; no VHDL front end is installed")

na("C43", "Generated filters have the transfer function of their coefficients",
   "Every filter generator builds a graph with the transfer function of its coefficients, in every structure option.",
   ["inputs"], "every coefficient list", "tests simulate a few filters",
   [L + "sfg_generators/digital_filters.py", L + "sfg_generators/wave_digital_filters.py"], [("filters", "fir, direct_form_*_iir, *wdf*")],
   "an inductive statement about graphs of unbounded size built through mutable lists; the structures within reach are "
   "decided by C22, the transfer function is not")

na("C44", "Simulation gives the outputs of the difference equations",
   "Running a simulation for n steps gives the first n samples of the graph's difference equations, whichever way the "
   "steps are divided and whatever results are saved.", ["inputs", "histories"], "every graph, input and division in steps",
   "tests simulate a few graphs", [L + "simulation.py", L + "sfg.py"], [("simulation", "Simulation.run_until, SFG.evaluate_output")],
   "quantifies over run-time values of a recursive evaluation over an arbitrary cyclic graph; its per-operation parts are "
   "decided by C31 and C04")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as fh:
        for d in sorted([p[0] for p in P] + [p[0] for p in NA], key=lambda d: d["id"]):
            assert len(d["title"]) <= 80, d["title"]
            assert d["statement"].count(". ") <= 2, (d["id"], d["statement"])
            fh.write(json.dumps(d) + "\n")
    man = {"version": 1, "setup_cmd": "python3-vt tools/setup_check.py",
           "checks": [dict(property=d["id"], quick_cmd=f"python3-vt run.py {d['id']} quick",
                           thorough_cmd=f"python3-vt run.py {d['id']} thorough", technique=t,
                           level="other", level_note=n) for d, t, n in sorted(P, key=lambda x: x[0]["id"])],
           "not_applicable": [dict(property=d["id"], reason=r) for d, r in NA],
           "notes": "Static analysis of /repo/lib/b_asic; no code of /repo is executed. See DESIGN.md."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
