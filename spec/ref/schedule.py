"""Reference definitions: slack, moves and time of a schedule.

Not a test and never run: every function is the definition of the function named in @ref,
written from its documentation, and compared with it by sa/refcmp.py.
"""

import sys
from collections import defaultdict
from typing import Any

from b_asic.core_operations import Constant
from b_asic.graph_component import GraphID
from b_asic.operation import Operation
from b_asic.port import InputPort, OutputPort
from b_asic.process import MemoryVariable, OperatorProcess
from b_asic.resources import ProcessCollection
from b_asic.schedule import Schedule
from b_asic.signal import Signal
from b_asic.special_operations import Delay, Input, Output
from b_asic.utility_operations import DontCare, Sink


def ref(*a: Any, **k: Any) -> Any: ...


def _produced(self: Schedule, start: int, port: OutputPort) -> int:
    """Time a value is available, within the period it is produced for."""
    t = start + port.latency_offset
    return t - self._schedule_time if t > self._schedule_time else t


def _known(self: Schedule, graph_id: GraphID) -> None:
    if graph_id not in self._start_times:
        raise ValueError()


def _forward(self: Schedule, graph_id: GraphID) -> int:
    op = self._sfg.find_by_id(graph_id)
    return min(
        [sys.maxsize]
        + [
            s.destination.latency_offset
            + self._start_times[s.destination.operation.graph_id]
            + self._schedule_time * self._laps[s.graph_id]
            - _produced(self, self._start_times[graph_id], out)
            for out in op.outputs
            for s in out.signals
        ]
    )


@ref("b_asic.schedule.Schedule.forward_slack")
def forward_slack(self: Schedule, graph_id: GraphID) -> int:
    _known(self, graph_id)
    return _forward(self, graph_id)


@ref("b_asic.schedule.Schedule.slacks")
def slacks(self: Schedule, graph_id: GraphID) -> tuple[int, int]:
    _known(self, graph_id)
    return self.backward_slack(graph_id), self.forward_slack(graph_id)


@ref("b_asic.schedule.Schedule.start_time_of_operation")
def start_time_of_operation(self: Schedule, graph_id: GraphID) -> int:
    _known(self, graph_id)
    return self._start_times[graph_id]


@ref("b_asic.schedule.Schedule.get_max_end_time")
def get_max_end_time(self: Schedule) -> int:
    end = [0]
    for g in self._start_times:
        op = self._sfg.find_by_id(g)
        if isinstance(op, (Output, Sink)):
            end.append(self._start_times[g])
        else:
            end.extend(self._start_times[g] + out.latency_offset for out in op.outputs)
    return max(end)


@ref("b_asic.schedule.Schedule.get_max_non_io_end_time")
def get_max_non_io_end_time(self: Schedule) -> int:
    return max(
        [0]
        + [
            t + out.latency_offset
            for g, t in self._start_times.items()
            if not isinstance(self._sfg.find_by_id(g), Output)
            for out in self._sfg.find_by_id(g).outputs
        ]
    )


@ref("b_asic.schedule.Schedule.move_operation_alap")
def move_operation_alap(self: Schedule, graph_id: GraphID) -> Schedule:
    s = self.forward_slack(graph_id)
    d = self._schedule_time - self._start_times[graph_id] if s == sys.maxsize else s
    self.move_operation(graph_id, d)
    return self


@ref("b_asic.schedule.Schedule.move_operation_asap")
def move_operation_asap(self: Schedule, graph_id: GraphID) -> Schedule:
    s = self.backward_slack(graph_id)
    d = self._start_times[graph_id] if s == sys.maxsize else s
    self.move_operation(graph_id, -d)
    return self


def _consumed(self: Schedule, graph_id: GraphID, port: InputPort, s: Any) -> int:
    """How long a value has been available when an input port uses it."""
    use = self._start_times[graph_id] + port.latency_offset
    src = s.source
    if isinstance(src.operation, (DontCare, Delay)):
        return use
    t = self._start_times[src.operation.graph_id] + src.latency_offset
    if self._schedule_time is None:
        return use - t
    if t > self._schedule_time:
        t = t - self._schedule_time
    return use - t + self._schedule_time * self._laps[s.graph_id]


@ref("b_asic.schedule.Schedule.backward_slack")
def backward_slack(self: Schedule, graph_id: GraphID) -> int:
    _known(self, graph_id)
    op = self._sfg.find_by_id(graph_id)
    return min([sys.maxsize] + [_consumed(self, graph_id, p, s) for p in op.inputs for s in p.signals])


@ref("b_asic.schedule.Schedule.increase_time_resolution")
def increase_time_resolution(self: Schedule, factor: int) -> Schedule:
    for g in self._start_times:
        op = self._sfg.find_by_id(g)
        if not isinstance(op, (Input, Output, Constant, Sink, DontCare)):
            op._increase_time_resolution(factor)
    self._start_times = {g: t * factor for g, t in self._start_times.items()}
    self._schedule_time = self._schedule_time * factor
    return self


@ref("b_asic.schedule.Schedule._get_all_times")
def _get_all_times(self: Schedule) -> list[int]:
    times = [self._schedule_time]
    times += list(self._start_times.values())
    for g in self._start_times:
        op = self._sfg.find_by_id(g)
        if not isinstance(op, (Input, Output, Constant, Sink, DontCare)):
            times += [op.execution_time]
            times += list(op.latency_offsets.values())
    return [t for t in times if t is not None]


@ref("b_asic.schedule.Schedule.decrease_time_resolution")
def decrease_time_resolution(self: Schedule, factor: int) -> Schedule:
    if factor not in self.get_possible_time_resolution_decrements():
        raise ValueError()
    for g in self._start_times:
        op = self._sfg.find_by_id(g)
        if not isinstance(op, (Input, Output, Constant, Sink, DontCare)):
            op._decrease_time_resolution(factor)
    self._start_times = {g: t // factor for g, t in self._start_times.items()}
    self._schedule_time = self._schedule_time // factor
    return self


@ref("b_asic.schedule.Schedule.get_possible_time_resolution_decrements")
def get_possible_time_resolution_decrements(self: Schedule) -> list[int]:
    times = _get_all_times(self)
    lim = min([t for t in times if t])
    if lim < 2:
        return [1]
    return [1] + [k for k in range(2, lim + 1) if all(t % k == 0 for t in times)]


@ref("b_asic.schedule.Schedule.get_operations")
def get_operations(self: Schedule) -> ProcessCollection:
    found = set()
    for g in self._start_times:
        op = self._sfg.find_by_id(g)
        if isinstance(op, (DontCare, Sink)):
            continue
        found.add(OperatorProcess(self._start_times[g], op))
    return ProcessCollection(found, self._schedule_time, self._cyclic)


@ref("b_asic.schedule.Schedule.get_memory_variables")
def get_memory_variables(self: Schedule) -> ProcessCollection:
    found = []
    for g in self._start_times:
        for out in self._sfg.find_by_id(g).outputs:
            t = self._start_times[g] + out.latency_offset
            reads = {
                s.destination: s.destination.latency_offset
                + self._start_times[s.destination.operation.graph_id]
                + self._schedule_time * self._laps[s.graph_id]
                - _produced(self, self._start_times[g], out)
                for s in out.signals
            }
            if not reads:
                continue
            found.append(MemoryVariable(t % self._schedule_time, out, reads, out.name))
    return ProcessCollection(set(found), self._schedule_time, self._cyclic)


@ref("b_asic.schedule.Schedule.set_schedule_time")
def set_schedule_time(self: Schedule, time: int) -> Schedule:
    if time < self.get_max_end_time():
        raise ValueError()
    if self._schedule_time is not None:
        for sid in self._laps:
            src = self._sfg.find_by_id(sid).destination.signals[0].source
            end = self._start_times[src.operation.graph_id] + src.operation.latency_offsets[f"out{src.index}"]
            if self._schedule_time < end <= time:
                self._laps[sid] += 1
    self._schedule_time = time
    return self


def _slack(self: Schedule, s: Any) -> int:
    """Time from a value is available until it is used."""
    src = s.source
    return (
        s.destination.latency_offset
        + self._start_times[s.destination.operation.graph_id]
        + self._schedule_time * self._laps[s.graph_id]
        - _produced(self, self._start_times[src.operation.graph_id], src)
    )


@ref("b_asic.schedule.Schedule._signal_slack")
def signal_slack(self: Schedule, signal: Signal) -> int:
    return self._output_slacks(signal.source)[signal]


@ref("b_asic.schedule.Schedule.move_operation", opaque=("b_asic.schedule.Schedule._signal_slack",
                                                        "b_asic.schedule.Schedule._update_laps"))
def move_operation(self: Schedule, graph_id: GraphID, time: int) -> Schedule:
    _known(self, graph_id)
    if time == 0:
        return self
    back, forth = self.slacks(graph_id)
    if time < -back or time > forth:
        raise ValueError()
    op = self._sfg.find_by_id(graph_id)
    after = {s: self._signal_slack(s) + time for s in op.input_signals}
    for s in op.output_signals:
        after[s] = after.get(s, self._signal_slack(s)) - time
    self._start_times[graph_id] = (self._start_times[graph_id] + time) % self._schedule_time
    self._update_laps(after)
    if isinstance(op, Output) and self._start_times[graph_id] == 0:
        g = op.input(0).signals[0].graph_id
        if self._laps[g] != 0:
            self._start_times[graph_id] = self._schedule_time
            self._laps[g] -= 1
    return self


@ref("b_asic.schedule.Schedule._update_laps", opaque=("b_asic.schedule.Schedule._signal_slack",
                                                      "b_asic.schedule.Schedule._update_laps"))
def update_laps(self: Schedule, slacks: dict[Signal, int]) -> None:
    for s, wanted in slacks.items():
        self._laps[s.graph_id] += (wanted - self._signal_slack(s)) // self._schedule_time
        if isinstance(s.source_operation, DontCare) and self._laps[s.graph_id] < 0:
            self._laps[s.graph_id] = 0
    for s in slacks:
        op = s.source_operation
        if self._laps[s.graph_id] < 0 and self._start_times[op.graph_id] == 0:
            kept = {x: self._signal_slack(x) for x in [*op.input_signals, *op.output_signals]}
            self._start_times[op.graph_id] = self._schedule_time
            self._update_laps(kept)


def _turn(self: Schedule, time: int) -> Schedule:
    if not self._cyclic:
        raise ValueError()
    kept = {}
    for g in self._start_times:
        for s in self._sfg.find_by_id(g).output_signals:
            kept[s] = self._signal_slack(s)
    for g, t in self._start_times.items():
        new = (t + time) % self._schedule_time
        if new == 0 and isinstance(self._sfg.find_by_id(g), (Output, Sink)):
            new = self._schedule_time
        self._start_times[g] = new
    self._update_laps(kept)
    return self


@ref("b_asic.schedule.Schedule.rotate_forward", opaque=("b_asic.schedule.Schedule._signal_slack",
                                                        "b_asic.schedule.Schedule._update_laps"))
def rotate_forward(self: Schedule) -> Schedule:
    return _turn(self, 1)


@ref("b_asic.schedule.Schedule.rotate_backward", opaque=("b_asic.schedule.Schedule._signal_slack",
                                                         "b_asic.schedule.Schedule._update_laps"))
def rotate_backward(self: Schedule) -> Schedule:
    return _turn(self, -1)


@ref("b_asic.schedule.Schedule._validate")
def validate(self: Schedule) -> None:
    if self._schedule_time is None:
        raise ValueError()
    if not isinstance(self._schedule_time, int):
        raise ValueError()
    ops = {op.graph_id for op in self._sfg.operations}
    if ops - set(self._start_times):
        raise ValueError()
    if set(self._start_times) - ops:
        raise ValueError()
    for g, t in self._start_times.items():
        if t < 0:
            raise ValueError()
        if t > self._schedule_time and not isinstance(self._sfg.find_by_id(g), DontCare):
            raise ValueError()
    for n in self._laps.values():
        if n < 0:
            raise ValueError()
    for g in self._start_times:
        if self.forward_slack(g) < 0:
            raise ValueError()
        if self.backward_slack(g) < 0:
            raise ValueError()


@ref("b_asic.schedule.Schedule._place_operation")
def place_operation(self: Schedule, op: Operation, time: int, op_laps: Any) -> None:
    period = self._schedule_time
    start = time % period if period else time
    self._start_times[op.graph_id] = start
    if not period:
        return
    for port in op.inputs:
        laps = 0
        src = port.signals[0].source
        if not isinstance(src.operation, (Delay, DontCare)):
            if op_laps[src.operation.graph_id] < time // period:
                laps += time // period - op_laps[src.operation.graph_id]
            if self._start_times[src.operation.graph_id] + src.operation.latency_offsets[f"out{src.index}"] > period:
                laps -= 1
        self._laps[port.signals[0].graph_id] = laps
    if start == 0 and isinstance(op, Output) and self._laps[op.input(0).signals[0].graph_id] != 0:
        start = period
        self._laps[op.input(0).signals[0].graph_id] -= 1
    if start == 0 and isinstance(op, DontCare) and self._laps[op.output(0).signals[0].graph_id] == 0:
        start = period
    if time > period and isinstance(op, DontCare) and self._laps[op.output(0).signals[0].graph_id] == 0:
        start = time % period
    self._start_times[op.graph_id] = start


@ref("b_asic.schedule.Schedule.remove_delays")
def remove_delays(self: Schedule) -> None:
    delays = self._sfg.find_by_type(Delay)
    while delays:
        d = delays[0]
        before = d.input(0).signals[0].graph_id
        after = [s.graph_id for s in d.output(0).signals]
        self._sfg = self._sfg.remove_operation(d.graph_id)
        for g in after:
            self._laps[g] += 1 + self._laps[before]
        del self._laps[before]
        delays = self._sfg.find_by_type(Delay)


@ref("b_asic.schedule.Schedule._reintroduce_delays")
def reintroduce_delays(self: Schedule) -> Any:
    graph = self._sfg()
    wanted = []
    for g, n in self._laps.items():
        port = graph.find_by_id(g).destination
        src = port.signals[0].source
        if self._start_times[src.operation.graph_id] + src.operation.latency_offsets[f"out{src.index}"] \
                > self._schedule_time:
            n += 1
        wanted.append((port.operation.graph_id, port.index, n))
    for op, index, n in wanted:
        for _ in range(n):
            graph = graph.insert_operation_before(op, Delay(), index)
    return graph()


@ref("b_asic.schedule.Schedule.sfg")
def sfg(self: Schedule) -> Any:
    return self._reintroduce_delays().simplify_delay_element_placement()


@ref("b_asic.schedule.Schedule.swap_io_of_operation")
def swap_io_of_operation(self: Schedule, operation_id: GraphID) -> None:
    self._sfg.swap_io_of_operation(operation_id)


@ref("b_asic.schedule.Schedule._execution_times_in_time")
def execution_times_in_time(self: Schedule, op_type: Any, time: int) -> int:
    n = 0
    for g, t in self._start_times.items():
        if self._schedule_time is not None:
            t = t % self._schedule_time
        op = self._sfg.find_by_id(g)
        if t <= time < t + op.execution_time and isinstance(op, op_type):
            n += 1
    return n


@ref("b_asic.schedule.Schedule.move_y_location")
def move_y_location(self: Schedule, graph_id: GraphID, new_y: int, insert: bool = False) -> None:
    if insert:
        for g in self._y_locations:
            if self.get_y_location(g) >= new_y:
                self.set_y_location(g, self.get_y_location(g) + 1)
    self.set_y_location(graph_id, new_y)
    used = {*self._y_locations.values()}
    rows = set(range(round(max(used)) + 1))
    if not rows - used:
        return
    to = {}
    empty = 0
    for y in rows:
        if y in used:
            to[y] = y - empty
        else:
            empty += 1
    for g in self._y_locations:
        self._y_locations[g] = to[self._y_locations[g]]
