"""Reference definitions: time properties of an operation."""

import itertools as it
from typing import Any

from b_asic.operation import AbstractOperation
from b_asic.sfg import SFG
from b_asic.graph_component import TypeName


def ref(*a: Any, **k: Any) -> Any: ...




@ref("b_asic.operation.AbstractOperation._increase_time_resolution")
def increase_time_resolution(self: AbstractOperation, factor: int) -> None:
    if self._execution_time is not None:
        self._execution_time = self._execution_time * factor
    for p in [*self._input_ports, *self._output_ports]:
        if p.latency_offset is not None:
            p.latency_offset = p.latency_offset * factor


@ref("b_asic.operation.AbstractOperation._decrease_time_resolution")
def decrease_time_resolution(self: AbstractOperation, factor: int) -> None:
    if self._execution_time is not None:
        self._execution_time = self._execution_time // factor
    for p in [*self._input_ports, *self._output_ports]:
        if p.latency_offset is not None:
            p.latency_offset = p.latency_offset // factor


@ref("b_asic.operation.AbstractOperation.latency")
def latency(self: AbstractOperation) -> int:
    if None in [p.latency_offset for p in self._input_ports] or None in [p.latency_offset for p in self._output_ports]:
        raise ValueError()
    return max(o.latency_offset - i.latency_offset for o, i in it.product(self._output_ports, self._input_ports))


@ref("b_asic.operation.AbstractOperation.latency_offsets")
def latency_offsets(self: AbstractOperation) -> Any:
    r = {f"in{n}": p.latency_offset for n, p in enumerate(self._input_ports)}
    r.update({f"out{n}": p.latency_offset for n, p in enumerate(self._output_ports)})
    return r


@ref("b_asic.operation.AbstractOperation.input_latency_offsets")
def input_latency_offsets(self: AbstractOperation) -> Any:
    r = [p.latency_offset for p in self._input_ports]
    if any(x is None for x in r):
        raise ValueError()
    return r


@ref("b_asic.operation.AbstractOperation.output_latency_offsets")
def output_latency_offsets(self: AbstractOperation) -> Any:
    r = [p.latency_offset for p in self._output_ports]
    if any(x is None for x in r):
        raise ValueError()
    return r


@ref("b_asic.operation.AbstractOperation.set_latency")
def set_latency(self: AbstractOperation, latency: int) -> None:
    if latency < 0:
        raise ValueError()
    for p in self._input_ports:
        p.latency_offset = 0
    for p in self._output_ports:
        p.latency_offset = latency


@ref("b_asic.operation.AbstractOperation.set_latency_offsets")
def set_latency_offsets(self: AbstractOperation, latency_offsets: dict[str, int]) -> None:
    for k, t in latency_offsets.items():
        k = k.lower()
        if k.startswith("in"):
            if not k[2:].isdigit():
                raise ValueError()
            self._input_ports[int(k[2:])].latency_offset = t
        elif k.startswith("out"):
            if not k[3:].isdigit():
                raise ValueError()
            self._output_ports[int(k[3:])].latency_offset = t
        else:
            raise ValueError()


@ref("b_asic.operation.AbstractOperation.get_input_coordinates")
def get_input_coordinates(self: AbstractOperation) -> Any:
    n = len(self._input_ports)
    return tuple((self.input_latency_offsets[k], (1 + 2 * k) / (2 * n)) for k in range(n))


@ref("b_asic.operation.AbstractOperation.get_output_coordinates")
def get_output_coordinates(self: AbstractOperation) -> Any:
    n = len(self._output_ports)
    return tuple((self.output_latency_offsets[k], (1 + 2 * k) / (2 * n)) for k in range(n))


@ref("b_asic.operation.AbstractOperation._get_plot_coordinates_for_execution_time")
def execution_time_coordinates(self: AbstractOperation) -> Any:
    t = self._execution_time
    if t is None:
        return ()
    return ((0, 0), (0, 1), (t, 1), (t, 0), (0, 0))


@ref("b_asic.operation.AbstractOperation._get_plot_coordinates_for_latency")
def latency_coordinates(self: AbstractOperation) -> Any:
    a = self.input_latency_offsets
    b = self.output_latency_offsets
    n = len(self._input_ports)
    m = len(self._output_ports)
    points: list[Any] = [(a[0], 0.0)]
    for k in range(1, n):
        points += [(a[k - 1], k / n), (a[k], k / n)]
    points += [(a[n - 1], 1), (b[m - 1], 1)]
    for k in reversed(range(1, m)):
        points += [(b[k], k / m), (b[k - 1], k / m)]
    points += [(b[0], 0.0), (a[0], 0.0)]
    return tuple(points)


@ref("b_asic.operation.AbstractOperation.inputs_required_for_output")
def inputs_required_for_output(self: AbstractOperation, output_index: int) -> Any:
    if not 0 <= output_index < len(self._output_ports):
        raise IndexError()
    return list(range(len(self._input_ports)))


@ref("b_asic.operation.AbstractOperation.preceding_operations")
def preceding_operations(self: AbstractOperation) -> Any:
    return [s.source_operation for s in self.input_signals if s.source]


@ref("b_asic.operation.AbstractOperation.subsequent_operations")
def subsequent_operations(self: AbstractOperation) -> Any:
    return [s.destination.operation for s in self.output_signals if s.destination]


@ref("b_asic.operation.AbstractOperation.input_signals")
def input_signals(self: AbstractOperation) -> Any:
    return [s for p in self._input_ports for s in p.signals]


@ref("b_asic.operation.AbstractOperation.output_signals")
def output_signals(self: AbstractOperation) -> Any:
    return [s for p in self._output_ports for s in p.signals]


@ref("b_asic.operation.AbstractOperation.source")
def source(self: AbstractOperation) -> Any:
    if len(self._output_ports) != 1:
        raise TypeError()
    return self._output_ports[0]


@ref("b_asic.operation.AbstractOperation.destination")
def destination(self: AbstractOperation) -> Any:
    if len(self._input_ports) != 1:
        raise TypeError()
    return self._input_ports[0]


@ref("b_asic.operation.AbstractOperation.neighbors")
def neighbors(self: AbstractOperation) -> Any:
    return list(self.input_signals) + list(self.output_signals)


@ref("b_asic.operation.AbstractOperation.is_constant")
def is_constant(self: AbstractOperation) -> Any:
    return all(p.connected_source.operation.is_constant for p in self._input_ports)


@ref("b_asic.operation.AbstractOperation.quantize_input")
def quantize_input(self: AbstractOperation, index: int, value: Any, bits: int) -> Any:
    if not isinstance(value, (float, int)):
        raise TypeError()
    return round((value + 1) * 2**bits % (2 * 2**bits) - 2**bits) / 2**bits


@ref("b_asic.sfg.SFG.set_latency_of_type_name")
def set_latency_of_type_name(self: SFG, type_name: TypeName, latency: int) -> None:
    for op in self.find_by_type_name(type_name):
        op.set_latency(latency)


@ref("b_asic.sfg.SFG.set_latency_of_type")
def set_latency_of_type(self: SFG, operation_type: Any, latency: int) -> None:
    for op in self.find_by_type(operation_type):
        op.set_latency(latency)


@ref("b_asic.sfg.SFG.set_execution_time_of_type_name")
def set_execution_time_of_type_name(self: SFG, type_name: TypeName, execution_time: int) -> None:
    for op in self.find_by_type_name(type_name):
        op.execution_time = execution_time


@ref("b_asic.sfg.SFG.set_execution_time_of_type")
def set_execution_time_of_type(self: SFG, operation_type: Any, execution_time: int) -> None:
    for op in self.find_by_type(operation_type):
        op.execution_time = execution_time


@ref("b_asic.sfg.SFG.set_latency_offsets_of_type_name")
def set_latency_offsets_of_type_name(self: SFG, type_name: TypeName, latency_offsets: dict[str, int]) -> None:
    for op in self.find_by_type_name(type_name):
        op.set_latency_offsets(latency_offsets)


@ref("b_asic.sfg.SFG.set_latency_offsets_of_type")
def set_latency_offsets_of_type(self: SFG, operation_type: Any, latency_offsets: dict[str, int]) -> None:
    for op in self.find_by_type(operation_type):
        op.set_latency_offsets(latency_offsets)
