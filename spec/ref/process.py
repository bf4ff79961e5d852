"""Reference definitions: processes and memory variables. Never run; see sa/refcmp.py."""

from typing import Any

from b_asic.operation import Operation
from b_asic.process import (
    MemoryInputPort,
    MemoryOutputPort,
    MemoryProcess,
    MemoryVariable,
    OperatorProcess,
    PlainMemoryVariable,
    Process,
)


def ref(*a: Any, **k: Any) -> Any: ...


@ref("b_asic.process.Process.__init__")
def process(self: Process, start_time: int, execution_time: int, name: str = "") -> None:
    self._start_time = start_time
    self._execution_time = execution_time
    self._name = name


@ref("b_asic.process.Process.__lt__")
def before(self: Process, other: Any) -> bool:
    if self._start_time != other.start_time:
        return self._start_time < other.start_time
    if self._execution_time != other.execution_time:
        return self._execution_time > other.execution_time
    return self._name < other.name


@ref("b_asic.process.Process.read_times", cls="b_asic.process.Process")
def read_times(self: Process) -> Any:
    return (self._start_time + self._execution_time,)


@ref("b_asic.process.OperatorProcess.__init__")
def operator_process(self: OperatorProcess, start_time: int, operation: Operation, name: Any = None) -> None:
    if operation.execution_time is None:
        raise ValueError()
    self._start_time = start_time
    self._execution_time = operation.execution_time
    self._name = name or operation.name or operation.graph_id
    self._operation = operation


@ref("b_asic.process.OperatorProcess.type_name")
def type_name(self: OperatorProcess) -> Any:
    return self._operation.type_name()


@ref("b_asic.process.MemoryProcess.__init__")
def memory_process(self: MemoryProcess, write_time: int, life_times: list[int], name: str = "") -> None:
    self._start_time = write_time
    self._life_times = list(life_times)
    self._execution_time = max(life_times)
    self._name = name


@ref("b_asic.process.MemoryProcess.read_times")
def memory_read_times(self: MemoryProcess) -> Any:
    return tuple({self._start_time + t for t in self._life_times})


@ref("b_asic.process.MemoryVariable.__init__")
def memory_variable(self: MemoryVariable, write_time: int, write_port: Any, reads: Any, name: Any = None) -> None:
    self._start_time = write_time
    self._life_times = list(reads.values())
    self._execution_time = max(reads.values())
    self._name = name or write_port.name
    self._reads = dict(reads)
    self._read_ports = list(reads)
    self._write_port = write_port


@ref("b_asic.process.PlainMemoryVariable.__init__", ignore=("_name", "_name_cnt"))
def plain_memory_variable(self: PlainMemoryVariable, write_time: int, write_port: int, reads: Any,
                          name: Any = None) -> None:
    self._start_time = write_time
    self._life_times = list(reads.values())
    self._execution_time = max(reads.values())
    self._reads = dict(reads)
    self._read_ports = list(reads)
    self._write_port = write_port


@ref("b_asic.process.MemoryProcess.split_on_length")
def split_on_length(self: MemoryProcess, length: int = 0) -> Any:
    low = {p: t for p, t in self.reads.items() if t <= length}
    high = {p: t for p, t in self.reads.items() if t > length}
    return (
        type(self)(self._start_time, self.write_port, low, self._name) if low else None,
        type(self)(self._start_time, self.write_port, high, self._name) if high else None,
    )


@ref("b_asic.process.MemoryVariable.split_on_length")
def split_variable(self: MemoryVariable, length: int = 0) -> Any:
    low = {p: t for p, t in self._reads.items() if t <= length}
    high = {p: t for p, t in self._reads.items() if t > length}
    return (
        type(self)(self._start_time, self._write_port, low, self._name) if low else None,
        type(self)(self._start_time, self._write_port, high, self._name) if high else None,
    )


@ref("b_asic.process.PlainMemoryVariable.split_on_length")
def split_plain(self: PlainMemoryVariable, length: int = 0) -> Any:
    low = {p: t for p, t in self._reads.items() if t <= length}
    high = {p: t for p, t in self._reads.items() if t > length}
    return (
        type(self)(self._start_time, self._write_port, low, self._name) if low else None,
        type(self)(self._start_time, self._write_port, high, self._name) if high else None,
    )


@ref("b_asic.process.MemoryProcess._add_life_time")
def add_life_time(self: MemoryProcess, life_time: int) -> None:
    if life_time not in self._life_times:
        self._life_times = [*self._life_times, life_time]
        self._execution_time = max(self._life_times)


@ref("b_asic.process.MemoryOutputPort.name")
def out_name(self: MemoryOutputPort) -> str:
    return "mem_out." + self.source_variable.name


@ref("b_asic.process.MemoryInputPort.name")
def in_name(self: MemoryInputPort) -> str:
    return "mem_in." + self.destination_variable.name
