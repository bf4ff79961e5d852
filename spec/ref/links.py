"""Reference definitions: the two-sided link of a signal and a port."""

import copy
from typing import Any

from b_asic.operation import Operation
from b_asic.port import InputPort, OutputPort, SignalSourceProvider
from b_asic.signal import Signal
from b_asic.types import Name


def ref(*a: Any, **k: Any) -> Any: ...


@ref("b_asic.signal.Signal.set_source")
def set_source(self: Signal, source: Any) -> None:
    new = source.source if isinstance(source, (Signal, Operation)) else source
    if new is self._source:
        return
    self.remove_source()
    self._source = new
    if self not in new.signals:
        new.add_signal(self)


@ref("b_asic.signal.Signal.set_destination")
def set_destination(self: Signal, destination: Any) -> None:
    new = destination.destination if isinstance(destination, (Signal, Operation)) else destination
    if new is self._destination:
        return
    self.remove_destination()
    self._destination = new
    if self not in new.signals:
        new.add_signal(self)


@ref("b_asic.signal.Signal.remove_source")
def remove_source(self: Signal) -> None:
    port = self._source
    if port is None:
        return
    self._source = None
    if self in port.signals:
        port.remove_signal(self)


@ref("b_asic.signal.Signal.remove_destination")
def remove_destination(self: Signal) -> None:
    port = self._destination
    if port is None:
        return
    self._destination = None
    if self in port.signals:
        port.remove_signal(self)


@ref("b_asic.signal.Signal.dangling")
def dangling(self: Signal) -> bool:
    return self._source is None or self._destination is None


@ref("b_asic.signal.Signal.source_operation")
def source_operation(self: Signal) -> Any:
    return None if self._source is None else self._source.operation


@ref("b_asic.signal.Signal.destination_operation")
def destination_operation(self: Signal) -> Any:
    return None if self._destination is None else self._destination.operation


@ref("b_asic.signal.Signal.neighbors")
def neighbors(self: Signal) -> Any:
    return [p.operation for p in [self._source, self._destination] if p is not None]


@ref("b_asic.signal.Signal.is_constant")
def is_constant(self: Signal) -> Any:
    if self._source is None:
        raise ValueError()
    return self._source.operation.is_constant


@ref("b_asic.port.InputPort.signals")
def in_signals(self: InputPort) -> Any:
    return [] if self._source_signal is None else [self._source_signal]


@ref("b_asic.port.InputPort.signal_count")
def in_signal_count(self: InputPort) -> int:
    return 0 if self._source_signal is None else 1


@ref("b_asic.port.InputPort.connected_source")
def connected_source(self: InputPort) -> Any:
    return None if self._source_signal is None else self._source_signal.source


@ref("b_asic.port.InputPort.add_signal")
def in_add_signal(self: InputPort, signal: Signal) -> None:
    if self._source_signal is not None:
        raise ValueError()
    if signal is self._source_signal:
        raise ValueError()
    self._source_signal = signal
    signal.set_destination(self)


@ref("b_asic.port.InputPort.remove_signal")
def in_remove_signal(self: InputPort, signal: Signal) -> None:
    if signal is not self._source_signal:
        raise ValueError()
    self._source_signal = None
    signal.remove_destination()


@ref("b_asic.port.InputPort.clear")
def in_clear(self: InputPort) -> None:
    if self._source_signal is not None:
        self.remove_signal(self._source_signal)


@ref("b_asic.port.InputPort.connect")
def connect(self: InputPort, src: Any, name: str = "") -> Any:
    if self._source_signal is not None:
        raise ValueError()
    if isinstance(src, Signal):
        src.set_destination(self)
        return src
    return Signal(source=src.source, destination=self, name=Name(name))


@ref("b_asic.port.InputPort.__ilshift__")
def feed(self: InputPort, src: Any) -> Any:
    self.connect(src)
    return self


@ref("b_asic.port.OutputPort.signal_count")
def out_signal_count(self: OutputPort) -> int:
    return len(self._destination_signals)


@ref("b_asic.port.OutputPort.add_signal")
def out_add_signal(self: OutputPort, signal: Signal) -> None:
    if signal in self._destination_signals:
        raise ValueError()
    self._destination_signals.append(signal)
    signal.set_source(self)


@ref("b_asic.port.OutputPort.remove_signal")
def out_remove_signal(self: OutputPort, signal: Signal) -> None:
    if signal not in self._destination_signals:
        raise ValueError()
    self._destination_signals.remove(signal)
    signal.remove_source()


@ref("b_asic.port.OutputPort.clear")
def out_clear(self: OutputPort) -> None:
    for s in copy.copy(self._destination_signals):
        self.remove_signal(s)
