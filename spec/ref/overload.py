"""Reference definitions: arithmetic on graph elements, and ports."""

from numbers import Number
from typing import Any

from b_asic.core_operations import (
    Addition,
    Constant,
    ConstantMultiplication,
    Division,
    ImaginaryMultiplication,
    LeftShift,
    Multiplication,
    Negation,
    Reciprocal,
    RightShift,
    Shift,
    Subtraction,
)
from b_asic.operation import AbstractOperation
from b_asic.port import InputPort, OutputPort, SignalSourceProvider
from b_asic.signal import Signal


def ref(*a: Any, **k: Any) -> Any: ...


@ref("b_asic.port.SignalSourceProvider.__pos__")
def pos(self: SignalSourceProvider) -> Any:
    return self


@ref("b_asic.port.SignalSourceProvider.__neg__")
def minus(self: SignalSourceProvider) -> Any:
    return Negation(self)


@ref("b_asic.port.SignalSourceProvider.__add__")
def add(self: SignalSourceProvider, src: Any) -> Any:
    return Addition(self, Constant(src)) if isinstance(src, Number) else Addition(self, src)


@ref("b_asic.port.SignalSourceProvider.__radd__")
def radd(self: SignalSourceProvider, src: Any) -> Any:
    return Addition(Constant(src), self) if isinstance(src, Number) else Addition(src, self)


@ref("b_asic.port.SignalSourceProvider.__sub__")
def sub(self: SignalSourceProvider, src: Any) -> Any:
    return Subtraction(self, Constant(src)) if isinstance(src, Number) else Subtraction(self, src)


@ref("b_asic.port.SignalSourceProvider.__rsub__")
def rsub(self: SignalSourceProvider, src: Any) -> Any:
    return Subtraction(Constant(src), self) if isinstance(src, Number) else Subtraction(src, self)


@ref("b_asic.port.SignalSourceProvider.__mul__")
def mul(self: SignalSourceProvider, src: Any) -> Any:
    if not isinstance(src, Number):
        return Multiplication(self, src)
    return ImaginaryMultiplication(self) if src == 1j else ConstantMultiplication(src, self)


@ref("b_asic.port.SignalSourceProvider.__rmul__")
def rmul(self: SignalSourceProvider, src: Any) -> Any:
    if not isinstance(src, Number):
        return Multiplication(src, self)
    return ImaginaryMultiplication(self) if src == 1j else ConstantMultiplication(src, self)


@ref("b_asic.port.SignalSourceProvider.__truediv__")
def div(self: SignalSourceProvider, src: Any) -> Any:
    return Division(self, Constant(src)) if isinstance(src, Number) else Division(self, src)


@ref("b_asic.port.SignalSourceProvider.__rtruediv__")
def rdiv(self: SignalSourceProvider, src: Any) -> Any:
    if not isinstance(src, Number):
        return Division(src, self)
    return Reciprocal(self) if src == 1 else Division(Constant(src), self)


@ref("b_asic.port.SignalSourceProvider.__lshift__")
def lshift(self: SignalSourceProvider, src: int) -> Any:
    if not isinstance(src, int):
        raise TypeError()
    if src >= 0:
        return LeftShift(src, self)
    return Shift(-src, self)           # a Shift of a positive value is to the right


@ref("b_asic.port.SignalSourceProvider.__rshift__")
def rshift(self: SignalSourceProvider, src: int) -> Any:
    if not isinstance(src, int):
        raise TypeError()
    if src >= 0:
        return RightShift(src, self)
    return Shift(src, self)


@ref("b_asic.operation.AbstractOperation.__ilshift__")
def feed(self: AbstractOperation, src: Any) -> Any:
    if len(self._input_ports) != 1:
        raise TypeError()
    self._input_ports[0].connect(src)
    return self
