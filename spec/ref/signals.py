"""Reference definitions: signal generators (values of the generated signals)."""

import math
from numbers import Number
from typing import Any

import numpy as np

from b_asic.signal_generator import (
    Constant,
    Delay,
    Downsample,
    FromFile,
    Gaussian,
    Impulse,
    SignalGenerator,
    Sinusoid,
    Step,
    Uniform,
    Upsample,
    ZeroPad,
    _AddGenerator,
    _DivGenerator,
    _MulGenerator,
    _SubGenerator,
)


def ref(*a: Any, **k: Any) -> Any: ...


# ------------------------------------------------------------ values
@ref("b_asic.signal_generator.Impulse.__call__")
def impulse(self: Impulse, time: int) -> Any:
    return 1 if time == self._delay else 0


@ref("b_asic.signal_generator.Step.__call__")
def step(self: Step, time: int) -> Any:
    return 1 if time >= self._delay else 0


@ref("b_asic.signal_generator.Constant.__call__")
def constant(self: Constant, time: int) -> Any:
    return self._constant


@ref("b_asic.signal_generator.ZeroPad.__call__")
def zero_pad(self: ZeroPad, time: int) -> Any:
    if 0 <= time and time < self._len:
        return self._data[time]
    return 0.0


@ref("b_asic.signal_generator.FromFile.__call__")
def from_file(self: FromFile, time: int) -> Any:
    if 0 <= time and time < self._len:
        return self._data[time]
    return 0.0


@ref("b_asic.signal_generator.Sinusoid.__call__")
def sinusoid(self: Sinusoid, time: int) -> Any:
    return math.sin(math.pi * (self._frequency * time + self._phase))


@ref("b_asic.signal_generator.Gaussian.__call__")
def gaussian(self: Gaussian, time: int) -> Any:
    return self._rng.normal(self._loc, self._scale)


@ref("b_asic.signal_generator.Uniform.__call__")
def uniform(self: Uniform, time: int) -> Any:
    return self._rng.uniform(self._low, self._high)


@ref("b_asic.signal_generator.Delay.__call__")
def delay(self: Delay, time: int) -> Any:
    return self._generator(time - self._delay)


@ref("b_asic.signal_generator.Upsample.__call__")
def upsample(self: Upsample, time: int) -> Any:
    index = (time - self._phase) / self._factor
    return self._generator(int(index)) if int(index) == index else 0.0


@ref("b_asic.signal_generator.Downsample.__call__")
def downsample(self: Downsample, time: int) -> Any:
    return self._generator(self._factor * time + self._phase)


@ref("b_asic.signal_generator._AddGenerator.__call__")
def added(self: _AddGenerator, time: int) -> Any:
    return self._a(time) + self._b(time)


@ref("b_asic.signal_generator._SubGenerator.__call__")
def subtracted(self: _SubGenerator, time: int) -> Any:
    return self._a(time) - self._b(time)


@ref("b_asic.signal_generator._MulGenerator.__call__")
def multiplied(self: _MulGenerator, time: int) -> Any:
    return self._a(time) * self._b(time)


@ref("b_asic.signal_generator._DivGenerator.__call__")
def divided(self: _DivGenerator, time: int) -> Any:
    return self._a(time) / self._b(time)


# ------------------------------------------------------------ parameters
@ref("b_asic.signal_generator.Impulse.__init__")
def impulse_init(self: Impulse, delay: int = 0) -> None:
    self._delay = delay


@ref("b_asic.signal_generator.Step.__init__")
def step_init(self: Step, delay: int = 0) -> None:
    self._delay = delay


@ref("b_asic.signal_generator.Constant.__init__")
def constant_init(self: Constant, constant: complex = 1.0) -> None:
    self._constant = constant


@ref("b_asic.signal_generator.ZeroPad.__init__")
def zero_pad_init(self: ZeroPad, data: Any) -> None:
    self._data = data
    self._len = len(data)


@ref("b_asic.signal_generator.FromFile.__init__")
def from_file_init(self: FromFile, path: str) -> None:
    self._path = path
    self._data = np.loadtxt(path, dtype=complex).tolist()
    self._len = len(self._data)


@ref("b_asic.signal_generator.Sinusoid.__init__")
def sinusoid_init(self: Sinusoid, frequency: float, phase: float = 0.0) -> None:
    self._frequency = frequency
    self._phase = phase


@ref("b_asic.signal_generator.Gaussian.__init__")
def gaussian_init(self: Gaussian, seed: Any = None, loc: float = 0.0, scale: float = 1.0) -> None:
    self._rng = np.random.default_rng(seed)
    self._seed = seed
    self._loc = loc
    self._scale = scale


@ref("b_asic.signal_generator.Uniform.__init__")
def uniform_init(self: Uniform, seed: Any = None, low: float = -1.0, high: float = 1.0) -> None:
    self._rng = np.random.default_rng(seed)
    self._seed = seed
    self._low = low
    self._high = high


@ref("b_asic.signal_generator.Delay.__init__")
def delay_init(self: Delay, generator: SignalGenerator, delay: int = 1) -> None:
    self._generator = generator
    self._delay = delay


@ref("b_asic.signal_generator.Upsample.__init__")
def upsample_init(self: Upsample, data: Any, factor: int, phase: int = 0) -> None:
    self._generator = data if isinstance(data, SignalGenerator) else ZeroPad(data)
    self._factor = factor
    self._phase = phase


@ref("b_asic.signal_generator.Downsample.__init__")
def downsample_init(self: Downsample, data: Any, factor: int, phase: int = 0) -> None:
    self._generator = data if isinstance(data, SignalGenerator) else ZeroPad(data)
    self._factor = factor
    self._phase = phase


# ------------------------------------------------------------ arithmetic
@ref("b_asic.signal_generator.SignalGenerator.__add__")
def add(self: SignalGenerator, other: Any) -> Any:
    if isinstance(other, Number):
        return _AddGenerator(self, Constant(other))
    if isinstance(other, SignalGenerator):
        return _AddGenerator(self, other)
    raise TypeError()


@ref("b_asic.signal_generator.SignalGenerator.__radd__")
def radd(self: SignalGenerator, other: Any) -> Any:
    if isinstance(other, Number):
        return _AddGenerator(Constant(other), self)
    raise TypeError()


@ref("b_asic.signal_generator.SignalGenerator.__sub__")
def sub(self: SignalGenerator, other: Any) -> Any:
    if isinstance(other, Number):
        return _SubGenerator(self, Constant(other))
    if isinstance(other, SignalGenerator):
        return _SubGenerator(self, other)
    raise TypeError()


@ref("b_asic.signal_generator.SignalGenerator.__rsub__")
def rsub(self: SignalGenerator, other: Any) -> Any:
    if isinstance(other, Number):
        return _SubGenerator(Constant(other), self)
    raise TypeError()


@ref("b_asic.signal_generator.SignalGenerator.__mul__")
def mul(self: SignalGenerator, other: Any) -> Any:
    if isinstance(other, Number):
        return _MulGenerator(self, Constant(other))
    if isinstance(other, SignalGenerator):
        return _MulGenerator(self, other)
    raise TypeError()


@ref("b_asic.signal_generator.SignalGenerator.__rmul__")
def rmul(self: SignalGenerator, other: Any) -> Any:
    if isinstance(other, Number):
        return _MulGenerator(Constant(other), self)
    raise TypeError()


@ref("b_asic.signal_generator.SignalGenerator.__truediv__")
def div(self: SignalGenerator, other: Any) -> Any:
    if isinstance(other, Number):
        return _DivGenerator(self, Constant(other))
    if isinstance(other, SignalGenerator):
        return _DivGenerator(self, other)
    raise TypeError()


@ref("b_asic.signal_generator.SignalGenerator.__rtruediv__")
def rdiv(self: SignalGenerator, other: Any) -> Any:
    if isinstance(other, Number):
        return _DivGenerator(Constant(other), self)
    raise TypeError()
