"""Reference definitions: what the constructors of operations set up.

Every operation has the ports of its definition, its sources connected in order, the timing options
given, and each parameter under its own name."""

import collections
import copy
from numbers import Number
from typing import Any, cast

from apytypes import APyCFixed, APyCFloat, APyFixed, APyFloat

from b_asic.core_operations import (Negation, Addition, Subtraction, AddSub, Multiplication, Division, Min, Max, SquareRoot, ComplexConjugate, Absolute, ImaginaryMultiplication, ConstantMultiplication, MAD, MADS, Reciprocal, RightShift, LeftShift, Shift)
from b_asic.wdf_operations import (SymmetricTwoportAdaptor, SeriesTwoportAdaptor, ParallelTwoportAdaptor, ReflectionFreeSeriesThreeportAdaptor)
from b_asic.fft_operations import (R2Butterfly, R2DIFButterfly, R2DITButterfly, R2TFButterfly, R4Butterfly, R3Winograd, R5Winograd, R7Winograd)
from b_asic.core_operations import (Constant, ReciprocalSquareRoot, ShiftAddSub)
from b_asic.graph_component import AbstractGraphComponent, Name
from b_asic.port import InputPort, OutputPort
from b_asic.signal import Signal
from b_asic.types import GraphID
from b_asic.operation import AbstractOperation, Operation, ResultKey
from b_asic.special_operations import Delay, Input, Output
from b_asic.utility_operations import DontCare, Sink
from b_asic.wdf_operations import SeriesThreeportAdaptor


def ref(*a: Any, **k: Any) -> Any: ...


@ref("b_asic.core_operations.Negation.__init__", expand=("setters", "set_param"))
def make_Negation(self: Negation, src0: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None) -> None:
    AbstractOperation.__init__(self, 1, 1, Name(name), [src0], latency, latency_offsets, execution_time)


@ref("b_asic.core_operations.Addition.__init__", expand=("setters", "set_param"))
def make_Addition(self: Addition, src0: Any = None, src1: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None, mul_j: Any = False, shift_output: Any = 0) -> None:
    AbstractOperation.__init__(self, 2, 1, Name(name), [src0, src1], latency, latency_offsets, execution_time)
    self.set_param("mul_j", mul_j)
    self.set_param("shift_output", shift_output)


@ref("b_asic.core_operations.Subtraction.__init__", expand=("setters", "set_param"))
def make_Subtraction(self: Subtraction, src0: Any = None, src1: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None, mul_j: Any = False, shift_output: Any = 0) -> None:
    AbstractOperation.__init__(self, 2, 1, Name(name), [src0, src1], latency, latency_offsets, execution_time)
    self.set_param("mul_j", mul_j)
    self.set_param("shift_output", shift_output)


@ref("b_asic.core_operations.AddSub.__init__", expand=("setters", "set_param"))
def make_AddSub(self: AddSub, is_add: Any = True, src0: Any = None, src1: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None, mul_j: Any = False, shift_output: Any = 0) -> None:
    AbstractOperation.__init__(self, 2, 1, Name(name), [src0, src1], latency, latency_offsets, execution_time)
    self.set_param("is_add", is_add)
    self.set_param("mul_j", mul_j)
    self.set_param("shift_output", shift_output)


@ref("b_asic.core_operations.Multiplication.__init__", expand=("setters", "set_param"))
def make_Multiplication(self: Multiplication, src0: Any = None, src1: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None) -> None:
    AbstractOperation.__init__(self, 2, 1, Name(name), [src0, src1], latency, latency_offsets, execution_time)


@ref("b_asic.core_operations.Division.__init__", expand=("setters", "set_param"))
def make_Division(self: Division, src0: Any = None, src1: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None) -> None:
    AbstractOperation.__init__(self, 2, 1, Name(name), [src0, src1], latency, latency_offsets, execution_time)


@ref("b_asic.core_operations.Min.__init__", expand=("setters", "set_param"))
def make_Min(self: Min, src0: Any = None, src1: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None) -> None:
    AbstractOperation.__init__(self, 2, 1, Name(name), [src0, src1], latency, latency_offsets, execution_time)


@ref("b_asic.core_operations.Max.__init__", expand=("setters", "set_param"))
def make_Max(self: Max, src0: Any = None, src1: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None) -> None:
    AbstractOperation.__init__(self, 2, 1, Name(name), [src0, src1], latency, latency_offsets, execution_time)


@ref("b_asic.core_operations.SquareRoot.__init__", expand=("setters", "set_param"))
def make_SquareRoot(self: SquareRoot, src0: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None) -> None:
    AbstractOperation.__init__(self, 1, 1, Name(name), [src0], latency, latency_offsets, execution_time)


@ref("b_asic.core_operations.ComplexConjugate.__init__", expand=("setters", "set_param"))
def make_ComplexConjugate(self: ComplexConjugate, src0: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None) -> None:
    AbstractOperation.__init__(self, 1, 1, Name(name), [src0], latency, latency_offsets, execution_time)


@ref("b_asic.core_operations.Absolute.__init__", expand=("setters", "set_param"))
def make_Absolute(self: Absolute, src0: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None) -> None:
    AbstractOperation.__init__(self, 1, 1, Name(name), [src0], latency, latency_offsets, execution_time)


@ref("b_asic.core_operations.ImaginaryMultiplication.__init__", expand=("setters", "set_param"))
def make_ImaginaryMultiplication(self: ImaginaryMultiplication, src0: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None) -> None:
    AbstractOperation.__init__(self, 1, 1, Name(name), [src0], latency, latency_offsets, execution_time)


@ref("b_asic.core_operations.ConstantMultiplication.__init__", expand=("setters", "set_param"))
def make_ConstantMultiplication(self: ConstantMultiplication, value: Any = 0, src0: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None) -> None:
    AbstractOperation.__init__(self, 1, 1, Name(name), [src0], latency, latency_offsets, execution_time)
    self.set_param("value", value)


@ref("b_asic.core_operations.MAD.__init__", expand=("setters", "set_param"))
def make_MAD(self: MAD, src0: Any = None, src1: Any = None, src2: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None, do_add: Any = True) -> None:
    AbstractOperation.__init__(self, 3, 1, Name(name), [src0, src1, src2], latency, latency_offsets, execution_time)
    self.set_param("do_add", do_add)


@ref("b_asic.core_operations.MADS.__init__", expand=("setters", "set_param"))
def make_MADS(self: MADS, is_add: Any = True, src0: Any = None, src1: Any = None, src2: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None, do_addsub: Any = True) -> None:
    AbstractOperation.__init__(self, 3, 1, Name(name), [src0, src1, src2], latency, latency_offsets, execution_time)
    self.set_param("is_add", is_add)
    self.set_param("do_addsub", do_addsub)


@ref("b_asic.core_operations.Reciprocal.__init__", expand=("setters", "set_param"))
def make_Reciprocal(self: Reciprocal, src0: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None) -> None:
    AbstractOperation.__init__(self, 1, 1, Name(name), [src0], latency, latency_offsets, execution_time)


@ref("b_asic.core_operations.RightShift.__init__", expand=("setters", "set_param"))
def make_RightShift(self: RightShift, value: Any = 0, src0: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None) -> None:
    AbstractOperation.__init__(self, 1, 1, Name(name), [src0], latency, latency_offsets, execution_time)
    if not isinstance(value, int):
        raise TypeError
    if value < 0:
        raise ValueError
    self.set_param("value", value)


@ref("b_asic.core_operations.LeftShift.__init__", expand=("setters", "set_param"))
def make_LeftShift(self: LeftShift, value: Any = 0, src0: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None) -> None:
    AbstractOperation.__init__(self, 1, 1, Name(name), [src0], latency, latency_offsets, execution_time)
    if not isinstance(value, int):
        raise TypeError
    if value < 0:
        raise ValueError
    self.set_param("value", value)


@ref("b_asic.core_operations.Shift.__init__", expand=("setters", "set_param"))
def make_Shift(self: Shift, value: Any = 0, src0: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None) -> None:
    AbstractOperation.__init__(self, 1, 1, Name(name), [src0], latency, latency_offsets, execution_time)
    if not isinstance(value, int):
        raise TypeError
    self.set_param("value", value)


@ref("b_asic.wdf_operations.SymmetricTwoportAdaptor.__init__", expand=("setters", "set_param"))
def make_SymmetricTwoportAdaptor(self: SymmetricTwoportAdaptor, value: Any = 0, src0: Any = None, src1: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None) -> None:
    AbstractOperation.__init__(self, 2, 2, Name(name), [src0, src1], latency, latency_offsets, execution_time)
    if not -1 <= value <= 1:
        raise ValueError
    self.set_param("value", value)


@ref("b_asic.wdf_operations.SeriesTwoportAdaptor.__init__", expand=("setters", "set_param"))
def make_SeriesTwoportAdaptor(self: SeriesTwoportAdaptor, value: Any = 0, src0: Any = None, src1: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None) -> None:
    AbstractOperation.__init__(self, 2, 2, Name(name), [src0, src1], latency, latency_offsets, execution_time)
    if not 0 <= value <= 2:
        raise ValueError
    self.set_param("value", value)


@ref("b_asic.wdf_operations.ParallelTwoportAdaptor.__init__", expand=("setters", "set_param"))
def make_ParallelTwoportAdaptor(self: ParallelTwoportAdaptor, value: Any = 0, src0: Any = None, src1: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None) -> None:
    AbstractOperation.__init__(self, 2, 2, Name(name), [src0, src1], latency, latency_offsets, execution_time)
    if not 0 <= value <= 2:
        raise ValueError
    self.set_param("value", value)


@ref("b_asic.wdf_operations.ReflectionFreeSeriesThreeportAdaptor.__init__", expand=("setters", "set_param"))
def make_ReflectionFreeSeriesThreeportAdaptor(self: ReflectionFreeSeriesThreeportAdaptor, value: Any = 0, src0: Any = None, src1: Any = None, src2: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None) -> None:
    AbstractOperation.__init__(self, 3, 3, Name(name), [src0, src1, src2], latency, latency_offsets, execution_time)
    if not 0 <= value <= 1:
        raise ValueError
    self.set_param("value", value)


@ref("b_asic.fft_operations.R2Butterfly.__init__", expand=("setters", "set_param"))
def make_R2Butterfly(self: R2Butterfly, src0: Any = None, src1: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None) -> None:
    AbstractOperation.__init__(self, 2, 2, Name(name), [src0, src1], latency, latency_offsets, execution_time)


@ref("b_asic.fft_operations.R2DIFButterfly.__init__", expand=("setters", "set_param"))
def make_R2DIFButterfly(self: R2DIFButterfly, w: Any, src0: Any = None, src1: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None) -> None:
    AbstractOperation.__init__(self, 2, 2, Name(name), [src0, src1], latency, latency_offsets, execution_time)
    self.set_param("w", w)


@ref("b_asic.fft_operations.R2DITButterfly.__init__", expand=("setters", "set_param"))
def make_R2DITButterfly(self: R2DITButterfly, w: Any, src0: Any = None, src1: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None) -> None:
    AbstractOperation.__init__(self, 2, 2, Name(name), [src0, src1], latency, latency_offsets, execution_time)
    self.set_param("w", w)


@ref("b_asic.fft_operations.R2TFButterfly.__init__", expand=("setters", "set_param"))
def make_R2TFButterfly(self: R2TFButterfly, w0: Any, w1: Any, src0: Any = None, src1: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None) -> None:
    AbstractOperation.__init__(self, 2, 2, Name(name), [src0, src1], latency, latency_offsets, execution_time)
    self.set_param("w0", w0)
    self.set_param("w1", w1)


@ref("b_asic.fft_operations.R4Butterfly.__init__", expand=("setters", "set_param"))
def make_R4Butterfly(self: R4Butterfly, src0: Any = None, src1: Any = None, src2: Any = None, src3: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None) -> None:
    AbstractOperation.__init__(self, 4, 4, Name(name), [src0, src1, src2, src3], latency, latency_offsets, execution_time)


@ref("b_asic.fft_operations.R3Winograd.__init__", expand=("setters", "set_param"))
def make_R3Winograd(self: R3Winograd, src0: Any = None, src1: Any = None, src2: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None) -> None:
    AbstractOperation.__init__(self, 3, 3, Name(name), [src0, src1, src2], latency, latency_offsets, execution_time)


@ref("b_asic.fft_operations.R5Winograd.__init__", expand=("setters", "set_param"))
def make_R5Winograd(self: R5Winograd, src0: Any = None, src1: Any = None, src2: Any = None, src3: Any = None, src4: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None) -> None:
    AbstractOperation.__init__(self, 5, 5, Name(name), [src0, src1, src2, src3, src4], latency, latency_offsets, execution_time)


@ref("b_asic.fft_operations.R7Winograd.__init__", expand=("setters", "set_param"))
def make_R7Winograd(self: R7Winograd, src0: Any = None, src1: Any = None, src2: Any = None, src3: Any = None, src4: Any = None, src5: Any = None, src6: Any = None, name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None) -> None:
    AbstractOperation.__init__(self, 7, 7, Name(name), [src0, src1, src2, src3, src4, src5, src6], latency, latency_offsets, execution_time)


@ref("b_asic.core_operations.Constant.__init__", expand=("setters", "set_param"))
def make_Constant(self: Constant, value: Any = 0, name: Any = "") -> None:
    AbstractOperation.__init__(self, 0, 1, Name(name), None, None, {"out0": 0}, 1)
    self.set_param("value", value)


@ref("b_asic.core_operations.ReciprocalSquareRoot.__init__", expand=("setters", "set_param"))
def make_ReciprocalSquareRoot(self: ReciprocalSquareRoot, src0: Any = None, name: Any = Name(''), latency: Any = None,
                              latency_offsets: Any = None, execution_time: Any = None, real_valued: Any = None) -> None:
    AbstractOperation.__init__(self, 1, 1, Name(name), [src0], latency, latency_offsets, execution_time)
    self._real_valued = real_valued


@ref("b_asic.core_operations.ShiftAddSub.__init__", expand=("setters", "set_param"))
def make_ShiftAddSub(self: ShiftAddSub, src0: Any = None, src1: Any = None, is_add: Any = True, shift: Any = 0,
                     name: Any = Name(''), latency: Any = None, latency_offsets: Any = None, execution_time: Any = None,
                     mul_j: Any = False, shift_output: Any = 0) -> None:
    AbstractOperation.__init__(self, 2, 1, Name(name), [src0, src1], latency, latency_offsets, execution_time)
    if not isinstance(is_add, bool):
        raise TypeError
    self.set_param("is_add", is_add)
    if not isinstance(shift, int):
        raise TypeError
    if shift < 0:
        raise ValueError
    self.set_param("shift", shift)
    if not isinstance(mul_j, bool):
        raise TypeError
    self.set_param("mul_j", mul_j)
    if not isinstance(shift_output, int):
        raise TypeError
    if shift_output < 0:
        raise ValueError
    self.set_param("shift_output", shift_output)


@ref("b_asic.wdf_operations.SeriesThreeportAdaptor.__init__", expand=("setters", "set_param"))
def make_SeriesThreeportAdaptor(self: SeriesThreeportAdaptor, value: Any = (0, 0), src0: Any = None, src1: Any = None,
                                src2: Any = None, name: Any = Name(''), latency: Any = None,
                                latency_offsets: Any = None, execution_time: Any = None) -> None:
    AbstractOperation.__init__(self, 3, 3, Name(name), [src0, src1, src2], latency, latency_offsets, execution_time)
    if not all(0 <= v <= 2 for v in value):
        raise ValueError
    if not 0 <= sum(value) <= 2:
        raise ValueError
    self.set_param("value", value)


@ref("b_asic.special_operations.Input.__init__", expand=("setters", "set_param"))
def make_Input(self: Input, name: Any = "") -> None:
    AbstractOperation.__init__(self, 0, 1, Name(name), None, None, {"out0": 0}, 1)
    self._value = 0


@ref("b_asic.special_operations.Output.__init__", expand=("setters", "set_param"))
def make_Output(self: Output, src0: Any = None, name: Any = Name('')) -> None:
    AbstractOperation.__init__(self, 1, 0, Name(name), [src0], None, {"in0": 0}, 1)


@ref("b_asic.special_operations.Delay.__init__", expand=("setters", "set_param"))
def make_Delay(self: Delay, src0: Any = None, initial_value: Any = 0, name: Any = Name('')) -> None:
    AbstractOperation.__init__(self, 1, 1, Name(name), [src0], 0, None, None)
    self.set_param("initial_value", initial_value)


@ref("b_asic.utility_operations.DontCare.__init__", expand=("setters", "set_param"))
def make_DontCare(self: DontCare, name: Any = "") -> None:
    AbstractOperation.__init__(self, 0, 1, name, None, None, {"out0": 0}, 0)


@ref("b_asic.utility_operations.Sink.__init__", expand=("setters", "set_param"))
def make_Sink(self: Sink, name: Any = "") -> None:
    AbstractOperation.__init__(self, 1, 0, name, None, None, {"in0": 0}, 0)


@ref("b_asic.operation.AbstractOperation.__init__")
def operation(self: AbstractOperation, input_count: int, output_count: int, name: Any = Name(""), input_sources: Any = None,
              latency: Any = None, latency_offsets: Any = None, execution_time: Any = None) -> None:
    AbstractGraphComponent.__init__(self, name)
    self._input_ports = [InputPort(self, i) for i in range(input_count)]
    self._output_ports = [OutputPort(self, i) for i in range(output_count)]
    if input_sources is not None:
        if len(input_sources) != input_count:
            raise ValueError
        for i, src in enumerate(input_sources):
            if src is not None:
                if isinstance(src, Signal):
                    src.set_destination(self._input_ports[i])
                else:
                    self._input_ports[i].connect(src.source)
    if latency_offsets is not None:
        self.set_latency_offsets(latency_offsets)
    if latency is not None:
        if latency < 0:
            raise ValueError
        for p in self._input_ports:
            if p.latency_offset is None:
                p.latency_offset = 0
        for q in self._output_ports:
            if q.latency_offset is None:
                q.latency_offset = latency
    self._execution_time = execution_time


@ref("b_asic.graph_component.AbstractGraphComponent.__init__")
def component(self: AbstractGraphComponent, name: Any = Name("")) -> None:
    self._name = Name(name)
    self._graph_id = GraphID("")
    self._parameters = {}


@ref("b_asic.graph_component.AbstractGraphComponent.params")
def params(self: AbstractGraphComponent) -> Any:
    return self._parameters.copy()


@ref("b_asic.graph_component.AbstractGraphComponent.param")
def param(self: AbstractGraphComponent, name: str) -> Any:
    return self._parameters.get(name)


@ref("b_asic.graph_component.AbstractGraphComponent.set_param")
def set_param(self: AbstractGraphComponent, name: str, value: Any) -> None:
    self._parameters[name] = value


@ref("b_asic.graph_component.AbstractGraphComponent.copy")
def copy_component(self: AbstractGraphComponent, *args: Any, **kwargs: Any) -> Any:
    new = self.__class__(*args, **kwargs)
    new.name = copy.copy(self.name)
    new.graph_id = copy.copy(self.graph_id)
    for key, value in self.params.items():
        new.set_param(copy.copy(key), copy.deepcopy(value))
    return new


@ref("b_asic.operation.AbstractOperation.copy")
def copy_operation(self: AbstractOperation, *args: Any, **kwargs: Any) -> Any:
    new = self.__class__(*args, **kwargs)
    new.name = copy.copy(self.name)
    new.graph_id = copy.copy(self.graph_id)
    for name, value in self.params.items():
        new.set_param(copy.copy(name), copy.deepcopy(value))
    for i, p in enumerate(self.inputs):
        new.input(i).latency_offset = p.latency_offset
    for i, q in enumerate(self.outputs):
        new.output(i).latency_offset = q.latency_offset
    new.execution_time = self._execution_time
    return new


@ref("b_asic.operation.AbstractOperation.key")
def key(self: AbstractOperation, index: int, prefix: str = "") -> Any:
    if self.output_count == 1:
        return ResultKey(prefix if prefix else str(index))
    return ResultKey((f"{prefix}." if prefix else prefix) + str(index))


@ref("b_asic.operation.AbstractOperation.evaluate_outputs")
def evaluate_outputs(self: AbstractOperation, input_values: Any, results: Any = None, delays: Any = None,
                     prefix: str = "", data_type: Any = None) -> Any:
    return [self.evaluate_output(i, input_values, results, delays, prefix, data_type) for i in range(self.output_count)]


@ref("b_asic.operation.AbstractOperation.current_outputs")
def current_outputs(self: AbstractOperation, delays: Any = None, prefix: str = "") -> Any:
    return [self.current_output(i, delays, prefix) for i in range(self.output_count)]


@ref("b_asic.operation.AbstractOperation.evaluate_output")
def evaluate_output(self: AbstractOperation, index: int, input_values: Any, results: Any = None, delays: Any = None,
                    prefix: str = "", data_type: Any = None) -> Any:
    if index < 0 or index >= self.output_count:
        raise IndexError
    if len(input_values) != self.input_count:
        raise ValueError
    values = self.evaluate(*input_values, data_type=data_type)
    if isinstance(values, collections.abc.Sequence):
        if len(values) != self.output_count:
            raise RuntimeError
    elif isinstance(values, (Number, APyFixed, APyFloat, APyCFixed, APyCFloat)):
        if self.output_count != 1:
            raise RuntimeError
        values = (values,)
    else:
        raise RuntimeError
    if results is not None:
        for i in range(self.output_count):
            results[self.key(i, prefix)] = values[i]
    return values[index]


@ref("b_asic.operation.AbstractOperation.input_count")
def input_count(self: AbstractOperation) -> int:
    return len(self._input_ports)


@ref("b_asic.operation.AbstractOperation.output_count")
def output_count(self: AbstractOperation) -> int:
    return len(self._output_ports)


@ref("b_asic.operation.AbstractOperation.input")
def input_port(self: AbstractOperation, index: int) -> Any:
    return self._input_ports[index]


@ref("b_asic.operation.AbstractOperation.output")
def output_port(self: AbstractOperation, index: int) -> Any:
    return self._output_ports[index]


@ref("b_asic.operation.AbstractOperation.swap_io")
def swap_io(self: AbstractOperation, force: bool = False) -> None:
    if not force and not self.is_swappable:
        raise TypeError
    if self.input_count == 2 and self.output_count == 1:
        self._input_ports.reverse()
        for i, p in enumerate(self._input_ports):
            p._index = i


@ref("b_asic.special_operations.Delay.current_output")
def delay_output(self: Delay, index: int, delays: Any = None, prefix: str = "") -> Any:
    if delays is not None:
        return delays.get(self.key(index, prefix), self.param("initial_value"))
    return self.param("initial_value")
