"""Reference definitions: structures of the generated signal flow graphs."""

from typing import Any

import numpy as np

from b_asic.core_operations import MAD, Addition, ConstantMultiplication, Name
from b_asic.fft_operations import R2Butterfly
from b_asic.sfg import SFG
from b_asic.signal import Signal
from b_asic.special_operations import Delay, Input, Output
from b_asic.utility_operations import DontCare
from b_asic.wdf_operations import SymmetricTwoportAdaptor


def ref(*a: Any, **k: Any) -> Any: ...


@ref("b_asic.sfg_generators.fft._get_bit_reversed_number")
def bit_reversed(number: int, number_of_bits: int) -> int:
    r = 0
    for i in range(number_of_bits):
        r |= ((number >> i) & 1) << (number_of_bits - 1 - i)
    return r


@ref("b_asic.sfg_generators.fft._get_bit_reversed_ports", opaque=("b_asic.sfg_generators.fft._get_bit_reversed_number",))
def bit_reversed_ports(ports: list) -> Any:
    from b_asic.sfg_generators.fft import _get_bit_reversed_number
    return [ports[_get_bit_reversed_number(i, int(np.log2(len(ports))))] for i in range(len(ports))]


@ref("b_asic.sfg_generators.fft._generate_twiddles")
def twiddles(points: int, number_of_stages: int) -> Any:
    return [[np.exp(-1j * 2 * np.pi * 2 ** (s - 1) * k / points) for k in range(points // 2 ** s)]
            for s in range(1, number_of_stages + 1)]


@ref("b_asic.sfg_generators.fft._construct_dif_fft_stage")
def stage(ports_from_previous_stage: list, stage: int, twiddles: list) -> Any:
    ports = ports_from_previous_stage.copy()
    half = len(ports) // 2
    size = half // 2 ** stage
    for g in range(2 ** stage):
        for b in range(size):
            i = g * 2 * size + b
            k = i + size
            upper, lower = R2Butterfly(ports[i], ports[k]).outputs
            if twiddles[b] != 1:
                lower = ConstantMultiplication(twiddles[b], lower).output(0)
            ports[i] = upper
            ports[k] = lower
    return ports


@ref("b_asic.sfg_generators.matrix_operations.matrix_multiplication")
def matrix_multiplication(m: int, n: int, p: int, name: Any = None, mad_properties: Any = None) -> Any:
    if name is None:
        name = "Matrix-multiplication"
    if mad_properties is None:
        mad_properties = {}
    A = [[Input(f"A[{i},{j}]") for i in range(n)] for j in range(m)]
    B = [[Input(f"B[{i},{j}]") for i in range(p)] for j in range(n)]
    C = []
    for i in range(m):
        for j in range(p):
            acc: Any = DontCare()
            for k in range(n):
                acc = MAD(A[i][k], B[k][j], acc, do_add=(k != 0), **mad_properties)
            C.append(Output(acc, f"C[{i},{j}]"))
    return SFG([x for r in A for x in r] + [x for r in B for x in r], C, name=name)


@ref("b_asic.sfg_generators.digital_filters.fir")
def fir(coefficients: Any, name: Any = None, symmetric: bool = False, transposed: bool = False,
        mult_properties: Any = None, add_properties: Any = None) -> Any:
    h = np.atleast_1d(np.squeeze(np.asarray(coefficients)))
    taps = len(h)
    if name is None:
        name = "Direct-form FIR filter"
    if mult_properties is None:
        mult_properties = {}
    if add_properties is None:
        add_properties = {}
    x = Input()
    y = Output()
    if symmetric and not transposed:
        line: list[Any] = [x]
        for _ in range(taps - 1):
            line.append(Delay(line[-1]))
        pairs = [Addition(line[i], line[-i - 1], **add_properties) for i in range(taps // 2)]
        products = [ConstantMultiplication(h[i], pairs[i], **mult_properties) for i in range(taps // 2)]
        if taps % 2:
            products.append(ConstantMultiplication(h[taps // 2], line[taps // 2], **mult_properties))
        acc: Any = products[0]
        sums: list[Any] = []
        for i in range(len(products) - 1):
            sums.append(Addition(acc, products[i + 1], **add_properties))
            acc = sums[-1]
        y <<= sums[-1] if sums else products[0]
    elif transposed and not symmetric:
        old: Any = None
        for i, c in enumerate(reversed(h)):
            m = ConstantMultiplication(c, x, **mult_properties)
            s = m if old is None else Addition(m, old, **add_properties)
            if i < taps - 1:
                old = Delay(s)
        y <<= s
    elif transposed and symmetric:
        old = None
        products = [ConstantMultiplication(c, x, **mult_properties) for c in h[: (taps + 1) // 2]]
        for i in range(taps):
            m = products[i] if i < (taps + 1) // 2 else products[taps - i - 1]
            s = m if old is None else Addition(m, old, **add_properties)
            if i < taps - 1:
                old = Delay(s)
        y <<= s
    else:
        tap: Any = x
        total: Any = None
        for i, c in enumerate(h):
            m = ConstantMultiplication(c, tap, **mult_properties)
            total = m if total is None else Addition(m, total, **add_properties)
            if i < taps - 1:
                tap = Delay(tap)
        y <<= total
    return SFG([x], [y], name=Name(name))
