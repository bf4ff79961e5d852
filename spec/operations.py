"""The documented function of every operation: Python expressions over the inputs x0, x1, …
and the constructor parameters.  A list gives one expression per output.
"dft N" is the N-point discrete Fourier transform.  Confirmed against the class
documentation and unit tests (Shift: positive value shifts right, as the tests pin)."""

REAL = ("num",)
NUM = ("num", "cnum")
ALL = ("num", "cnum", "fx", "cfx")
CPX = ("num", "cnum", "cfx")         # 1j * real fixed-point is not a fixed-point value

J = "(1j * x1 if mul_j else x1)"

OPERATIONS = {
    "core_operations.Constant": (ALL, ["value"], []),
    "core_operations.Negation": (ALL, ["-x0"], []),
    "core_operations.Addition": (CPX, [f"(x0 + {J}) * 2 ** -shift_output"], ["mul_j", "shift_output"]),
    "core_operations.Subtraction": (CPX, [f"(x0 - {J}) * 2 ** -shift_output"], ["mul_j", "shift_output"]),
    "core_operations.AddSub": (CPX, [f"((x0 + {J}) if is_add else (x0 - {J})) * 2 ** -shift_output"],
                               ["is_add", "mul_j", "shift_output"]),
    "core_operations.ShiftAddSub": (
        CPX, [f"((x0 + {J} * 2 ** -shift) if is_add else (x0 - {J} * 2 ** -shift)) * 2 ** -shift_output"],
        ["is_add", "shift", "mul_j", "shift_output"]),
    "core_operations.Multiplication": (ALL, ["x0 * x1"], []),
    "core_operations.Division": (ALL, ["float('inf') if x1 == 0 else x0 / x1"], []),
    "core_operations.Min": (REAL, ["min(x0, x1)"], []),
    "core_operations.Max": (REAL, ["max(x0, x1)"], []),
    "core_operations.SquareRoot": (NUM, ["x0 ** 0.5"], []),
    "core_operations.ComplexConjugate": (NUM, ["x0.conjugate()"], []),
    "core_operations.Absolute": (NUM, ["abs(x0)"], []),
    "core_operations.ImaginaryMultiplication": (NUM, ["1j * x0"], []),
    "core_operations.ConstantMultiplication": (ALL, ["value * x0"], ["value"]),
    "core_operations.MAD": (ALL, ["x0 * x1 + x2 if do_add else x0 * x1"], ["do_add"]),
    "core_operations.MADS": (
        ALL, ["(x0 + x1 * x2 if is_add else x0 - x1 * x2) if do_addsub else (x1 * x2 if is_add else -x1 * x2)"],
        ["is_add", "do_addsub"]),
    "core_operations.Reciprocal": (ALL, ["float('inf') if x0 == 0 else 1 / x0"], []),
    "core_operations.ReciprocalSquareRoot": (
        REAL, ["float('inf') if x0 == 0 else x0 ** -0.5"], []),
    "core_operations.RightShift": (ALL, ["x0 * 2 ** -value"], ["value"]),
    "core_operations.LeftShift": (ALL, ["x0 * 2 ** value"], ["value"]),
    "core_operations.Shift": (ALL, ["x0 * 2 ** -value"], ["value"]),
    "wdf_operations.SymmetricTwoportAdaptor": (
        ALL, ["x1 + value * (x1 - x0)", "x0 + value * (x1 - x0)"], ["value"]),
    "wdf_operations.SeriesTwoportAdaptor": (
        ALL, ["x0 - value * (x0 + x1)", "x1 - (2 - value) * (x0 + x1)"], ["value"]),
    "wdf_operations.ParallelTwoportAdaptor": (
        ALL, ["-x0 + value * x0 + (2 - value) * x1", "-x1 + value * x0 + (2 - value) * x1"], ["value"]),
    "wdf_operations.SeriesThreeportAdaptor": (
        ALL, ["x0 - value[0] * (x0 + x1 + x2)", "x1 - value[1] * (x0 + x1 + x2)",
              "x2 - (2 - value[0] - value[1]) * (x0 + x1 + x2)"], ["value"]),
    "wdf_operations.ReflectionFreeSeriesThreeportAdaptor": (
        ALL, ["x0 - value * (x0 + x1 + x2)", "-x0 - x2", "x2 - (1 - value) * (x0 + x1 + x2)"], ["value"]),
    "fft_operations.R2Butterfly": (ALL, "dft 2", []),
    "fft_operations.R2DIFButterfly": (ALL, ["x0 + x1", "w * (x0 - x1)"], ["w"]),
    "fft_operations.R2DITButterfly": (ALL, ["x0 + w * x1", "x0 - w * x1"], ["w"]),
    "fft_operations.R2TFButterfly": (ALL, ["w0 * (x0 + x1)", "w1 * (x0 - x1)"], ["w0", "w1"]),
    "fft_operations.R4Butterfly": (CPX, "dft 4", []),
    "fft_operations.R3Winograd": (CPX, "dft 3", []),
    "fft_operations.R5Winograd": (CPX, "dft 5", []),
    "fft_operations.R7Winograd": (CPX, "dft 7", []),
}

# operations with other behaviour than a function of the inputs; decided by their own rules
SPECIAL = {"special_operations.Input", "special_operations.Output", "special_operations.Delay",
           "utility_operations.DontCare", "utility_operations.Sink", "sfg.SFG"}
