From 443e5b30dec80067f17cb6522e9d49f0d5db2ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 01/34] fix: SFG.replace connects a copy of the given component

---
 lib/b_asic/sfg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 666ea69..4eaea2c 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -787,6 +787,9 @@ class SFG(AbstractOperation):
                 "The output count may not differ between the provided component and target"
             )
 
+        # The given component is not to be connected to the new SFG
+        component = cast(Operation, component.copy())
+
         # Perform the replacement
         for index_in, input_ in enumerate(target_op.inputs):
             for signal in input_.signals:
-- 
2.43.0


From f0efd2d93662e14830f2e2723e03b2eeef79bb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 02/34] fix: Schedule keeps its own copy of provided start
 times

---
 lib/b_asic/schedule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 9212513..384d85f 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -131,7 +131,7 @@ class Schedule:
                 raise ValueError("Must provide start_times when using 'provided'")
             if laps is None:
                 raise ValueError("Must provide laps when using 'provided'")
-            self._start_times = start_times
+            self._start_times = dict(start_times)
             self._laps.update(laps)
             self._remove_delays_no_laps()
 
@@ -552,7 +552,7 @@ class Schedule:
         for key, value in start_times.items():
             if not isinstance(key, str) or not isinstance(value, int):
                 raise TypeError("start_times must be a dict[GraphID, int]")
-        self._start_times = start_times
+        self._start_times = dict(start_times)
 
     @property
     def laps(self) -> dict[GraphID, int]:
-- 
2.43.0


From 96e441fba56dc64f099b9567fe4d19d8e8490018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 03/34] fix: MemoryProcess keeps its own copy of the life times

---
 lib/b_asic/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/process.py b/lib/b_asic/process.py
index f5c42eb..03c1f28 100644
--- a/lib/b_asic/process.py
+++ b/lib/b_asic/process.py
@@ -186,7 +186,7 @@ class MemoryProcess(Process):
         life_times: list[int],
         name: str = "",
     ) -> None:
-        self._life_times = life_times
+        self._life_times = list(life_times)
         super().__init__(
             start_time=write_time,
             execution_time=max(self._life_times),
-- 
2.43.0


From 4b9039aca385a3209136d8623eeeefda4f5e7659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 04/34] fix: VhdlPrinter leaves the given control_cycle dict
 unchanged

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index ca8da0e..91170d6 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -310,7 +310,10 @@ class VhdlPrinter(Printer):
         self._register_split = self._resolve_pe_registers(pe, pe_registers)
 
         # Optional absolute per-control availability cycle.
-        self._pe_control_cycle = dict(kwargs.get("control_cycle", {}))
+        self._pe_control_cycle = {
+            name: dict(cycles)
+            for name, cycles in kwargs.get("control_cycle", {}).items()
+        }
 
         # Optional design-level flag to register PE control signals.
         pipeline_pe_control_signals = bool(kwargs.get("pipeline_pe_control", False))
-- 
2.43.0


From fcdd09ffe2bae5465a155077607f99bbf2841b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:43 +0000
Subject: [PATCH 05/34] fix: GraphIDGenerator.next_id does not share its
 default between generators

---
 lib/b_asic/sfg.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 4eaea2c..381a4e7 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -73,12 +73,17 @@ class GraphIDGenerator:
         offset = state["id_number_offset"]
         self._next_id_number = defaultdict(lambda: offset, state["next_id_numbers"])
 
-    def next_id(self, type_name: TypeName, used_ids: MutableSet = set()) -> GraphID:  # noqa: B006
+    def next_id(
+        self, type_name: TypeName, used_ids: MutableSet | None = None
+    ) -> GraphID:
         """Get the next graph id for a certain graph id type."""
+        if used_ids is None:
+            used_ids = set()
         new_id = type_name + str(self._next_id_number[type_name])
         while new_id in used_ids:
             self._next_id_number[type_name] += 1
             new_id = type_name + str(self._next_id_number[type_name])
+        self._next_id_number[type_name] += 1
         used_ids.add(GraphID(new_id))
         return GraphID(new_id)
 
-- 
2.43.0


From 06014ca8a14db5ede498796f82903a05ba5ffca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:20 +0000
Subject: [PATCH 06/34] fix: evaluating a nested or multi-output SFG honours
 the data type inside and per output

---
 lib/b_asic/operation.py |  3 +++
 lib/b_asic/sfg.py       | 14 +++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/operation.py b/lib/b_asic/operation.py
index 08db846..ffba20e 100644
--- a/lib/b_asic/operation.py
+++ b/lib/b_asic/operation.py
@@ -202,6 +202,7 @@ class Operation(GraphComponent, SignalSourceProvider):
         results: MutableResultMap | None = None,
         delays: MutableDelayMap | None = None,
         prefix: str = "",
+        data_type: DataType | None = None,
     ) -> Sequence[Num]:
         """
         Evaluate all outputs of this operation given the input values.
@@ -805,6 +806,7 @@ class AbstractOperation(Operation, AbstractGraphComponent):
         results: MutableResultMap | None = None,
         delays: MutableDelayMap | None = None,
         prefix: str = "",
+        data_type: DataType | None = None,
     ) -> Sequence[Num]:
         return [
             self.evaluate_output(
@@ -813,6 +815,7 @@ class AbstractOperation(Operation, AbstractGraphComponent):
                 results,
                 delays,
                 prefix,
+                data_type,
             )
             for i in range(self.output_count)
         ]
diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 381a4e7..25e51a4 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -365,10 +365,9 @@ class SFG(AbstractOperation):
         return TypeName("sfg")
 
     def evaluate(self, *args, data_type=None) -> Num | list[Num] | None:
-        result = self.evaluate_outputs(args)
+        result = self.evaluate_outputs(args, data_type=data_type)
         n = len(result)
-        res = None if n == 0 else result[0] if n == 1 else result
-        return self._cast_to_data_type(res, data_type)
+        return None if n == 0 else result[0] if n == 1 else result
 
     def evaluate_output(
         self,
@@ -410,6 +409,7 @@ class SFG(AbstractOperation):
             delays,
             prefix,
             deferred_delays,
+            data_type,
         )
         while deferred_delays:
             new_deferred_delays = []
@@ -422,6 +422,7 @@ class SFG(AbstractOperation):
                     delays,
                     prefix,
                     new_deferred_delays,
+                    data_type,
                 )
             deferred_delays = new_deferred_delays
         results[self.key(index, prefix)] = value
@@ -1769,6 +1770,7 @@ class SFG(AbstractOperation):
         delays: MutableDelayMap,
         prefix: str,
         deferred_delays: DelayQueue,
+        data_type: DataType | None = None,
     ) -> Num:
         key_base = (
             (prefix + "." + src.operation.graph_id)
@@ -1785,6 +1787,8 @@ class SFG(AbstractOperation):
             return value
 
         value = src.operation.current_output(src.index, delays, key_base)
+        if value is not None:
+            value = self._cast_to_data_type(value, data_type)
         results[key] = value
         if value is None:
             value = self._do_evaluate_source(
@@ -1795,6 +1799,7 @@ class SFG(AbstractOperation):
                 delays,
                 prefix,
                 deferred_delays,
+                data_type,
             )
         else:
             # Evaluate later. Use current value for now.
@@ -1810,6 +1815,7 @@ class SFG(AbstractOperation):
         delays: MutableDelayMap,
         prefix: str,
         deferred_delays: DelayQueue,
+        data_type: DataType | None = None,
     ) -> Num:
         input_values = [
             self._evaluate_source(
@@ -1818,6 +1824,7 @@ class SFG(AbstractOperation):
                 delays,
                 prefix,
                 deferred_delays,
+                data_type,
             )
             for input_port in src.operation.inputs
         ]
@@ -1830,6 +1837,7 @@ class SFG(AbstractOperation):
             results,
             delays,
             key_base,
+            data_type,
         )
         results[key] = value
         return value
-- 
2.43.0


From 2022f2738ac861626374ca549785a14262f109a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:45 +0000
Subject: [PATCH 07/34] fix: Input, Constant and Negation evaluate to the
 requested data type

---
 lib/b_asic/core_operations.py    | 12 ++----------
 lib/b_asic/special_operations.py |  9 +--------
 2 files changed, 3 insertions(+), 18 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index 8efd04e..a47987b 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -11,7 +11,6 @@ import apytypes as apy
 from numpy import abs as np_abs
 from numpy import conjugate, sqrt
 
-from b_asic.data_type import NumRepresentation
 from b_asic.graph_component import Name, TypeName
 from b_asic.operation import AbstractOperation
 from b_asic.port import SignalSourceProvider
@@ -63,9 +62,7 @@ class Constant(AbstractOperation):
         return TypeName("c")
 
     def evaluate(self, data_type=None) -> Num:
-        if data_type is not None:
-            return apy.fx(self.param("value"), data_type.wl[0], data_type.wl[1])
-        return self.param("value")
+        return self._cast_to_data_type(self.param("value"), data_type)
 
     @property
     def value(self) -> Num:
@@ -182,12 +179,7 @@ class Negation(AbstractOperation):
         return f"-{inputs[0]}"
 
     def evaluate(self, a, data_type=None) -> Num:
-        if data_type is not None:
-            if data_type.num_repr == NumRepresentation.FLOATING_POINT:
-                return apy.fp(-a, data_type.wl[0], data_type.wl[1])
-            elif data_type.num_repr == NumRepresentation.FIXED_POINT:
-                return apy.fx(-a, data_type.wl[0], data_type.wl[1])
-        return -a
+        return self._cast_to_data_type(-a, data_type)
 
 
 class Addition(AbstractOperation):
diff --git a/lib/b_asic/special_operations.py b/lib/b_asic/special_operations.py
index 9326776..86b0d6b 100644
--- a/lib/b_asic/special_operations.py
+++ b/lib/b_asic/special_operations.py
@@ -5,9 +5,6 @@ Contains operations with special purposes that may be treated differently from
 normal operations in an SFG.
 """
 
-import apytypes as apy
-
-from b_asic.data_type import NumRepresentation
 from b_asic.operation import (
     AbstractOperation,
     DelayMap,
@@ -48,11 +45,7 @@ class Input(AbstractOperation):
         return TypeName("in")
 
     def evaluate(self, data_type=None) -> Num:
-        if data_type is None:
-            return self._value
-        if data_type.num_repr == NumRepresentation.FIXED_POINT:
-            return apy.fx(self._value, data_type.wl[0], data_type.wl[1])
-        return apy.fp(self._value, data_type.wl[0], data_type.wl[1])
+        return self._cast_to_data_type(self._value, data_type)
 
     @property
     def latency(self) -> int:
-- 
2.43.0


From 83fd03ec2d5a8b0c963b7ce85ba3aede36ab46cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:45 +0000
Subject: [PATCH 08/34] fix: additions that multiply the second input by j are
 not swappable

---
 lib/b_asic/core_operations.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index a47987b..ec72b9e 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -237,7 +237,6 @@ class Addition(AbstractOperation):
     _shift_output: int
 
     is_linear = True
-    is_swappable = True
 
     def __init__(
         self,
@@ -335,6 +334,10 @@ class Addition(AbstractOperation):
                 res = res / (2**self.shift_output)
         return self._cast_to_data_type(res, data_type)
 
+    @property
+    def is_swappable(self) -> bool:
+        return not self.mul_j
+
     def _rewrite_AddSub(self) -> "SFG":
         from b_asic.sfg import SFG  # noqa: PLC0415
         from b_asic.special_operations import Input, Output  # noqa: PLC0415
@@ -758,7 +761,7 @@ class AddSub(AbstractOperation):
 
     @property
     def is_swappable(self) -> bool:
-        return self.is_add
+        return self.is_add and not self.mul_j
 
     def _rewrite_ShiftAddSub(self) -> "SFG":
         from b_asic.sfg import SFG  # noqa: PLC0415
@@ -1006,7 +1009,7 @@ class ShiftAddSub(AbstractOperation):
 
     @property
     def is_swappable(self) -> bool:
-        return self.is_add and self.shift == 0
+        return self.is_add and self.shift == 0 and not self.mul_j
 
 
 class Multiplication(AbstractOperation):
-- 
2.43.0


From 33a9ed613da58c01ad1418970145f97999bd0532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:45 +0000
Subject: [PATCH 09/34] fix: joining an imaginary multiplication keeps the
 output shift of the addition

---
 lib/b_asic/core_operations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index ec72b9e..a86399c 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -1615,6 +1615,7 @@ class ImaginaryMultiplication(AbstractOperation):
                 latency_offsets=self.latency_offsets,
                 execution_time=self.execution_time,
                 mul_j=not other.mul_j,
+                shift_output=other.shift_output,
             )
         elif isinstance(other, Subtraction):
             op = Subtraction(
@@ -1624,6 +1625,7 @@ class ImaginaryMultiplication(AbstractOperation):
                 latency_offsets=self.latency_offsets,
                 execution_time=self.execution_time,
                 mul_j=not other.mul_j,
+                shift_output=other.shift_output,
             )
         elif isinstance(other, AddSub):
             op = AddSub(
@@ -1634,6 +1636,7 @@ class ImaginaryMultiplication(AbstractOperation):
                 latency_offsets=self.latency_offsets,
                 execution_time=self.execution_time,
                 mul_j=not other.mul_j,
+                shift_output=other.shift_output,
             )
         elif isinstance(other, ShiftAddSub):
             op = ShiftAddSub(
@@ -1645,6 +1648,7 @@ class ImaginaryMultiplication(AbstractOperation):
                 latency_offsets=self.latency_offsets,
                 execution_time=self.execution_time,
                 mul_j=not other.mul_j,
+                shift_output=other.shift_output,
             )
         out0 <<= op
         return SFG([in0, in1], [out0])
-- 
2.43.0


From e81d90edef52bed33c6237ac136b5a2b95264ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:28 +0000
Subject: [PATCH 10/34] fix: inputs_required_for_output of
 ReflectionFreeSeriesThreeportAdaptor respects the output index

---
 lib/b_asic/wdf_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/wdf_operations.py b/lib/b_asic/wdf_operations.py
index 63dfda7..1f171bb 100644
--- a/lib/b_asic/wdf_operations.py
+++ b/lib/b_asic/wdf_operations.py
@@ -396,4 +396,4 @@ class ReflectionFreeSeriesThreeportAdaptor(AbstractOperation):
         Get the input indices of all inputs in this operation whose values are
         required in order to evaluate the output at the given output index.
         """
-        return {0: (0, 1, 2), 1: (0, 2), 2: (0, 1, 2)}
+        return ((0, 1, 2), (0, 2), (0, 1, 2))[output_index]
-- 
2.43.0


From 98198ca34459f9e7b2a57182be645939f46d7afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:33 +0000
Subject: [PATCH 11/34] fix: quantize supports UNBIASED_MAGNITUDE_TRUNCATION

---
 lib/b_asic/quantization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/quantization.py b/lib/b_asic/quantization.py
index 0460398..d2ddb8e 100644
--- a/lib/b_asic/quantization.py
+++ b/lib/b_asic/quantization.py
@@ -197,8 +197,10 @@ def _quantize_real(
     elif quantization_mode is QuantizationMode.UNBIASED_JAMMING:
         f = math.floor(v)
         v = f if v - f == 0 else f | 1
+    elif quantization_mode is QuantizationMode.UNBIASED_MAGNITUDE_TRUNCATION:
+        v = math.trunc(v)
     else:
-        raise TypeError("Unknown quantization method: {quantization!r}")
+        raise TypeError(f"Unknown quantization method: {quantization_mode!r}")
 
     v = v / b
     i = 2 ** (integer_bits - 1)
-- 
2.43.0


From f4ed7594d1b7c333db726b5d736896729d1e7941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 12/34] fix: rewriting a constant multiplication to ShiftAddSub
 keeps the sign and rejects zero

---
 lib/b_asic/core_operations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index a86399c..7786a2d 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -1749,6 +1749,8 @@ class ConstantMultiplication(AbstractOperation):
         from b_asic.special_operations import Input, Output  # noqa: PLC0415
 
         csd = float_to_csd(self.value)
+        if not csd[0]:
+            raise ValueError("Multiplication by zero cannot be rewritten")
 
         in0 = Input()
         out0 = Output()
@@ -1760,6 +1762,8 @@ class ConstantMultiplication(AbstractOperation):
 
         if len(csd[0]) == 1:
             prev_op = Shift(frac_bits, prev_op)
+            if csd[0][0] == -1:
+                prev_op = Negation(prev_op)
         else:
             first_nonzero = True
             for i, digit in enumerate(csd[0]):
-- 
2.43.0


From 1b3e1f16c838f7b69d338b5cf7257dd60cf5ce83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 13/34] fix: rewriting a constant multiplication to Shift
 builds the sum of its CSD digits

---
 lib/b_asic/core_operations.py | 39 +++++++++++++++--------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index 7786a2d..021cc30 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -1804,36 +1804,31 @@ class ConstantMultiplication(AbstractOperation):
         from b_asic.special_operations import Input, Output  # noqa: PLC0415
 
         csd = float_to_csd(self.value)
+        if not csd[0]:
+            raise ValueError("Multiplication by zero cannot be rewritten")
 
         in0 = Input()
         out0 = Output()
-        prev_op = in0
-
-        if self.value < 0:
-            prev_op = Negation(prev_op)
+        prev_op = None
 
         bits = len(csd[0])
         frac_bits = csd[1]
         max_exp = bits - 1 - frac_bits
 
-        if len(csd[0]) == 1:
-            prev_op = Shift(frac_bits, prev_op)
-        else:
-            for i, digit in enumerate(csd[0]):
-                if digit not in (-1, 0, 1):
-                    raise ValueError("CSD representation can only contain -1, 0, and 1")
-                if digit == 0:
-                    continue
-
-                exp = max_exp - i
-                if exp == 0:
-                    continue
-
-                shift = Shift(-exp, in0)
-                if digit == 1:
-                    prev_op = Addition(prev_op, shift)
-                elif digit == -1:
-                    prev_op = Subtraction(prev_op, shift)
+        for i, digit in enumerate(csd[0]):
+            if digit not in (-1, 0, 1):
+                raise ValueError("CSD representation can only contain -1, 0, and 1")
+            if digit == 0:
+                continue
+
+            exp = max_exp - i
+            term = in0 if exp == 0 else Shift(-exp, in0)
+            if prev_op is None:
+                prev_op = term if digit == 1 else Negation(term)
+            elif digit == 1:
+                prev_op = Addition(prev_op, term)
+            else:
+                prev_op = Subtraction(prev_op, term)
         out0 <<= prev_op
 
         return SFG([in0], [out0])
-- 
2.43.0


From 17756c7ef53c3497bf6a8741d3d3c5cf95115487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:00 +0000
Subject: [PATCH 14/34] fix: joining an imaginary multiplication into an
 addition that multiplies by j keeps its input

---
 lib/b_asic/core_operations.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index 021cc30..b3cc1fe 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -1604,13 +1604,12 @@ class ImaginaryMultiplication(AbstractOperation):
         in0 = Input()
         in1 = Input()
         out0 = Output()
-        if other.mul_j:
-            in1 = -in1
+        src1 = Negation(in1) if other.mul_j else in1
 
         if isinstance(other, Addition):
             op = Addition(
                 src0=in0,
-                src1=in1,
+                src1=src1,
                 name=self.name,
                 latency_offsets=self.latency_offsets,
                 execution_time=self.execution_time,
@@ -1620,7 +1619,7 @@ class ImaginaryMultiplication(AbstractOperation):
         elif isinstance(other, Subtraction):
             op = Subtraction(
                 src0=in0,
-                src1=in1,
+                src1=src1,
                 name=self.name,
                 latency_offsets=self.latency_offsets,
                 execution_time=self.execution_time,
@@ -1630,7 +1629,7 @@ class ImaginaryMultiplication(AbstractOperation):
         elif isinstance(other, AddSub):
             op = AddSub(
                 src0=in0,
-                src1=in1,
+                src1=src1,
                 is_add=other.is_add,
                 name=self.name,
                 latency_offsets=self.latency_offsets,
@@ -1641,7 +1640,7 @@ class ImaginaryMultiplication(AbstractOperation):
         elif isinstance(other, ShiftAddSub):
             op = ShiftAddSub(
                 src0=in0,
-                src1=in1,
+                src1=src1,
                 is_add=other.is_add,
                 shift=other.shift,
                 name=self.name,
-- 
2.43.0


From e5d339e75e353ee81b86e1c686fbec988018a76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:20 +0000
Subject: [PATCH 15/34] fix: an imaginary multiplication is only joined with
 the second input of an addition

---
 lib/b_asic/core_operations.py | 5 ++++-
 lib/b_asic/sfg.py             | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index b3cc1fe..8a6a06e 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -1594,12 +1594,15 @@ class ImaginaryMultiplication(AbstractOperation):
         res = a * 1j
         return self._cast_to_data_type(res, data_type)
 
-    def _join(self, other: "AbstractOperation") -> Union["SFG", None]:
+    def _join(self, other: "AbstractOperation", index: int) -> Union["SFG", None]:
         from b_asic.sfg import SFG  # noqa: PLC0415
         from b_asic.special_operations import Input, Output  # noqa: PLC0415
 
         if not isinstance(other, (Addition, Subtraction, AddSub, ShiftAddSub)):
             return None
+        if index != 1:
+            # Only the second input can be multiplied by j
+            return None
 
         in0 = Input()
         in1 = Input()
diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 25e51a4..842ef17 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2696,7 +2696,7 @@ class SFG(AbstractOperation):
             for sig in op.output(0).signals:
                 dest_op = sig.destination_operation
                 if hasattr(op, "_join"):
-                    joined_op = op._join(dest_op)
+                    joined_op = op._join(dest_op, sig.destination.index)
                     new_sfg = new_sfg.replace(dest_op.graph_id, joined_op)
                     new_sfg.find_by_id("sfg0").connect_external_signals_to_components()
                     new_sfg = new_sfg()
-- 
2.43.0


From b1309f63f16c62fbfc526abf2144700044143924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 16/34] fix: SFG to ShiftAddSub rewrite keeps mul_j and
 shift_output and checks which operand is shifted

---
 lib/b_asic/sfg.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 842ef17..ebb28eb 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2643,19 +2643,34 @@ class SFG(AbstractOperation):
 
         # determine the modes of the ShiftAddSub operation
         for op in ops:
-            if isinstance(op, Addition):
-                is_add = True
-            elif isinstance(op, Subtraction):
-                is_add = False
-            elif isinstance(op, AddSub):
-                is_add = op.is_add
+            if isinstance(op, Shift):
+                shift_op = op
             else:
-                shift = op.value
+                addsub = op
+        is_add = isinstance(addsub, Addition) or (
+            isinstance(addsub, AddSub) and addsub.is_add
+        )
+
+        # only the second operand is shifted, but an addition can change order
+        shifted = [port.connected_source is shift_op.output(0) for port in addsub.inputs]
+        if shifted != [False, True] and not (
+            shifted == [True, False] and is_add and not addsub.mul_j
+        ):
+            raise ValueError(
+                "SFG to ShiftAddSub rewrite requires the second operand to be shifted"
+            )
 
         # Construct and return the new SFG
         in0 = Input()
         in1 = Input()
-        op = ShiftAddSub(in0, in1, is_add=is_add, shift=shift)
+        op = ShiftAddSub(
+            src0=in0,
+            src1=in1,
+            is_add=is_add,
+            shift=shift_op.value,
+            mul_j=addsub.mul_j,
+            shift_output=addsub.shift_output,
+        )
         outs = []
         for out in self.outputs:
             out = Output()
-- 
2.43.0


From e1f08fcdc327c298b66de6cae010e9ff1f6dacf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:17 +0000
Subject: [PATCH 17/34] fix: SFG to ShiftAddSub rewrite accepts the two
 operations in any order

---
 lib/b_asic/sfg.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index ebb28eb..8d4d5a2 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2631,11 +2631,14 @@ class SFG(AbstractOperation):
 
         # check that one operation is a shift and one is an addsub-like operation
         if not (
-            isinstance(ops[0], Shift)
-            and isinstance(ops[1], (Addition, Subtraction, AddSub))
-        ) or (
-            isinstance(ops[1], Shift)
-            and isinstance(ops[0], (Addition, Subtraction, AddSub))
+            (
+                isinstance(ops[0], Shift)
+                and isinstance(ops[1], (Addition, Subtraction, AddSub))
+            )
+            or (
+                isinstance(ops[1], Shift)
+                and isinstance(ops[0], (Addition, Subtraction, AddSub))
+            )
         ):
             raise ValueError(
                 "SFG to ShiftAddSub rewrite requires one Shift and one of (Addition, Subtraction, AddSub)"
-- 
2.43.0


From bbe074be6f657bdd2ed4bdee4966762cca8940c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 18/34] fix: splitting on ports with minimized connections does
 not mix up read and write ports

---
 lib/b_asic/resources.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 43376b1..9de6471 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -1303,7 +1303,7 @@ class ProcessCollection:
 
         for process in sequence:
             process_fits_in_collection = self._get_process_fits_in_collection(
-                process, collections, read_ports, write_ports, total_ports
+                process, collections, write_ports, read_ports, total_ports
             )
             best_collection = None
             best_delta = sys.maxsize
@@ -1331,7 +1331,7 @@ class ProcessCollection:
                         )
                     )
                     process_fits_in_collection = self._get_process_fits_in_collection(
-                        process, collections, read_ports, write_ports, total_ports
+                        process, collections, write_ports, read_ports, total_ports
                     )
             if best_collection is not None:
                 best_collection.add_process(process)
@@ -1365,7 +1365,7 @@ class ProcessCollection:
 
         for process in sequence:
             process_fits_in_collection = self._get_process_fits_in_collection(
-                process, collections, read_ports, write_ports, total_ports
+                process, collections, write_ports, read_ports, total_ports
             )
             best_collection = None
             best_delta = sys.maxsize
@@ -1393,7 +1393,7 @@ class ProcessCollection:
                         )
                     )
                     process_fits_in_collection = self._get_process_fits_in_collection(
-                        process, collections, read_ports, write_ports, total_ports
+                        process, collections, write_ports, read_ports, total_ports
                     )
             if best_collection is not None:
                 best_collection.add_process(process)
-- 
2.43.0


From 95215e399861d35db51d4924cb38b4ef92d17689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 19/34] fix: memory storage generation compares the write and
 read bounds with the right ports

---
 lib/b_asic/resources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 9de6471..5e662c0 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -2299,8 +2299,8 @@ class ProcessCollection:
                     raise ValueError(f"{mv!r} is not part of {self!r}.")
 
         # Make sure that concurrent reads/writes do not surpass the port setting
-        needed_write_ports = self.read_ports_bound()
-        needed_read_ports = self.write_ports_bound()
+        needed_write_ports = self.write_ports_bound()
+        needed_read_ports = self.read_ports_bound()
         if needed_write_ports > write_ports + 1:
             raise ValueError(
                 f"More than {write_ports} write ports needed ({needed_write_ports})"
-- 
2.43.0


From 1c6fba0750bbfbee93193a0f681b113b7ed2c11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 20/34] fix: splitting a process collection keeps the cyclic
 property

---
 lib/b_asic/resources.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 5e662c0..3443ed5 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -944,7 +944,9 @@ class ProcessCollection:
                 raise ValueError("ProcessCollection must only contain OperatorProcess.")
             type_name = process.operation.type_name()
             if type_name not in groups:
-                groups[type_name] = ProcessCollection([], self.schedule_time)
+                groups[type_name] = ProcessCollection(
+                    [], self.schedule_time, self._cyclic
+                )
             groups[type_name].add_process(process)
         return groups
 
@@ -2052,7 +2054,9 @@ class ProcessCollection:
 
         for process, cell in coloring.items():
             if cell not in cell_assignment:
-                cell_assignment[cell] = ProcessCollection([], self._schedule_time)
+                cell_assignment[cell] = ProcessCollection(
+                    [], self._schedule_time, self._cyclic
+                )
             cell_assignment[cell].add_process(process)
         return list(cell_assignment.values())
 
@@ -2097,7 +2101,9 @@ class ProcessCollection:
             )
         for process, cell in coloring.items():
             if cell not in cell_assignment:
-                cell_assignment[cell] = ProcessCollection([], self._schedule_time)
+                cell_assignment[cell] = ProcessCollection(
+                    [], self._schedule_time, self._cyclic
+                )
             cell_assignment[cell].add_process(process)
         return list(cell_assignment.values())
 
-- 
2.43.0


From 43f9dea36b9895f61790a68c86a478f5f587a4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 21/34] fix: memory variables of a cyclic schedule form a
 cyclic collection

---
 lib/b_asic/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 384d85f..d7acc1c 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -1210,7 +1210,7 @@ class Schedule:
         :class:`~b_asic.resources.ProcessCollection`
         """
         return ProcessCollection(
-            set(self._get_memory_variables_list()), self.schedule_time
+            set(self._get_memory_variables_list()), self.schedule_time, self.cyclic
         )
 
     def get_operations(self) -> ProcessCollection:
-- 
2.43.0


From 64e37c1c2327056db682acf4bbaf8293e0faf804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 22/34] fix: memory variables keep their own copy of the reads

---
 lib/b_asic/process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/process.py b/lib/b_asic/process.py
index 03c1f28..0337188 100644
--- a/lib/b_asic/process.py
+++ b/lib/b_asic/process.py
@@ -349,7 +349,7 @@ class MemoryVariable(MemoryProcess):
         name: str | None = None,
     ) -> None:
         self._read_ports = list(reads.keys())
-        self._reads = reads
+        self._reads = dict(reads)
         self._write_port = write_port
         super().__init__(
             write_time=write_time,
@@ -440,7 +440,7 @@ class PlainMemoryVariable(MemoryProcess):
     ) -> None:
         self._read_ports = list(reads.keys())
         self._write_port = write_port
-        self._reads = reads
+        self._reads = dict(reads)
         if name is None:
             name = f"Var. {PlainMemoryVariable._name_cnt}"
             PlainMemoryVariable._name_cnt += 1
-- 
2.43.0


From 2f2653e7fd20cc39f0012fe3ed732e82935196a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:53 +0000
Subject: [PATCH 23/34] fix: moving an operation changes the slack of its
 signals by exactly the move

---
 lib/b_asic/schedule.py | 111 +++++++++++++++++------------------------
 1 file changed, 45 insertions(+), 66 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index d7acc1c..1944953 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -918,77 +918,56 @@ class Schedule:
                 f" between {-backward_slack} and {forward_slack}."
             )
 
-        old_start = self._start_times[graph_id]
-        tmp_start = old_start + time
-        new_start = tmp_start % self._schedule_time
+        op = cast(Operation, self._sfg.find_by_id(graph_id))
 
-        # Update input laps
-        input_slacks = self._backward_slacks(graph_id)
-        for in_port, signal_slacks in input_slacks.items():
-            tmp_usage = tmp_start + cast(int, in_port.latency_offset)
-            new_usage = tmp_usage % self._schedule_time
-            for signal, signal_slack in signal_slacks.items():
-                # New slack
-                new_slack = signal_slack + time
-                # Compute a lower limit on laps
-                laps = new_slack // self._schedule_time
-                # Compensate for cases where above is not correct
-                tmp_prev_available = tmp_usage - new_slack
-                prev_available = tmp_prev_available % self._schedule_time
-                # If prev_available == 0 it will come from previous lap, unless it comes
-                # from an Input
-                source_op = signal.source_operation
-                if prev_available == 0 and not isinstance(source_op, Input):
-                    prev_available = self._schedule_time
-                # Usage time (new_usage) < available time (prev_available) within a
-                # schedule period
-                if new_usage < prev_available:
-                    laps += 1
-                self._laps[signal.graph_id] = laps
-
-        # Update output laps
-        output_slacks = self._forward_slacks(graph_id)
-        for out_port, signal_slacks in output_slacks.items():
-            tmp_available = tmp_start + cast(int, out_port.latency_offset)
-            new_available = tmp_available % self._schedule_time
-            for signal, signal_slack in signal_slacks.items():
-                # New slack
-                new_slack = signal_slack - time
-                # Compute a lower limit on laps
-                laps = new_slack // self._schedule_time
-                # Compensate for cases where above is not correct
-                tmp_next_usage = tmp_available + new_slack
-                next_usage = tmp_next_usage % self._schedule_time
-                # Usage time (new_usage) < available time (prev_available) within a
-                # schedule period
-                if new_available == 0 and (new_slack > 0 or next_usage == 0):
-                    new_available = self._schedule_time
-                if (
-                    next_usage < new_available
-                    and self._start_times[signal.destination_operation.graph_id]
-                    != self.schedule_time
-                ):
-                    laps += 1
-                self._laps[signal.graph_id] = laps
+        # Slack of the connected signals after the move
+        slacks = {
+            signal: self._signal_slack(signal) + time for signal in op.input_signals
+        }
+        for signal in op.output_signals:
+            slacks[signal] = slacks.get(signal, self._signal_slack(signal)) - time
+
+        self._start_times[graph_id] = (
+            self._start_times[graph_id] + time
+        ) % self._schedule_time
+        self._update_laps(slacks)
 
         # Outputs should not start at 0, but at schedule time
-        op = self._sfg.find_by_id(graph_id)
-        if (
-            new_start == 0
-            and isinstance(op, Output)
-            and self._laps[op.input(0).signals[0].graph_id] != 0
-        ):
-            new_start = self._schedule_time
-            self._laps[op.input(0).signals[0].graph_id] -= 1
-        if new_start == 0 and isinstance(op, Input):
-            new_start = 0
-            for signal in op.output(0).signals:
-                if self._laps[signal.graph_id] != 0:
-                    self._laps[signal.graph_id] -= 1
-        # Set new start time
-        self._start_times[graph_id] = new_start
+        if self._start_times[graph_id] == 0 and isinstance(op, Output):
+            signal = op.input(0).signals[0]
+            if self._laps[signal.graph_id] != 0:
+                self._start_times[graph_id] = self._schedule_time
+                self._laps[signal.graph_id] -= 1
         return self
 
+    def _signal_slack(self, signal: Signal) -> int:
+        """Return the time from *signal* being available until it is used."""
+        return self._output_slacks(cast(OutputPort, signal.source))[signal]
+
+    def _update_laps(self, slacks: dict[Signal, int]) -> None:
+        """Update the laps of the signals such that they get the given slacks."""
+        for signal, slack in slacks.items():
+            self._laps[signal.graph_id] += (
+                slack - self._signal_slack(signal)
+            ) // self._schedule_time
+            # A don't care is available in every lap
+            if self._laps[signal.graph_id] < 0 and isinstance(
+                signal.source_operation, DontCare
+            ):
+                self._laps[signal.graph_id] = 0
+
+        # A value required at the end of the schedule is not available from time 0
+        for signal in slacks:
+            op = signal.source_operation
+            if self._laps[signal.graph_id] >= 0 or self._start_times[op.graph_id] != 0:
+                continue
+            op_slacks = {
+                op_signal: self._signal_slack(op_signal)
+                for op_signal in (*op.input_signals, *op.output_signals)
+            }
+            self._start_times[op.graph_id] = self._schedule_time
+            self._update_laps(op_slacks)
+
     def move_operation_alap(self, graph_id: GraphID) -> "Schedule":
         """
         Move an operation as late as possible in the schedule.
-- 
2.43.0


From e51ceb370eea31cea0f7e0a73f805765ea42e9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:53 +0000
Subject: [PATCH 24/34] fix: rotating a schedule keeps the slack of every
 signal

---
 lib/b_asic/schedule.py | 95 ++++++++----------------------------------
 1 file changed, 18 insertions(+), 77 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 1944953..75d3cd3 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -1021,47 +1021,7 @@ class Schedule:
         if not self._cyclic:
             raise ValueError("Cannot rotate non-cyclic schedule.")
 
-        for graph_id, start_time in self._start_times.items():
-            op = cast(Operation, self._sfg.find_by_id(graph_id))
-            new_time = (start_time + 1) % self._schedule_time
-
-            for input_signal in op.input_signals:
-                # move resulted in the input wrapping around
-                if (
-                    start_time + 1 + input_signal.destination.latency_offset
-                    == self._schedule_time
-                ):
-                    self._laps[input_signal.graph_id] += 1
-
-            for output_signal in op.output_signals:
-                # move resulted in the output wrapping around
-                if (
-                    start_time + output_signal.source.latency_offset
-                    == self._schedule_time
-                ):
-                    self._laps[output_signal.graph_id] -= 1
-
-            if isinstance(op, (Output, Sink)) and start_time == self._schedule_time:
-                # special case, output has wrapped around
-                for input_signal in op.input_signals:
-                    self._laps[input_signal.graph_id] += 1
-
-            # place the operation at the correct position
-            if (
-                isinstance(op, (Input, DontCare))
-                and start_time == self._schedule_time - 1
-            ):
-                self._start_times[graph_id] = 0
-                for output_signal in op.output_signals:
-                    self._laps[output_signal.graph_id] -= 1
-            elif (
-                isinstance(op, (Output, Sink)) and start_time == self._schedule_time - 1
-            ):
-                self._start_times[graph_id] = self._schedule_time
-                for input_signal in op.input_signals:
-                    self._laps[input_signal.graph_id] -= 1
-            else:
-                self._start_times[graph_id] = new_time
+        self._rotate(1)
         return self
 
     def rotate_backward(self) -> "Schedule":
@@ -1069,44 +1029,25 @@ class Schedule:
         if not self._cyclic:
             raise ValueError("Cannot rotate non-cyclic schedule.")
 
+        self._rotate(-1)
+        return self
+
+    def _rotate(self, time: int) -> None:
+        """Move all operations *time* cycles, keeping the slack of every signal."""
+        slacks = {}
+        for graph_id in self._start_times:
+            op = cast(Operation, self._sfg.find_by_id(graph_id))
+            for signal in op.output_signals:
+                slacks[signal] = self._signal_slack(signal)
+
         for graph_id, start_time in self._start_times.items():
             op = cast(Operation, self._sfg.find_by_id(graph_id))
-            new_time = (start_time - 1) % self._schedule_time
-
-            for input_signal in op.input_signals:
-                # move resulted in the input wrapping around
-                if start_time + input_signal.destination.latency_offset == 0:
-                    self._laps[input_signal.graph_id] -= 1
-
-            for output_signal in op.output_signals:
-                # move resulted in the output wrapping around
-                if start_time - 1 + output_signal.source.latency_offset == 0:
-                    # normal wrap around
-                    self._laps[output_signal.graph_id] += 1
-                if (
-                    start_time - 1 + output_signal.source.latency_offset
-                    == self._schedule_time
-                ):
-                    # output time now in schedule period
-                    self._laps[output_signal.graph_id] += 1
-
-            if isinstance(op, (Input, DontCare)) and start_time == 0:
-                # special case, input has wrapped around
-                for output_signal in op.output_signals:
-                    self._laps[output_signal.graph_id] += 1
-
-            # place the operation at the correct position
-            if isinstance(op, (Input, DontCare)) and start_time == 1:
-                self._start_times[graph_id] = 0
-                for output_signal in op.output_signals:
-                    self._laps[output_signal.graph_id] -= 1
-            elif isinstance(op, (Output, Sink)) and start_time == 1:
-                self._start_times[graph_id] = self._schedule_time
-                for input_signal in op.input_signals:
-                    self._laps[input_signal.graph_id] -= 1
-            else:
-                self._start_times[graph_id] = new_time
-        return self
+            new_time = (start_time + time) % self._schedule_time
+            # Outputs and sinks should not start at 0, but at schedule time
+            if new_time == 0 and isinstance(op, (Output, Sink)):
+                new_time = self._schedule_time
+            self._start_times[graph_id] = new_time
+        self._update_laps(slacks)
 
     def _remove_delays_no_laps(self) -> None:
         """Remove delay elements without updating laps. Used when loading schedule."""
-- 
2.43.0


From c6d05d8290e3fd38c83b751a6b2605e6618d12ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:53 +0000
Subject: [PATCH 25/34] fix: shifting by a negative number with << and >>
 shifts the other way

---
 lib/b_asic/core_operations.py | 10 +++++-----
 lib/b_asic/port.py            |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index 8a6a06e..8ec391b 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -2408,14 +2408,14 @@ class Shift(AbstractOperation):
 
     Shifts the input to the left or right assuming a fixed-point representation, so
     a multiplication by a power of two. By definition a positive value is a shift to
-    the left.
+    the right.
 
-    .. math:: y = x \ll \text{value} = 2^{\text{value}}x
+    .. math:: y = x \gg \text{value} = 2^{-\text{value}}x
 
     Parameters
     ----------
     value : int
-        Number of bits to shift. Positive *value* shifts to the left.
+        Number of bits to shift. Positive *value* shifts to the right.
     src0 : :class:`~b_asic.port.SignalSourceProvider`, optional
         The signal to shift.
     name : Name, optional
@@ -2479,8 +2479,8 @@ class Shift(AbstractOperation):
 
     def _operation_str(self, input_ids: list[str]) -> str:
         if self.value >= 0:
-            return f"{self.graph_id} = {input_ids[0]} << {self.value}"
-        return f"{self.graph_id} = {input_ids[0]} >> {-self.value}"
+            return f"{self.graph_id} = {input_ids[0]} >> {self.value}"
+        return f"{self.graph_id} = {input_ids[0]} << {-self.value}"
 
     def evaluate(self, a, data_type=None) -> Num:
         if isinstance(a, (apy.APyFixed, apy.APyCFixed)):
diff --git a/lib/b_asic/port.py b/lib/b_asic/port.py
index 18b361b..863189e 100644
--- a/lib/b_asic/port.py
+++ b/lib/b_asic/port.py
@@ -282,7 +282,7 @@ class SignalSourceProvider(ABC):
             raise TypeError("Can only shift with an int")
         if src >= 0:
             return LeftShift(src, self)
-        return Shift(src, self)
+        return Shift(-src, self)
 
     def __rshift__(self, src: int) -> Union["RightShift", "Shift"]:
         # Import here to avoid circular imports.
@@ -292,7 +292,7 @@ class SignalSourceProvider(ABC):
             raise TypeError("Can only shift with an int")
         if src >= 0:
             return RightShift(src, self)
-        return Shift(-src, self)
+        return Shift(src, self)
 
 
 class InputPort(AbstractPort):
-- 
2.43.0


From 537a7d0d5281166dc19b77086801651330750d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:49 +0000
Subject: [PATCH 26/34] fix: text of a difference of signal generators keeps
 the parentheses of its second term

---
 lib/b_asic/signal_generator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/signal_generator.py b/lib/b_asic/signal_generator.py
index f1c92e5..a121665 100644
--- a/lib/b_asic/signal_generator.py
+++ b/lib/b_asic/signal_generator.py
@@ -408,7 +408,12 @@ class _SubGenerator(SignalGenerator):
         return self._a(time) - self._b(time)
 
     def __repr__(self) -> str:
-        return f"{self._a} - {self._b}"
+        b = (
+            f"({self._b})"
+            if isinstance(self._b, (_AddGenerator, _SubGenerator))
+            else f"{self._b}"
+        )
+        return f"{self._a} - {b}"
 
 
 class _MulGenerator(SignalGenerator):
-- 
2.43.0


From 0b2b1cc26a45be6c12befd9880c7d5aff6e6ded7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:49 +0000
Subject: [PATCH 27/34] fix: constant signal generators have a readable
 representation

---
 lib/b_asic/signal_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/b_asic/signal_generator.py b/lib/b_asic/signal_generator.py
index a121665..b551c01 100644
--- a/lib/b_asic/signal_generator.py
+++ b/lib/b_asic/signal_generator.py
@@ -148,6 +148,9 @@ class Constant(SignalGenerator):
     def __call__(self, time: int) -> complex:
         return self._constant
 
+    def __repr__(self) -> str:
+        return f"Constant({self._constant})"
+
     def __str__(self) -> str:
         return f"{self._constant}"
 
-- 
2.43.0


From 7d4c343decf48691ffbc069db12bcdfcd24725b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 28/34] fix: symmetric direct-form FIR filters with an odd
 number of taps keep the middle tap

---
 lib/b_asic/sfg_generators/digital_filters.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/b_asic/sfg_generators/digital_filters.py b/lib/b_asic/sfg_generators/digital_filters.py
index 28fcc7c..b401aed 100644
--- a/lib/b_asic/sfg_generators/digital_filters.py
+++ b/lib/b_asic/sfg_generators/digital_filters.py
@@ -77,21 +77,21 @@ def fir(
             for i in range(taps // 2)
         ]
 
-        if taps == 1:
-            muls = [
-                ConstantMultiplication(coefficients[0], input_op, **mult_properties)
-            ]
-        else:
-            muls = [
+        muls = [
+            ConstantMultiplication(np_coefficients[i], add_layer_1[i], **mult_properties)
+            for i in range(taps // 2)
+        ]
+        if taps % 2:
+            # The middle tap has no symmetric counterpart
+            muls.append(
                 ConstantMultiplication(
-                    coefficients[i], add_layer_1[i], **mult_properties
+                    np_coefficients[taps // 2], delays[taps // 2], **mult_properties
                 )
-                for i in range(taps // 2)
-            ]
+            )
 
         previous_op = muls[0]
         add_layer_2 = []
-        for i in range(taps // 2 - 1):
+        for i in range(len(muls) - 1):
             add_layer_2.append(Addition(previous_op, muls[i + 1], **add_properties))
             previous_op = add_layer_2[-1]
 
-- 
2.43.0


From 85941b4247b9b34170cfb48c707e368333a87fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 29/34] fix: wdf_allpass with a zero first coefficient in a
 second-order section

---
 lib/b_asic/sfg_generators/wave_digital_filters.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/sfg_generators/wave_digital_filters.py b/lib/b_asic/sfg_generators/wave_digital_filters.py
index fdb85a3..3815021 100644
--- a/lib/b_asic/sfg_generators/wave_digital_filters.py
+++ b/lib/b_asic/sfg_generators/wave_digital_filters.py
@@ -127,9 +127,12 @@ def wdf_allpass(
                 latency_offsets=latency_offsets,
                 execution_time=execution_time,
             )
-            Signal(adaptor2.output(0), adaptor1.input(1))
             Signal(adaptor2.output(1), delay2)
-            signal_out = Signal(adaptor1.output(0))
+            if np_coefficients[idx1]:
+                Signal(adaptor2.output(0), adaptor1.input(1))
+                signal_out = Signal(adaptor1.output(0))
+            else:
+                signal_out = Signal(adaptor2.output(0))
         else:
             delay2 = Delay(delay1, name=_tname(idx2))
             if np_coefficients[idx1]:
-- 
2.43.0


From d7250b34677377bc87a9c433ae53d28fd9779ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 30/34] fix: ReciprocalSquareRoot keeps real_valued when copied
 into an SFG

---
 lib/b_asic/core_operations.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index 8ec391b..b7f404f 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -11,7 +11,7 @@ import apytypes as apy
 from numpy import abs as np_abs
 from numpy import conjugate, sqrt
 
-from b_asic.graph_component import Name, TypeName
+from b_asic.graph_component import GraphComponent, Name, TypeName
 from b_asic.operation import AbstractOperation
 from b_asic.port import SignalSourceProvider
 from b_asic.types import Num, ShapeCoordinates
@@ -2189,6 +2189,14 @@ class ReciprocalSquareRoot(AbstractOperation):
         )
         self._real_valued = real_valued
 
+    @property
+    def real_valued(self) -> bool | None:
+        """Get whether only the real part of the input is used."""
+        return self._real_valued
+
+    def copy(self, *args, **kwargs) -> GraphComponent:
+        return super().copy(*args, **kwargs, real_valued=self._real_valued)
+
     @classmethod
     def type_name(cls) -> TypeName:
         return TypeName("recsqrt")
-- 
2.43.0


From 543050acbc82aca7d91b2024214696a2da7c2306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 31/34] fix: VHDL printing of complex reciprocal square root
 with the AMD floating-point backend

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index 91170d6..05fa619 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -1435,7 +1435,7 @@ class VhdlPrinter(Printer):
     ) -> tuple[WLS, CODE]:
         if self._fp_backend != "amd":
             return self.print_default()
-        if not pe._process_collection.collection[0].real_valued:
+        if not pe.processes[0].operation.real_valued:
             return self.print_default()
         # Real-valued operation using AMD Floating-point IP
         return self._amd_fp_backend(
-- 
2.43.0


From fef187772d9882902d5f06acfd3b84dfe50eb7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 32/34] fix: SFG error messages show the signal they complain
 about

---
 lib/b_asic/sfg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 8d4d5a2..70aa15b 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -1706,7 +1706,7 @@ class SFG(AbstractOperation):
                     elif original_signal not in self._original_components_to_new:
                         if original_signal.source is None:
                             raise ValueError(
-                                "Dangling signal ({original_signal}) without"
+                                f"Dangling signal ({original_signal}) without"
                                 " source in SFG"
                             )
 
@@ -2343,7 +2343,7 @@ class SFG(AbstractOperation):
                             queue.append(new_op)
                             visited.add(new_op)
                     else:
-                        raise ValueError("Destination for {signal!r} does not exist")
+                        raise ValueError(f"Destination for {signal!r} does not exist")
         cycles = []
         for cycle in nx.simple_cycles(graph):
             min_idx = cycle.index(min(cycle))
-- 
2.43.0


From 187c62b83105b8c3b5737122ab6c1adb00c46986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 33/34] fix: setting the latency of a type that no operation
 has leaves the schedule as it is

---
 lib/b_asic/schedule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 75d3cd3..fbcf8b0 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -725,7 +725,7 @@ class Schedule:
                         f"Cannot increase latency for {op.graph_id}. Try increasing forward slack time by rescheduling."
                     )
                     break
-        if change_in_latency < 0 or passed:
+        if passed:
             for op in self._sfg.operations:
                 if type_name in (op.type_name(), op.graph_id):
                     cast(Operation, op).set_latency(latency)
@@ -753,7 +753,7 @@ class Schedule:
                         f"Cannot increase latency for {op.graph_id}. Try increasing forward slack time by rescheduling."
                     )
                     break
-        if change_in_latency < 0 or passed:
+        if passed:
             for op in self._sfg.operations:
                 if isinstance(op, operation_type):
                     cast(Operation, op).set_latency(latency)
-- 
2.43.0


From 78ebbee2c58b1e8f6d956acec691d63d9e169718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:34 +0000
Subject: [PATCH 34/34] fix: simulating zero iterations returns no results
 instead of raising UnboundLocalError

---
 lib/b_asic/simulation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/simulation.py b/lib/b_asic/simulation.py
index bf5544e..dbd3733 100644
--- a/lib/b_asic/simulation.py
+++ b/lib/b_asic/simulation.py
@@ -181,8 +181,9 @@ class Simulation:
                         input_vals.append(val)
             return input_vals
 
+        results: dict[ResultKey, Num] = {}
         while self._iteration < iteration:
-            results: dict[ResultKey, Num] = {}
+            results = {}
             # Fetch the input values for this iteration
             input_values = [
                 self._input_functions[i](self._iteration)
@@ -240,6 +241,9 @@ class Simulation:
                     self._results[key].append(value)
             self._iteration += 1
 
+        # No iteration was left to simulate
+        if not results:
+            return []
         return [results[op.graph_id] for op in self._sfg.output_operations]
 
     def run_for(self, iterations: int, save_results: bool = True) -> Sequence[Num]:
-- 
2.43.0

